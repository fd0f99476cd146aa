"""Writes properties.jsonl (the listed properties and their anchors)."""
import json
import os

F = 'dcf/'


def p(id_, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    return {'id': id_, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': [F + f for f in files],
                        'mechanism': [{'name': n, 'where': F + w} for n, w in mech],
                        'state': [{'name': n, 'meaning': m, 'where': F + w} for n, m, w in state],
                        'observe_at': list(observe), 'hook_needed': hook}}


P = [
    p('C01', 'Interpolation reproduces the points and the documented function between them',
      'Every interpolation returns the given value at every given point and, between and beyond the points, the value of its documented '
      'function (piecewise constant from the left or right, nearest, linear, log-linear, log-linear or constant in rates, default value), '
      'independently of the order and container in which the points were given. A three part scheme uses its left part before the first point, '
      'its right part beyond the last point and its middle part in between; data which an interpolation can not use (non positive values for '
      'logarithmic ones, duplicated points in schemes) is refused with an exception.',
      ['inputs', 'configurations'],
      'all finite sets of points, all orders and containers, all arguments, all interpolation functions and all triples of them',
      'tests sample a few x values on two or three fixed point sets per function; argument positions relative to the points, unsorted input, '
      'single points, the point zero and combinations of left/mid/right parts are not enumerated',
      ['interpolation.py'],
      [('bisection over sorted points', 'interpolation.py:base_interpolation.__call__ of left/right/nearest/linear'),
       ('log and rate transformation', 'interpolation.py:loglinear, loglinearrate, logconstantrate'),
       ('choice of the part', 'interpolation.py:interpolation_scheme.__call__')],
      [('x_list, y_list', 'sorted points', 'interpolation.py:base_interpolation')],
      ['interpolation object called with a number', 'curve called with a date']),
    p('C02', 'A curve is a map of points through any history of updates',
      'After any sequence of point assignments, evaluations and spread or fixing changes a curve is the interpolation of exactly the points last '
      'assigned: membership, iteration, item access and evaluation all agree with this map of points, untouched points keep their value and '
      'replacing or adding a point takes effect in all later queries. Item access at a date without point raises KeyError and an update the '
      'interpolation can not represent raises and leaves the curve as it was. Lists the curve was made of may change afterwards without effect.',
      ['histories', 'inputs', 'fault_sequences'],
      'all histories of assignments (new, replaced, first, last, between, refused), spread and fixing changes and queries, on all curve classes and interpolations',
      'the only update test assigns one point of one curve; refreshing of transformed points, origins and bounds after interleaved updates and '
      'queries is a statement about all histories',
      ['curves/curve.py', 'interpolation.py'],
      [('points merged and interpolation updated in place', 'curves/curve.py:Curve._update, Curve.__setitem__'),
       ('date to time conversion on update', 'curves/curve.py:DateCurve._update'),
       ('replacement of points', 'interpolation.py:base_interpolation._update')],
      [('_domain', 'dates of the curve', 'curves/curve.py:DateCurve'), ('_func', 'interpolation', 'curves/curve.py:Curve')],
      ['curve[date] = value', 'date in curve', 'iter(curve)', 'curve[date]', 'curve(date)']),
    p('C03', 'Curve arithmetic is pointwise, shifting moves dates and keeps values',
      'Sum, difference, product and quotient of two curves of a common origin have the points of both and on these points the sum, difference, '
      'product or quotient of the values, expressed in the kind of the left curve; class, interpolation, origin and day count of the left curve are kept and both '
      'operands stay unchanged. A quotient by zero raises ZeroDivisionError. A shifted curve has every date and the origin moved by the given '
      'amount, the values of the old one on the old dates and its tenor.',
      ['inputs', 'configurations'],
      'all pairs of curves (class, dates, values, interpolation, spread, fixings) of a common origin and all shifts',
      'tests add and multiply one pair of curves on equal dates and never look at origin, day count or operands with spread',
      ['curves/curve.py'],
      [('union of points and pointwise operation', 'curves/curve.py:Curve.__add__/__sub__/__mul__/__div__'),
       ('origin and day count carried over', 'curves/curve.py:DateCurve.__add__ ... __div__'),
       ('cast of the right operand', 'curves/curve.py:RateCurve.__add__ ... __div__'),
       ('shift', 'curves/curve.py:Curve.shifted, DateCurve.shifted')], (),
      ['a + b, a - b, a * b, a / b', 'curve.shifted(delta)']),
    p('C04', 'Dated curves: origin, day count, fixings and date types',
      'A dated curve answers in terms of the year fraction from its origin, which is the given origin or else the first date given, by its day count: '
      'evaluation, day count, mean value over an interval, slope and the rate table agree with that, and a fixing replaces the value on its date and only there until '
      'removed. The same curve given in plain dates or in business dates gives the same values.',
      ['inputs', 'histories', 'configurations'],
      'all dated curves (float, date and business date), origins before, at or after the first date, day counts, histories of fixings, all argument dates',
      'tests use dates on the curve grid with the default day count and fixings on one curve; argument dates before the origin, origins off '
      'the grid and other day counts are sampled at most once',
      ['curves/curve.py', 'daycount.py'],
      [('time conversion', 'curves/curve.py:DateCurve.day_count'), ('fixings first', 'curves/curve.py:DateCurve.__call__'),
       ('mean and slope', 'curves/curve.py:DateCurve.integrate, DateCurve.derivative'), ('table', 'curves/curve.py:rate_table'),
       ('default year fraction', 'daycount.py:day_count')],
      [('origin', 'reference date of times', 'curves/curve.py:DateCurve.origin'),
       ('fixings', 'values overriding the curve', 'curves/curve.py:DateCurve.fixings')],
      ['curve(date)', 'curve.origin', 'curve.day_count', 'curve.integrate', 'curve.derivative', 'curve.table', 'rate_table']),
    p('C05', 'Discount factors, zero, short, cash rates and annuities are consistent',
      'On every interest rate curve discount factors multiply along adjacent periods (of cash rate curves along whole tenors), equal one on empty '
      'periods and are the exponential of minus '
      'zero rate times year fraction. A cash rate is the simply compounded rate of the discount factor of its period, which for the own tenor of a '
      'cash rate curve is the curve value; short rates are the rates of the enclosing grid interval and a swap annuity is the sum of year fractions '
      'times discount factors.',
      ['inputs', 'configurations'],
      'all four kinds of interest rate curves, data, interpolations, day counts, origins, forward tenors, spreads and all ordered date triples, on and off the grid',
      'tests compare the curve kinds on one data set and grid dates; identities for arbitrary dates, periods longer than or broken against the tenor, '
      'start before origin and non default day counts are quantified over all inputs',
      ['curves/interestratecurve.py', 'curves/curve.py', 'compounding.py'],
      [('compounding factor and rate', 'curves/interestratecurve.py:_get_compounding_factor, _get_compounding_rate of each class'),
       ('roll out of simple rates', 'curves/interestratecurve.py:CashRateCurve._get_compounding_rate'),
       ('grid interval of short rate', 'curves/interestratecurve.py:InterestRateCurve._get_short_rate'),
       ('annuity', 'curves/interestratecurve.py:InterestRateCurve.get_swap_annuity')], (),
      ['get_discount_factor', 'get_zero_rate', 'get_short_rate', 'get_cash_rate', 'get_swap_annuity']),
    p('C06', 'Converting a curve to another kind preserves what it says on its dates',
      'A rate, probability or volatility curve built from another one (optionally on given dates, with given origin, day count or tenor) returns on '
      'each of its dates the quantity of its kind as the source returns it, and keeps origin, day count and interpolation, also if '
      'these are functions of the user, unless told otherwise. Hence '
      'discount factors, survival probabilities and volatilities agree with the source on the grid dates.',
      ['inputs', 'configurations'],
      'all pairs of source and target kinds of a family, data, interpolations, day counts, origins, tenors and grids',
      'tests cast two curves in both directions with default arguments and compare on grid dates to few digits',
      ['curves/curve.py', 'curves/interestratecurve.py', 'curves/creditcurve.py', 'curves/volatilitycurve.py'],
      [('storage value of the target', 'curves/*.py:_get_storage_value of each class'),
       ('additional grid dates', 'curves/*.py:__init__ of each class'), ('cast', 'curves/curve.py:RateCurve.__init__, RateCurve.cast')], (),
      ['Class(curve)', 'Class(dates, curve)', 'curve.cast(Class)']),
    p('C07', 'Survival probabilities, intensities and hazard rates are consistent',
      'On every credit curve survival probabilities multiply along adjacent periods (of marginal curves along whole tenors), equal one on empty '
      'periods and are the exponential of minus flat '
      'intensity times year fraction; default probability curves are one minus survival in data and values kept in between zero and one. Hazard rates '
      'are the intensities of the enclosing grid interval and marginal probabilities compound over their tenor.',
      ['inputs', 'configurations'],
      'all six kinds of credit curves, data including zero and one, interpolations, day counts, origins, tenors and all ordered date triples',
      'tests compare curve kinds on one data set and grid dates',
      ['curves/creditcurve.py', 'curves/curve.py'],
      [('compounding factor and rate', 'curves/creditcurve.py:_get_compounding_factor, _get_compounding_rate of each class'),
       ('clipping of probabilities', 'curves/creditcurve.py:ProbabilityCurve.__init__'),
       ('one minus', 'curves/creditcurve.py:DefaultProbabilityCurve.__init__, MarginalDefaultProbabilityCurve.__init__'),
       ('tenor roll out', 'curves/creditcurve.py:MarginalSurvivalProbabilityCurve._get_compounding_factor')], (),
      ['get_survival_prob', 'get_flat_intensity', 'get_hazard_rate']),
    p('C08', 'Volatilities add up in variance or in mean',
      'A terminal volatility curve returns between two dates the square root of the variance in between per year and refuses decreasing variance with '
      'ZeroDivisionError; an instantaneous volatility curve returns the time average of its values as terminal volatility. Volatilities on empty '
      'periods, of reversed periods and instantaneous volatilities are the documented limits. A class with a floor returns at least the floor and refuses nothing.',
      ['inputs', 'configurations'],
      'all volatility curves (data, spreads, day counts, origins) and all date pairs',
      'tests query both curves on the grid with one data set',
      ['curves/volatilitycurve.py', 'curves/curve.py'],
      [('variance between dates', 'curves/volatilitycurve.py:TerminalVolatilityCurve.get_terminal_vol'),
       ('mean value', 'curves/volatilitycurve.py:InstantaneousVolatilityCurve.get_terminal_vol, curves/curve.py:DateCurve.integrate')], (),
      ['get_terminal_vol', 'get_instantaneous_vol']),
    p('C09', 'A spread adds to a rate curve exactly while it is set',
      'While a spread curve is set every value of a rate curve is its own value plus the value of the spread on that date, and everything derived '
      'follows; removing the spread restores the curve. Setting a spread over an existing one raises TypeError and changes nothing, and updates of the '
      'spread curve take effect at once.',
      ['histories', 'inputs'],
      'all histories of setting, refusing, removing and updating spreads, fixings and points, interleaved with queries, on all rate curve classes',
      'tests set one spread on one curve once',
      ['curves/curve.py'],
      [('spread protocol', 'curves/curve.py:RateCurve.spread setter'), ('addition', 'curves/curve.py:RateCurve.__call__')],
      [('spread', 'the spread curve', 'curves/curve.py:RateCurve')],
      ['curve.spread', 'curve(date)', 'rates and factors']),
    p('C10', 'Forward curves extrapolate by yield and currency crosses are arbitrage free',
      'Up to its last date a forward curve is its interpolation, beyond it grows from the last value by the inverse discount factor of its yield (number or curve) and '
      'an fx forward curve by the ratio of foreign and domestic discount factors. In a currency container every pair is quoted, the reversed pair is the '
      'reciprocal and crosses are products over the base currency, through any history of additions and replacements.',
      ['histories', 'inputs'],
      'all forward curves and yields, all sequences of adding and assigning currencies and all pairs and dates',
      'tests use one container filled once and one yield',
      ['curves/curve.py', 'curves/fx.py'],
      [('extrapolation', 'curves/curve.py:ForwardCurve.get_forward_price, curves/fx.py:FxForwardCurve.get_forward_price'),
       ('crosses', 'curves/fx.py:FxContainer.add, FxContainer.__setitem__')],
      [('container', 'pair to forward curve', 'curves/fx.py:FxContainer')],
      ['forward_curve(date)', 'container[domestic, foreign]', 'container.get_forward_price']),
    p('C11', 'Redemption plans sum up to their notional',
      'Every plan has one payment per period; bullet, amortizing and annuity plans sum up to the notional, and annuity plans make redemption plus interest constant '
      'also for negative and zero rates. The outstanding amounts are the notional minus (or plus) the payments made before, each period.',
      ['inputs'],
      'all numbers of periods, amounts of either sign and rates',
      'tests use one number of periods and amount per plan',
      ['plans.py'],
      [('plan formulas', 'plans.py:same, bullet, amortize, annuity, consumer'), ('running balance', 'plans.py:outstanding')], (),
      ['plan functions', 'outstanding']),
    p('C12', 'Compounding conventions and their inverses round trip',
      'The discount factor of every compounding convention is the documented function of rate and period, equal to one for a zero rate or period, and the rate function of a convention '
      'gives back the rate from which the discount factor was computed. Annual to daily compounding are periodic compounding of their frequency.',
      ['inputs'],
      'all rates in the domain of the convention, periods and frequencies',
      'tests check a handful of rate and period pairs',
      ['compounding.py'],
      [('closed formulas', 'compounding.py:simple_*, continuous_*, periodic_*, annually/semi/quarterly/monthly/daily_compounding')], (),
      ['compounding functions']),
    p('C13', 'Interest cashflows roll out period by period',
      'A rate cashflow list pays on each date notional times year fraction times fixed rate plus forward rate of the fixing date, for the period from the previous '
      'payment date (or the origin) to the payment date with offsets applied. The table shows the same figures. Setting the fixed rate changes all '
      'periods at once, changing a single payment changes that payment only (then there is no common fixed rate).',
      ['inputs', 'histories', 'configurations'],
      'all schedules (float, date, business date), notionals, offsets, day counts, forward references (none, number, curve) and changes of rate and curve',
      'tests roll out a few regular schedules without offsets',
      ['cashflows/cashflow.py', 'cashflows/payoffs.py'],
      [('periods', 'cashflows/cashflow.py:RateCashFlowList.__init__'), ('interest amount', 'cashflows/payoffs.py:RateCashFlowPayOff.details')],
      [('forward_curve', 'projection', 'cashflows/cashflow.py:RateCashFlowList')],
      ['list[date]', 'list.table', 'list.fixed_rate', 'list()']),
    p('C14', 'Cashflow lists are maps and legs add up',
      'A cashflow list pays what was given on its dates and zero on all other dates, for single dates and lists of dates; a list of amounts, strikes or put flags of the wrong length '
      'is refused by every class, and lists given may change afterwards without effect. Payoffs may be numbers, functions or payoff objects side by side. A leg list pays on each date the sum of its legs, on the union of their dates, from the earliest of their origins, legs may be leg lists themselves. Rolling out a list, or making a list of fixed flows of it (under an own origin if one is given), gives the list of its projected flows.',
      ['inputs', 'histories', 'configurations'],
      'all cashflow lists of all classes, nesting in legs, dates on and off the schedule, later changes of the legs',
      'tests read a list on its own dates',
      ['cashflows/cashflow.py', 'cashflows/contingent.py'],
      [('payoff by date', 'cashflows/cashflow.py:CashFlowList.__getitem__'), ('sum over legs', 'cashflows/cashflow.py:CashFlowLegList.__getitem__'),
       ('roll out', 'cashflows/cashflow.py:CashFlowList.__call__')],
      [('_flows', 'date to payoff', 'cashflows/cashflow.py:CashFlowList')],
      ['list[date]', 'list[dates]', 'list.domain', 'list.origin', 'list.table', 'list()', 'list.payoff(date)']),
    p('C15', 'Contingent cashflows are notional times option values of the model',
      'Option cashflows pay amount times call or put value of the payoff model at expiry (payment date less offsets) and strike, option strategies (of ten options at most, longer ones are refused) the sum of theirs, and zero without a '
      'model. Collared interest is interest at forward plus floorlet minus caplet per notional and year fraction, so cap and floor at one '
      'strike exchange floating for fixed interest. The tables of option and collar lists show the strikes, forwards, volatilities, times to expiry and worth of caplets and floorlets used.',
      ['inputs', 'configurations'],
      'all schedules, amounts, strikes (given or at the money), cap and floor combinations, offsets and all payoff models',
      'tests value one list of each kind with one model',
      ['cashflows/contingent.py', 'cashflows/payoffs.py', 'models/optionpricing.py'],
      [('option amount', 'cashflows/payoffs.py:OptionCashFlowPayOff.details, OptionStrategyCashFlowPayOff.details'),
       ('collar', 'cashflows/payoffs.py:ContingentRateCashFlowPayOff.details'),
       ('construction', 'cashflows/contingent.py:OptionCashflowList, OptionStrategyCashflowList, ContingentRateCashFlowList')],
      [('payoff_model', 'projection', 'cashflows/contingent.py:ContingentCashFlowList')],
      ['list[date]', 'list.table', 'list()']),
    p('C16', 'Option prices, parity and sensitivities',
      'Call minus put of every non binary model is forward minus strike, at or past expiry or without volatility prices are intrinsic, otherwise they are the '
      'documented closed formula at forward, strike, time and volatility taken from the model curves (the binary call price included). Delta, gamma and vega of the normal, '
      'log-normal, displaced and intrinsic models are the derivatives of the price per market step, by closed formula or finite difference, put and call related by parity, '
      'in the step sizes and units the class states; a pricing function of the user makes a model of the same rules.',
      ['inputs', 'configurations', 'histories'],
      'all models, forwards, strikes, displacements, volatilities, valuation and expiry dates, day counts, constant or curve inputs and changes of model inputs',
      'tests evaluate few strikes and one expiry per model',
      ['models/optionpricing.py', 'models/bachelier.py', 'models/black76.py', 'models/displaced.py', 'models/intrinsic.py', 'models/distibutions.py'],
      [('formula inputs', 'models/optionpricing.py:OptionPayOffModel._tsfv'), ('parity and limits', 'models/optionpricing.py:get_put_value, get_call_value'),
       ('closed formulas', 'models/*.py:_call_price, _call_delta, _call_gamma, _call_vega'), ('normal distribution', 'models/distibutions.py')],
      [('valuation_date, forward_curve, volatility_curve', 'inputs', 'models/optionpricing.py:OptionPayOffModel')],
      ['get_call_value', 'get_put_value', 'get_call_delta', 'get_put_delta', 'get_call_gamma', 'get_call_vega', 'details']),
    p('C17', 'The present value is the sum of discounted flows not before valuation',
      'The present value of a list or legs is the sum over payment dates on or after the valuation date (default: origin of the discount curve) of flow times '
      'discount factor from the valuation date. It is additive over legs, linear in amounts, and contingent flows are valued as of the valuation date.',
      ['inputs', 'configurations'],
      'all cashflow lists, leg lists, discount curves (with spread or not), payoff models and valuation dates before, on and after payment dates',
      'tests value products as of the origin',
      ['pricer.py'],
      [('filter and sum', 'pricer.py:get_present_value')], (),
      ['get_present_value']),
    p('C18', 'Solved yields, rates and curves reproduce the given value',
      'Yield to maturity, fair rate and fitted curve points put back into the valuation reproduce the given present value within the requested precision of the solution. '
      'A search interval on which the target is not bracketed is refused with AssertionError, and the search ends for every precision. This holds for lists and legs, any day count of the yield, valuation dates between payments and curves fitted to project as well as to discount.',
      ['inputs', 'configurations'],
      'all cashflow lists with solution, targets, valuation dates, bounds and precisions down to below double precision, and all bounds without solution',
      'tests solve a few par products',
      ['pricer.py'],
      [('bracketing', 'pricer.py:_simple_bracketing'), ('error functions', 'pricer.py:get_yield_to_maturity, get_fair_rate, get_curve_fit')], (),
      ['get_yield_to_maturity', 'get_fair_rate', 'get_curve_fit']),
    p('C19', 'Basis point value and bucketed deltas are spread sensitivities',
      'The basis point value is the change of present value under a parallel shift of the delta curves, per basis point, and bucketed deltas the changes under the triangular '
      'shifts of a grid; as the triangular shifts add up to the parallel one, so do the deltas to first order. A delta curve which already has a spread is refused with TypeError.',
      ['inputs', 'configurations'],
      'all cashflow lists, discount curves, one or several delta curves, grids of one to many dates, shifts and valuation dates',
      'tests check one bpv and one bucket vector for one bond',
      ['pricer.py'],
      [('parallel shift', 'pricer.py:get_basis_point_value'), ('triangular shift', 'pricer.py:get_bucketed_delta')], (),
      ['get_basis_point_value', 'get_bucketed_delta']),
    p('C20', 'Interest accrues linearly within its own period',
      'Accrued interest at a date is the sum over interest periods begun before and paid on or after that date of the interest times the elapsed share of the '
      'period, never more than the whole interest. It is zero at the start of a period, additive over legs, and fixed flows do not accrue.',
      ['inputs', 'configurations'],
      'all schedules, offsets, day counts, leg lists and valuation dates before, on, between and after all period dates',
      'tests ask for accrued interest of a bond at a few dates',
      ['pricer.py'],
      [('elapsed share', 'pricer.py:get_interest_accrued')], (),
      ['get_interest_accrued']),
    p('C21', 'Valuation leaves curves, lists and models as they were, also on failure',
      'Valuation, solving, sensitivities and accruals leave curve spreads and points, fixed rates, references and model valuation dates as they were, whether the call '
      'returns or raises at any point in the middle. Repeating a call gives the same result, and sequences passed as arguments are left alone.',
      ['histories', 'fault_sequences', 'crash_points'],
      'all valuation functions, any point of failure inside user supplied curves and models, all sequences of calls',
      'tests check neither the inputs after a call nor any failing call',
      ['pricer.py', 'curves/curve.py'],
      [('temporary spread, rate and date changes', 'pricer.py:get_present_value, get_fair_rate, get_basis_point_value, get_bucketed_delta, get_curve_fit')],
      [('spread', 'temporary bump', 'curves/curve.py:RateCurve.spread'), ('fixed_rate', 'temporary rate', 'cashflows/cashflow.py:RateCashFlowList.fixed_rate'),
       ('valuation_date', 'temporary date', 'models/optionpricing.py:OptionPayOffModel')],
      ['inputs queried after every call']),
    p('C22', 'Ratings decompose over the master scale and keep their probability',
      'A rating of a probability within the scale is carried by its two neighbouring classes with non negative weights adding to one whose mean is the probability; '
      'at a class it is that class. A value outside of the scale is refused with ValueError, and scales made from names are ordered, geometric and end with one. A scale is a dictionary: a class added or moved counts for every later rating.',
      ['inputs', 'configurations'],
      'all ascending master scales and all probabilities inside, on and outside of the scale, given as value or name',
      'tests rate a few values on the default scale',
      ['ratingclass.py'],
      [('neighbours and weights', 'ratingclass.py:RatingClass.__init__, vector'), ('scale', 'ratingclass.py:RatingClass.master_scale.fromkeys')],
      [('vector', 'weights', 'ratingclass.py:RatingClass')],
      ['list(rating)', 'rating.vector', 'float(rating)', 'rating.name', 'master_scale']),
    p('C23', 'Bonds and swaps are built from their terms',
      'A bond pays minus its notional at the start, its redemptions on the schedule, and interest on the outstanding amount each period; a swap pays fixed on the one and receives floating on '
      'the other leg. The schedule is stepped back from the end date by the period, adjusted by the business day convention, and starts after the start date, a short first period included, on no weekend and holiday. Terms left out have their documented defaults.',
      ['inputs', 'configurations'],
      'all start and end dates (float, date, business date), periods, conventions, notionals or redemption plans, rates and offsets',
      'tests build a few bonds and swaps with regular schedules',
      ['cashflows/products.py', 'cashflows/cashflow.py'],
      [('schedule', 'cashflows/products.py:_interest_payment_dates'), ('legs', 'cashflows/products.py:bond, interest_rate_swap')], (),
      ['bond(...)', 'interest_rate_swap(...)', 'legs', 'present value']),
    p('C24', 'A curve rebuilt from its own description or copied is the same curve',
      'Rebuilding a curve from its keyword description gives a curve with the same dates, values, interpolation, origin, day count and tenor (if day count and interpolation have names), and copying to a plain or '
      'dated curve, on own or given dates, keeps values. Original and copy are independent: later updates of one never show in the other.',
      ['inputs', 'histories', 'configurations'],
      'all curve classes and configurations without spread and fixings, all histories of updates before and after copying',
      'tests compare reprs and kwargs of untouched curves',
      ['curves/curve.py', 'curves/creditcurve.py'],
      [('description', 'curves/curve.py:Curve.kwargs, curves/creditcurve.py:kwargs of default curves'), ('copy', 'curves/curve.py:Curve.__init__, DateCurve.__init__')], (),
      ['curve.kwargs', 'Class(**kwargs)', 'Curve(curve)', 'DateCurve(dates, curve)']),
]

if __name__ == '__main__':
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
