"""Executes programs (lists of events) on dcf and records the outcomes.

The driver knows nothing about what is right.  It turns every event into calls
of the public API of dcf and writes down what came back: a number, a sequence
of numbers, an exception, ...  The recorded execution is judged by the
specification (spec/Trace.tla).

    driver.py PROGRAMS TRACES
"""
import json
import logging
import math
import os
import signal
import sys
import warnings
from datetime import date, timedelta

REPO = os.environ.get('DCF_REPO', '/repo')
sys.path.insert(0, REPO)
warnings.simplefilter('ignore')

import dcf  # noqa E402
from dcf import interpolation as ip, plans, compounding, models  # noqa E402
from dcf.curves.curve import DateCurve  # noqa E402
from dcf.models.optionpricing import BinaryOptionPayOffModel, OptionPayOffModel  # noqa E402
from businessdate import BusinessDate  # noqa E402

logging.disable(logging.CRITICAL)
assert os.path.realpath(dcf.__file__).startswith(os.path.realpath(REPO) + os.sep), dcf.__file__


def _days(start, end):
    if hasattr(start, 'diff_in_days'):
        return float(start.diff_in_days(end))
    diff = end - start
    return float(diff.days) if hasattr(diff, 'days') else float(diff)


def act360(start, end):
    return _days(start, end) / 360.


def act365(start, end):
    return _days(start, end) / 365.


def half(start, end):
    return _days(start, end) / 2.


def d30360(start, end):
    a, b = min(start.day, 30), end.day
    b = min(b, 30) if a == 30 else b
    return ((end.year - start.year) * 360 + (end.month - start.month) * 30 + b - a) / 360.


DAY_COUNTS = {'act360': act360, 'act365': act365, 'half': half, 'd30360': d30360}


def unnamed(name):
    """a day count function of the user which is not registered by name"""
    def count(start, end):
        return DAY_COUNTS[name](start, end)
    count.__name__ = 'my ' + name
    return count


# named day counts of the user
DateCurve.DAY_COUNT.update(DAY_COUNTS)


class Boom(Exception):
    """injected failure"""


class ArgumentChanged(Exception):
    """a list passed as an argument is not what it was"""


class Timeout(Exception):
    """a call which does not come back"""


def ring(*_):
    raise Timeout('no answer')


signal.signal(signal.SIGPROF, ring)
PATIENCE = [20., 5., 2.]  # cpu seconds per call, less after calls timed out
timeouts = 0


class Fuse:
    left = None  # calls until failure, None: never

    @classmethod
    def burn(cls):
        if cls.left is not None:
            if cls.left == 0:
                raise Boom('injected')
            cls.left -= 1


_failing = dict()


def failing(cls):
    """user defined curve or model class which may fail"""
    if cls not in _failing:
        def wrap(name):
            inner = getattr(cls, name)

            def method(self, *args, **kwargs):
                Fuse.burn()
                return inner(self, *args, **kwargs)
            return method

        names = ('get_discount_factor', 'get_cash_rate', 'get_forward_price', 'get_call_value', 'get_put_value')
        _failing[cls] = type(cls.__name__, (cls,), {n: wrap(n) for n in names if hasattr(cls, n)})
    return _failing[cls]


def hyperbolic(self, time, strike, forward, volatility):
    """option pricing formula of the user"""
    half = (forward - strike) / 2.
    return half + math.sqrt(half * half + volatility * volatility * time)


UNITS = {'dsh': 'DELTA_SHIFT', 'dsc': 'DELTA_SCALE', 'vsh': 'VEGA_SHIFT', 'vsc': 'VEGA_SCALE', 'tsh': 'THETA_SHIFT', 'tsc': 'THETA_SCALE'}


def model_class(name, units=None):
    """a model class, possibly with other differences and units"""
    if name == 'UserOptionPayOffModel':
        cls = OptionPayOffModel.from_function(hyperbolic, name)
    elif name == 'BinaryOptionPayOffModel':
        cls = BinaryOptionPayOffModel
    else:
        cls = getattr(models, name)
    return type(name, (cls,), {UNITS[k]: float(v) for k, v in units.items()}) if units else cls


def num(v):
    """numeral of a number or 'nan'"""
    v = float(v.days if isinstance(v, timedelta) else v)
    return repr(v) if v - v == 0 else 'nan'


def tenor(t):
    """forward tenor as given in events"""
    return str(t.days) if isinstance(t, timedelta) else str(t)


WHOLE = False


def real(s):
    """a number as a user may write it: whole numbers as integers in some programs"""
    v = float(s)
    return int(v) if WHOLE and v == int(v) else v


class Run:
    def __init__(self, kind, pure=False):
        self.kind = kind
        self.pure = pure
        self.lent = list()
        self.objs = dict()
        self.interpolations = dict()

    # ---------------------------------------------------------------- coding
    def d(self, s):
        if s == 'none':
            return None
        if self.kind == 'f':
            return real(s)
        n = int(float(s))
        return date.fromordinal(n) if self.kind == 'd' else BusinessDate.fromordinal(n)

    def ds(self, x):
        return self.lend([self.d(s) for s in x])

    def off(self, s):
        """offset or tenor"""
        if s == 'none':
            return None
        if self.kind == 'f':
            return real(s)
        return timedelta(days=int(float(s))) if self.kind == 'd' else s

    def o(self, s):
        """object, number or None"""
        if s == 'none':
            return None
        return self.objs[s] if s in self.objs else real(s)

    def fl(self, x):
        return self.lend([real(y) for y in x])

    def lend(self, x):
        """remembers what lists passed to dcf looked like"""
        self.lent.append((x, tuple(x)))
        return x

    def returned(self):
        return all(len(x) == len(y) and all(a is b for a, b in zip(x, y)) for x, y in self.lent)

    @staticmethod
    def box(e, x):
        return tuple(x) if e.get('box') == 'tuple' else x

    @staticmethod
    def opt(s):
        return None if s == 'none' else real(s)

    def put(self, v):
        if isinstance(v, bool):
            return {'t': 'b', 'v': v}
        if v is None:
            return {'t': 'none', 'v': 'none'}
        if isinstance(v, str):
            return {'t': 'str', 'v': v}
        if isinstance(v, (list, tuple)):
            return {'t': 's', 'v': [self.put1(x) for x in v]}
        s = self.put1(v)
        return {'t': 'nan', 'v': 'nan'} if s == 'nan' else {'t': 'n', 'v': s}

    def put1(self, v):
        if hasattr(v, 'toordinal'):
            return str(v.toordinal())
        if v is None or isinstance(v, str):
            return 'nan'
        return num(v)

    def dc(self, s, function=False):
        if s == 'none':
            return None
        return DAY_COUNTS[s] if function else s

    # ---------------------------------------------------------------- running
    def step(self, e):
        global timeouts
        signal.setitimer(signal.ITIMER_PROF, PATIENCE[min(timeouts, len(PATIENCE) - 1)])
        try:
            try:
                r = getattr(self, 'op_' + e['op'])(e)
            finally:
                if self.pure:
                    kept = self.returned()
                    self.lent = [] if not kept else self.lent
                    if not kept:
                        raise ArgumentChanged(e['op'])
                else:
                    for x, _ in self.lent:
                        x.clear()   # objects of dcf do not live on lists of the user
                    self.lent = []
            return r if isinstance(r, dict) and 't' in r else self.put(r)
        except Timeout:
            timeouts += 1
            return {'t': 'x', 'v': 'Timeout', 'mro': ['Timeout', 'Exception']}
        except RecursionError:
            return {'t': 'x', 'v': 'RecursionError', 'mro': ['RecursionError', 'RuntimeError']}
        except Exception as ex:
            return {'t': 'x', 'v': type(ex).__name__, 'mro': [c.__name__ for c in type(ex).__mro__]}
        finally:
            signal.setitimer(signal.ITIMER_PROF, 0)

    # ---------------------------------------------------------------- curves
    @staticmethod
    def itp(name, how):
        """ an interpolation by name, as an object or under a name of the user """
        f = getattr(ip, name, None)
        if how == 'object' and getattr(f, '__name__', None) == name:
            return f
        if how == 'mine' and f is not None:
            return type('my ' + name, (f,), dict())
        if how == 'own' and f is not None:
            dcf.Curve.INTERPOLATIONS['own ' + name] = f
            return 'own ' + name
        return name

    def op_new(self, e):
        cls = getattr(dcf, e['cls'])
        if e.get('failing'):
            cls = failing(cls)
        if 'floor' in e:    # a class of the user
            cls = type(e['cls'], (cls,), {'FLOOR': real(e['floor'])})
        kw = dict()
        if e.get('itp', 'none') != 'none':
            kw['interpolation'] = self.itp(e['itp'], e.get('itpas'))
        if e['cls'] != 'Curve':
            if e.get('org', 'none') != 'none':
                kw['origin'] = self.d(e['org'])
            if e.get('dc', 'none') != 'none':
                kw['day_count'] = unnamed(e['dc']) if e.get('dcas') == 'mine' else self.dc(e['dc'])
        if e.get('ten', 'none') != 'none':
            kw['forward_tenor'] = self.off(e['ten'])
        if 'yc' in e:
            kw['yield_curve'] = self.o(e['yc'])
        if 'dom' in e:
            kw['domestic_curve'] = self.o(e['dom'])
            kw['foreign_curve'] = self.o(e['fgn'])
        x, y = self.box(e, self.ds(e['x'])), self.box(e, self.fl(e['y']))
        if e.get('price') == 'float':
            kw['origin'] = x[0]
            c = cls(y[0], **kw)
        elif e.get('price'):
            c = cls((dcf.FxRate if e['price'] == 'fx' else dcf.Price)(y[0], x[0]), **kw)
        else:
            c = cls(x, y, **kw)
        self.objs[e['id']] = c

    def castkw(self, e):
        kw = dict()
        if e.get('org', 'none') != 'none':
            kw['origin'] = self.d(e['org'])
        if e.get('dc', 'none') != 'none':
            kw['day_count'] = self.dc(e['dc'])
        if e.get('ten', 'none') != 'none':
            kw['forward_tenor'] = self.off(e['ten'])
        if e.get('itp', 'none') != 'none':
            kw['interpolation'] = e['itp']
        return kw

    def op_cast(self, e):
        src = self.objs[e['src']]
        if e.get('via') == 'cast':
            self.objs[e['id']] = src.cast(getattr(dcf, e['cls']), **self.castkw(e))
        elif e.get('via') == 'to_curve':
            self.objs[e['id']] = src.to_curve()
        elif e.get('via') == 'points':
            self.objs[e['id']] = getattr(dcf, e['cls'])(src, [.5] * len(src.domain), **self.castkw(e))
        else:
            self.objs[e['id']] = getattr(dcf, e['cls'])(src, **self.castkw(e))

    def op_caston(self, e):
        if e.get('via') == 'cast':
            src = self.objs[e['src']]
            self.objs[e['id']] = src.cast(getattr(dcf, e['cls']), domain=self.ds(e['x']), **self.castkw(e))
            return
        self.objs[e['id']] = getattr(dcf, e['cls'])(self.ds(e['x']), self.objs[e['src']], **self.castkw(e))

    op_copyon = op_caston

    def op_clone(self, e):
        src = self.objs[e['src']]
        kw = dict(src.kwargs)
        self.objs[e['id']] = src.__class__(**kw)

    def op_shift(self, e):
        self.objs[e['id']] = self.objs[e['src']].shifted(self.off(e['by']))

    def op_arith(self, e):
        a, b = self.objs[e['a']], self.objs[e['b']]
        f = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'div': lambda: a / b}[e['fn']]
        self.objs[e['id']] = f()

    def op_set(self, e):
        self.objs[e['id']][self.arg(self.objs[e['id']], e['x'])] = real(e['v'])

    def op_fix(self, e):
        self.objs[e['id']].fixings[self.d(e['x'])] = real(e['v'])

    def op_unfix(self, e):
        self.objs[e['id']].fixings.pop(self.d(e['x']), None)

    def op_spread(self, e):
        self.objs[e['id']].spread = self.o(e['s'])

    def arg(self, c, s):
        """argument of a curve: plain curves have floats whatever the kind of dates"""
        return real(s) if not isinstance(c, DateCurve) else self.d(s)

    def op_call(self, e):
        c = self.objs[e['id']]
        return c(self.arg(c, e['x']))

    def op_calls(self, e):
        x = [self.arg(self.objs[e['id']], s) for s in e['xs']]
        return self.objs[e['id']](tuple(x) if e.get('box') == 'tuple' else x)

    def op_in(self, e):
        return bool(self.arg(self.objs[e['id']], e['x']) in self.objs[e['id']])

    def op_get(self, e):
        return self.objs[e['id']][self.arg(self.objs[e['id']], e['x'])]

    def op_dom(self, e):
        return list(self.objs[e['id']].domain)

    def op_iter(self, e):
        return list(self.objs[e['id']])

    def op_org(self, e):
        return self.objs[e['id']].origin

    def op_ten(self, e):
        return tenor(self.objs[e['id']].forward_tenor)

    def op_isspread(self, e):
        s = self.objs[e['id']].spread
        return bool(s is None if e['s'] == 'none' else s is self.objs[e['s']])

    def op_kw(self, e):
        kw = self.objs[e['id']].kwargs

        def s(k):
            return tenor(kw[k]) if k in kw and kw[k] is not None else 'none'
        return {'t': 'kw', 'dom': self.put(tuple(kw['domain'])), 'data': self.put(tuple(kw['data'])),
                'itp': s('interpolation').replace('own ', '').replace('my ', ''), 'org': self.put1(kw['origin']) if 'origin' in kw else 'none',
                'dc': s('day_count').replace('my ', ''), 'ten': s('forward_tenor')}

    def op_dcnt(self, e):
        c = self.objs[e['id']]
        return c.day_count(self.d(e['s']), self.d(e['e'])) if 'e' in e else c.day_count(self.d(e['s']))

    def op_integ(self, e):
        return self.objs[e['id']].integrate(self.d(e['s']), self.d(e['e']))

    def op_deriv(self, e):
        return self.objs[e['id']].derivative(self.d(e['x']))

    def op_table(self, e):
        c = self.objs[e['id']]
        if 'x' in e:
            t = dcf.rate_table(c, self.ds(e['x']), [self.off(y) for y in e['y']])
        else:
            t = c.table
        return {'t': 'tab', 'head': [num(y) for y in t[0][1:]],
                'rows': [{'x': self.put1(r[0]), 'v': [num(y) for y in r[1:]]} for r in t[1:]]}

    def se(self, e):
        return (self.d(e['s']), self.d(e['e'])) if e.get('e', 'none') != 'none' else (self.d(e['s']),)

    def op_df(self, e):
        return self.objs[e['id']].get_discount_factor(*self.se(e))

    def op_zero(self, e):
        return self.objs[e['id']].get_zero_rate(*self.se(e))

    def op_short(self, e):
        return self.objs[e['id']].get_short_rate(self.d(e['s']))

    def op_cash(self, e):
        kw = dict()
        if e.get('e', 'none') != 'none':
            kw['stop'] = self.d(e['e'])
        if e.get('step', 'none') != 'none':
            kw['step'] = self.off(e['step'])
        return self.objs[e['id']].get_cash_rate(self.d(e['s']), **kw)

    def op_annuity(self, e):
        return self.objs[e['id']].get_swap_annuity(self.ds(e['xs']))

    def op_surv(self, e):
        return self.objs[e['id']].get_survival_prob(*self.se(e))

    def op_intens(self, e):
        return self.objs[e['id']].get_flat_intensity(*self.se(e))

    def op_hazard(self, e):
        return self.objs[e['id']].get_hazard_rate(self.d(e['s']))

    def op_ivol(self, e):
        return self.objs[e['id']].get_instantaneous_vol(self.d(e['s']))

    def op_tvol(self, e):
        return self.objs[e['id']].get_terminal_vol(*self.se(e))

    def op_fwd(self, e):
        return self.objs[e['id']].get_forward_price(self.d(e['x']))

    # ---------------------------------------------------------------- fx
    def op_fxnew(self, e):
        self.objs[e['id']] = dcf.FxContainer(e['cur'], self.objs[e['dom']])

    def op_fxadd(self, e):
        spot = int(float(e['spot'])) if e.get('bad') == 'int' else float(e['spot'])
        crv = float(e['spot']) if e.get('bad') == 'number' else self.objs[e['crv']]
        self.objs[e['id']].add(e['cur'], crv, spot)

    def op_fxsetcur(self, e):
        self.objs[e['id']][e['cur']] = self.objs[e['crv']]

    def op_fxsetpair(self, e):
        self.objs[e['id']][e['d'], e['f']] = self.objs[e['crv']]

    def op_fxfwd(self, e):
        c = self.objs[e['id']]
        if e.get('via') == 'item':
            return c[e['d'], e['f']].get_forward_price(self.d(e['x']))
        if e.get('via') == 'row':
            return c[e['d']][e['f']](self.d(e['x']))
        return c.get_forward_price(e['d'], e['f'], self.d(e['x']))

    def op_fxrow(self, e):
        return {'t': 'set', 'v': sorted(self.objs[e['id']][e['cur']])}

    # ---------------------------------------------------------------- functions
    def op_dadd(self, e):
        x, by = self.d(e['x']), self.off(e['by'])
        return x + by if e['sgn'] == 1 else x - by

    def op_interp(self, e):
        key = json.dumps({k: v for k, v in e.items() if k not in ('x', 'ask')})
        if key not in self.interpolations:
            self.interpolations[key] = self.interpolation(e)
        f = self.interpolations[key]
        return bool(real(e['x']) in f) if 'ask' in e else f(real(e['x']))

    def interpolation(self, e):
        x, y = self.fl(e['xs']), self.fl(e['ys'])
        if 'parts' in e:
            parts = [getattr(ip, p) for p in e['parts']]
            how = e.get('how', 'three')
            arg = {'three': tuple(parts), 'list': list(parts), 'two': tuple(parts[1:]), 'one': (parts[1],),
                   'cls': parts[1], 'none': None}[how]
            f = ip.interpolation_scheme(x, y, arg)
        else:
            f = getattr(ip, e['f'])
            if e.get('how') == 'dict':
                f = f.from_dict(dict(zip(x, y)))
            elif e.get('how') == 'tuple':
                f = f(tuple(x), tuple(y))
            else:
                f = f(x, y)
        return f

    def op_plan(self, e):
        f = getattr(plans, e['fn'])
        kw = {'fixed_rate': real(e['rate'])} if 'rate' in e else dict()
        n = e['n']
        if e.get('short') and float(e['amt']) == 1.:    # as by default
            return f(n, **kw)
        return f(n, real(e['amt']), **kw)

    def op_outst(self, e):
        plan = self.fl(e['plan'])
        if e.get('short') and not e['sign']:
            return plans.outstanding(plan, real(e['amt'])) if real(e['amt']) != 1. else plans.outstanding(plan)
        return plans.outstanding(plan, real(e['amt']), e['sign'])

    def op_comp(self, e):
        return getattr(compounding, e['fn'])(*self.fl(e['a']))

    # ---------------------------------------------------------------- models
    def op_mnew(self, e):
        cls = model_class(e['cls'], e.get('un'))
        kw = {'valuation_date': self.d(e['vd']), 'forward_curve': self.o(e.get('fwd', 'none')),
              'volatility_curve': self.o(e.get('vol', 'none')), 'day_count': self.dc(e.get('dc', 'none'), True)}
        if e['cls'] == 'BinaryOptionPayOffModel':
            inner = model_class(e['inner'])
            ikw = {'displacement': real(e['disp'])} if 'disp' in e else dict()
            skw = {'strike_shift': real(e['sshift'])} if 'sshift' in e else dict()
            if e.get('carry'):
                m = cls(inner(**kw, **ikw), **skw)
            else:
                m = cls(inner(**ikw), **kw, **skw)
        else:
            if 'disp' in e:
                kw['displacement'] = real(e['disp'])
            if e.get('bump'):
                kw['bump_greeks'] = True
            if e.get('failing'):
                cls = failing(cls)
            m = cls(**kw)
        self.objs[e['id']] = m

    def op_mset(self, e):
        m, f = self.objs[e['id']], e['field']
        if f == 'vd':
            m.valuation_date = self.d(e['v'])
        elif f == 'fwd':
            m.forward_curve = self.o(e['v'])
        elif f == 'vol':
            m.volatility_curve = self.o(e['v'])

    def op_mvd(self, e):
        return self.objs[e['id']].valuation_date

    def op_mval(self, e):
        f = getattr(self.objs[e['id']], 'get_' + e['fn'])
        return f(self.d(e['x']), real(e['k'])) if e.get('k', 'none') != 'none' else f(self.d(e['x']))

    def op_mdet(self, e):
        r = self.objs[e['id']].details(self.d(e['x']), self.opt(e.get('k', 'none')))
        return {'t': 'r', 'v': {k: self.put1(r[k]) for k in
                                ('time to expiry', 'strike', 'forward', 'volatility', 'valuation date')
                                if r.get(k) is not None}}

    # ---------------------------------------------------------------- cashflows
    def op_cfnew(self, e):
        cls = getattr(dcf, e['cls'])
        kw = {'origin': self.d(e.get('org', 'none'))}
        x = self.box(e, self.ds(e['x']))
        amount = None
        if 'a' in e:
            amount = real(e['a'][0]) if e.get('scalar') else self.box(e, self.fl(e['a']))
        name = e['cls']
        if name in ('RateCashFlowList', 'ContingentRateCashFlowList'):
            kw['day_count'] = self.dc(e.get('dc', 'none'), True)
        if name not in ('FixedCashFlowList', 'CashFlowList'):
            kw['fixing_offset'] = self.off(e.get('fo', 'none'))
            kw['pay_offset'] = self.off(e.get('po', 'none'))
        if name in ('RateCashFlowList', 'ContingentRateCashFlowList'):
            kw['fixed_rate'] = real(e.get('r', 0.))
        if name == 'RateCashFlowList':
            kw['forward_curve'] = self.o(e.get('ref', 'none'))
        if name.startswith('Contingent') or name.startswith('Option'):
            kw['payoff_model'] = self.o(e.get('ref', 'none'))
        if name == 'ContingentRateCashFlowList':
            kw['cap_strike'] = self.opt(e.get('cap', 'none'))
            kw['floor_strike'] = self.opt(e.get('flr', 'none'))
        if e.get('short'):  # as by default
            kw = {k: v for k, v in kw.items() if v is not None and not (k == 'fixed_rate' and v == 0.)}
        if name == 'OptionStrategyCashflowList':
            ca = real(e['ca'][0]) if e.get('scalar') else self.fl(e['ca'])
            pa = real(e['pa'][0]) if e.get('scalar') else self.fl(e['pa'])
            c = cls(x, ca, self.fl(e['ck']), pa, self.fl(e['pk']), **kw)
        elif name == 'OptionCashflowList':
            ks = [None if k == 'none' else real(k) for k in e['ks']]
            ks = ks[0] if len(ks) == 1 and e.get('scalar') else ks
            puts = [int(v) for v in e['puts']] if e.get('bits') else e['puts']
            puts = puts[0] if len(puts) == 1 else puts
            if isinstance(ks, list) and len(ks) == 1:
                ks = ks * len(x)
            c = cls(x, amount, ks, puts, **kw)
        elif e.get('short') and e.get('scalar') and amount == 1. and name != 'CashFlowList':
            c = cls(x, **kw)
        else:
            c = cls(x, amount, **kw)
        self.objs[e['id']] = c

    def op_cfmix(self, e):
        kw = {'origin': self.d(e.get('org', 'none'))}
        if e['cls'] == 'ContingentCashFlowList':
            kw['payoff_model'] = self.o(e.get('ref', 'none'))
        pay = [self.part(*q) for q in e['of']]
        self.objs[e['id']] = getattr(dcf, e['cls'])(self.box(e, self.ds(e['x'])), self.box(e, self.lend(pay)), **kw)

    def part(self, i, *q):
        if i == 'num':
            return real(q[0])
        if i == 'fn':
            a, b = self.fl(q)
            return lambda by=None: a if by is None else b
        return self.objs[i].payoff(self.d(q[0]))

    def op_legs(self, e):
        if e.get('bad'):
            dcf.CashFlowLegList([self.objs[i] for i in e['ids']] + [[1., 2.]])
            return
        self.objs[e['id']] = dcf.CashFlowLegList([self.objs[i] for i in e['ids']])

    def op_cfget(self, e):
        return self.objs[e['id']][self.d(e['x'])]

    def op_cfgets(self, e):
        x = self.ds(e['xs'])
        return list(self.objs[e['id']][tuple(x) if e.get('box') == 'tuple' else x])

    def op_cfcall(self, e):
        src = self.objs[e['src']]
        r = src(self.o(e['ref'])) if e.get('ref', 'none') != 'none' else src()
        self.objs[e['id']] = r
        return list(r[r.domain])

    def op_cfcopy(self, e):
        kw = {} if e.get('org', 'none') == 'none' else {'origin': self.d(e['org'])}
        r = self.objs[e['id']] = dcf.FixedCashFlowList(self.objs[e['src']], **kw)
        return list(r[r.domain])

    def op_cftab(self, e):
        t = self.objs[e['id']].table
        keys = ('cashflow', 'pay date', 'start date', 'end date', 'year fraction', 'fixed rate', 'notional',
                'forward rate', 'fixing date', 'strike', 'expiry date', 'forward', 'volatility', 'time to expiry',
                'valuation date', 'floorlet', 'floorlet strike', 'floorlet volatility', 'caplet', 'caplet strike',
                'caplet volatility')
        words = 'put/call', 'long/short'
        rows = [{k: v if k in words else self.put1(v) for k, v in zip(t[0], r) if k in keys or k in words} for r in t[1:]]
        return {'t': 'rows', 'v': rows}

    def op_cfdom(self, e):
        return list(self.objs[e['id']].domain)

    def op_cforg(self, e):
        return self.objs[e['id']].origin

    def op_setrate(self, e):
        self.objs[e['id']].fixed_rate = real(e['r'])

    def op_setpay(self, e):
        setattr(self.objs[e['id']].payoff(self.d(e['x'])), e['field'], real(e['v']))

    def op_getrate(self, e):
        return self.objs[e['id']].fixed_rate

    def op_setref(self, e):
        c = self.objs[e['id']]
        setattr(c, 'payoff_model' if hasattr(c, 'payoff_model') else 'forward_curve', self.o(e['ref']))

    def op_payoff(self, e):
        if 'xs' in e:
            x = self.ds(e['xs'])
            r = self.objs[e['id']].payoff(tuple(x) if e.get('box') == 'tuple' else x)
            return {'t': 'payoffs', 'v': [self.payoff(p) for p in r]}
        return self.payoff(self.objs[e['id']].payoff(self.d(e['x'])))

    def payoff(self, p):
        if p is None:
            return self.put(p)
        if isinstance(p, (int, float)):
            return {'t': 'r', 'v': {'amount': num(p)}}
        names = ('amount', 'start', 'end', 'fixed_rate', 'expiry')
        return {'t': 'r', 'v': {k: self.put1(getattr(p, k)) for k in names if hasattr(p, k)}}

    # ---------------------------------------------------------------- valuation
    def vd(self, e):
        return self.d(e.get('vd', 'none'))

    def op_pv(self, e):
        return dcf.get_present_value(self.objs[e['id']], self.objs[e['disc']], self.vd(e))

    def rootkw(self, e):
        kw = dict()
        if 'prec' in e:
            kw['precision'] = real(e['prec'])
        if 'bounds' in e:
            kw['bounds'] = tuple(self.fl(e['bounds']))
        if e['op'] != 'fit' and (float(e['pv']) != 0. or kw):   # zero is the default
            kw['present_value'] = real(e['pv'])
        return kw

    def op_ytm(self, e):
        kw = self.rootkw(e)
        if 'dc' in e:
            kw['day_count'] = self.dc(e['dc'])
        return dcf.get_yield_to_maturity(self.objs[e['id']], self.vd(e), **kw)

    def op_fair(self, e):
        return dcf.get_fair_rate(self.objs[e['id']], self.objs[e['disc']], self.vd(e), **self.rootkw(e))

    def op_fit(self, e):
        kw = self.rootkw(e)
        if e.get('fitc', 'none') != 'none':
            kw['fitting_curve'] = self.objs[e['fitc']]
        if 'grid' in e:
            kw['fitting_grid'] = self.ds(e['grid'])
        pv = real(e['pv'][0]) if len(e['pv']) == 1 else self.fl(e['pv'])
        if pv != 0. or 'prec' in e:     # zero is the default
            kw['present_value'] = pv
        return dcf.get_curve_fit(self.lend([self.objs[i] for i in e['ids']]), self.objs[e['disc']], self.vd(e), **kw)

    def sens(self, e):
        kw = dict()
        if 'del' in e:
            d = self.lend([self.objs[i] for i in e['del']])
            kw['delta_curve'] = d[0] if len(d) == 1 and not e.get('dlist') else d
        if 'shift' in e:
            kw['shift'] = real(e['shift'])
        return kw

    def op_bpv(self, e):
        return dcf.get_basis_point_value(self.objs[e['id']], self.objs[e['disc']], self.vd(e), **self.sens(e))

    def op_bucket(self, e):
        kw = self.sens(e)
        if 'grid' in e:
            kw['delta_grid'] = self.ds(e['grid'])
        return dcf.get_bucketed_delta(self.objs[e['id']], self.objs[e['disc']], self.vd(e), **kw)

    def op_accr(self, e):
        return dcf.get_interest_accrued(self.objs[e['id']], self.d(e['vd']))

    def op_arm(self, e):
        Fuse.left = int(e['n'])

    def op_disarm(self, e):
        Fuse.left = None

    # ---------------------------------------------------------------- products
    def amounts(self, e):
        return real(e['a'][0]) if e.get('scalar', True) else self.fl(e['a'])

    def holidays(self, e):
        return [self.d(x) for x in e.get('hol', ())] if self.kind == 'b' else None

    def given(self, e, kw, **default):
        """ arguments of a product, without those which are as by default """
        return {k: v for k, v in kw.items() if not (e.get('short') and v == default.get(k))}

    def op_bond(self, e):
        kw = dict(start_date=self.d(e['s']), end_date=self.d(e['e']), period=self.off(e['per']), convention=e.get('conv', 'mod_follow'),
                  holidays=self.holidays(e), notional_amount=self.amounts(e), day_count=self.dc(e.get('dc', 'none'), True),
                  fixed_rate=real(e['r']), forward_curve=self.o(e.get('ref', 'none')), fixing_offset=self.off(e.get('fo', 'none')),
                  pay_offset=self.off(e.get('po', 'none')))
        self.legs(e, dcf.bond(**self.given(e, kw, start_date=0., end_date=10., period=1., convention='mod_follow', notional_amount=1., fixed_rate=0.)))

    def legs(self, e, b):
        self.objs[e['id']] = b
        for i, leg in enumerate(b.legs):
            self.objs['%s.%d' % (e['id'], i)] = leg

    def op_swap(self, e):
        kw = dict(start_date=self.d(e['s']), end_date=self.off(e['len']) if 'len' in e else self.d(e['e']), period=self.off(e['per']),
                  convention=e.get('conv', 'mod_follow'), notional_amount=real(e['a'][0]),
                  day_count=self.dc(e.get('dc', 'none'), True), fixed_rate=real(e['r']), forward_curve=self.o(e.get('ref', 'none')),
                  fixing_offset=self.off(e.get('fo', 'none')), pay_offset=self.off(e.get('po', 'none')), rec_leg_period=self.off(e['rper']),
                  rec_leg_day_count=self.dc(e.get('rdc', 'none'), True), rec_leg_fixed_rate=real(e['rr']),
                  rec_leg_forward_curve=self.o(e.get('rref', 'none')))
        kw = self.given(e, kw, start_date=0., end_date=10., period=1., convention='mod_follow', notional_amount=1., fixed_rate=0.,
                        rec_leg_period=.25, rec_leg_fixed_rate=0.)
        self.legs(e, dcf.interest_rate_swap(holidays=self.holidays(e), **kw))

    # ---------------------------------------------------------------- ratings
    def op_scale(self, e):
        ms = dcf.RatingClass.master_scale
        if 'pairs' in e:
            m = ms([(k, float(v)) for k, v in e['pairs']])
        elif e.get('first', 'none') != 'none':
            m = ms.fromkeys(e['names'], float(e['first']))
        else:
            m = ms.fromkeys(e['names'])
        self.objs[e['id']] = m

    def rating(self, e):
        m = self.objs[e['ms']] if e['ms'] != 'none' else None
        via = e.get('via')
        if via == 'list':
            m = e['names']
        elif via == 'gen':
            m = iter(e['names'])
        elif via == 'dict':
            m = dict(m)
        if e.get('short') and float(e.get('v', 1.)) == 0.:
            return dcf.RatingClass(masterscale=m)
        if 'name' in e:
            return m.get(e['name']) if via == 'get' else dcf.RatingClass(e['name'], m)
        return dcf.RatingClass(float(e['v']), m)

    def op_rvec(self, e):
        cls = dcf.RatingClass
        old = cls.SLOPPY
        cls.SLOPPY = bool(e.get('sloppy', False))
        try:
            return list(self.rating(e)) if e.get('how') == 'list' else self.rating(e).vector
        finally:
            cls.SLOPPY = old

    def op_rname(self, e):
        name = self.rating(e).name if e.get('how') != 'str' else str(self.rating(e))
        try:
            mix = [(num(float(p.split(' ', 1)[0])), p.split(' ', 1)[1]) for p in name.split(' + ')]
        except (ValueError, IndexError):
            mix = []
        return {'t': 'str', 'v': name, 'weights': [w for w, _ in mix], 'names': [n for _, n in mix]}

    def op_rval(self, e):
        return self.rating(e).value

    def op_rget(self, e):
        m = self.objs[e['ms']]
        r = m.get(e['name'], float(e['else'])) if 'else' in e else m.get(e['name'])
        return None if r is None else float(r)

    def op_rset(self, e):
        self.objs[e['id']][e['name']] = float(e['v'])

    def op_rscale(self, e):
        m = self.objs[e['id']]
        if e.get('via') == 'classes':
            c = m.rating_classes()
            return {'t': 'scale', 'keys': [str(r) for r in c], 'vals': [num(float(r)) for r in c]}
        if e.get('via') == 'items':
            return {'t': 'scale', 'keys': [k for k, _ in m.items()], 'vals': [num(v) for _, v in m.items()]}
        return {'t': 'scale', 'keys': list(m.keys()), 'vals': [num(v) for v in m.values()]}


def run(program):
    global WHOLE
    WHOLE = program.get('whole', False)
    r = Run(program['kind'], program.get('pure', False))
    Fuse.left = None
    ev = []
    for e in program['ev']:
        e = dict(e)
        e['out'] = r.step(e)
        ev.append(e)
        if e['out'].get('v') == 'Timeout':
            break
    return {'id': program['id'], 'kind': program['kind'], 'name': program.get('name', ''), 'whole': WHOLE, 'ev': ev}


def main(src, dst):
    with open(src) as f, open(dst, 'w') as g:
        for line in f:
            if line.strip():
                g.write(json.dumps(run(json.loads(line))) + '\n')
                g.flush()
            if timeouts > 12:
                break  # calls do not come back, this is on record


if __name__ == '__main__':
    main(*sys.argv[1:3])
