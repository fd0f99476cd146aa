"""Random programs per property: programs(pid, rng, n).

A program is a sequence of events for harness/driver.py.  It carries inputs
only; what comes out is judged by the specification.
"""
import datetime
import math

IR = ('DiscountFactorCurve', 'ZeroRateCurve', 'ShortRateCurve', 'CashRateCurve')
CREDIT = ('SurvivalProbabilityCurve', 'DefaultProbabilityCurve', 'FlatIntensityCurve', 'HazardRateCurve',
          'MarginalSurvivalProbabilityCurve', 'MarginalDefaultProbabilityCurve')
VOL = ('InstantaneousVolatilityCurve', 'TerminalVolatilityCurve')
FACTOR = ('DiscountFactorCurve', 'SurvivalProbabilityCurve', 'DefaultProbabilityCurve')
MARGINAL = ('MarginalSurvivalProbabilityCurve', 'MarginalDefaultProbabilityCurve')
PIECE = ('ShortRateCurve', 'HazardRateCurve')
LINEAR = ('ZeroRateCurve', 'FlatIntensityCurve')
# walk over days: need additive day counts
ADDITIVE = PIECE + MARGINAL + VOL + ('CashRateCurve',)
RATE = IR + CREDIT + VOL
BASE = ('no', 'zero', 'left', 'constant', 'right', 'nearest', 'linear', 'loglinear', 'loglinearrate', 'logconstantrate')
SCHEMES = ('linear_scheme', 'constant_linear_constant', 'log_linear_scheme', 'logconstant_loglinear_logconstant',
           'log_linear_rate_scheme', 'logconstantrate_loglinearrate_logconstantrate', 'zero_linear_scheme',
           'zero_linear_constant')
LOGS = ('loglinear', 'loglinearrate', 'logconstantrate', 'log_linear_scheme', 'logconstant_loglinear_logconstant',
        'log_linear_rate_scheme', 'logconstantrate_loglinearrate_logconstantrate')
FEB29 = 737484  # 2020-02-29


def S(v):
    """numeral"""
    if isinstance(v, str):
        return v
    return str(v) if isinstance(v, int) else repr(float(v))


class Curve:
    def __init__(self, **kw):
        self.__dict__.update(kw)


LONG = .06   # share of long lists of dates


class Prog:
    def __init__(self, rng, kind, name):
        self.r, self.k, self.name, self.ev, self.n = rng, kind, name, [], 0
        self.quick = False
        self.walks = False  # day by day
        self.unnamed = True     # functions of the user without name
        if kind == 'f':
            self.t0 = rng.choice((0., 0., 0., .5, 2.))
        else:
            # thirty days a month: keep to days which do not coincide then (30th and 31st or 31st and 1st do)
            self.d30 = rng.random() < .15
            self.t0 = self.snap(rng.choice((FEB29, 738000, 738276, 737790 + rng.randrange(1500))))

    def snap(self, d):
        if self.k != 'f' and self.d30:
            while datetime.date.fromordinal(d).day in (1, 30, 31):
                d += 1
        return d

    def done(self):
        return {'kind': self.k, 'name': self.name, 'ev': self.ev}

    def id(self, c='c'):
        self.n += 1
        return '%s%d' % (c, self.n)

    def add(self, op, **kw):
        self.ev.append(dict(op=op, **{k: v for k, v in kw.items() if v is not None}))
        if op in ('plan', 'outst', 'cfnew', 'bond', 'swap') and self.chance(.5):
            self.ev[-1]['short'] = True     # nothing is passed if it is as by default
        if op == 'new' and kw.get('itp') is not None and self.chance(.3):
            self.ev[-1]['itpas'] = self.r.choice(('own', 'object') + (('mine',) if self.unnamed else ()))
        if op == 'new' and kw.get('dc', 'none') != 'none' and kw.get('dc') and self.unnamed and self.chance(.2):
            self.ev[-1]['dcas'] = 'mine'
        return kw.get('id')

    def chance(self, p):
        return self.r.random() < p

    def u(self, a, b, n=4):
        return round(self.r.uniform(a, b), n)

    # ---------------------------------------------------------------- dates
    def gap(self):
        r = self.r
        if self.k == 'f':
            return r.choice((.125, .25, .25, .5, .5, 1., 1., 1.5, 2., 3.))
        return r.choice((1, 2, r.randrange(3, 20), 30, 31, r.randrange(25, 100), 91, 182, 365, 366, r.randrange(100, 800)))

    def dates(self, n, first=None):
        """n ascending dates"""
        if n > 2 and not self.walks and self.chance(LONG):
            n *= self.r.choice((2, 3, 5))
            self.quick = True
        x = [self.t0 if first is None else self.snap(first)]
        while len(x) < n:
            x.append(self.snap(x[-1] + self.gap()))
        return x

    def some(self, x, back=True):
        """a date on, between or beyond dates x"""
        r = self.r
        x = sorted(x)
        w = r.random()
        if w < .35 or (w < .75 and len(x) == 1):
            d = r.choice(x)
        elif w < .75:
            i = r.randrange(len(x) - 1)
            d = self.mid(x[i], x[i + 1])
        elif w < .9 or not back:
            d = x[-1] + self.gap()
        else:
            d = x[0] - self.gap()
        return self.snap(d)

    def mid(self, a, b):
        if self.k == 'f':
            return a + (b - a) * self.r.choice((.125, .25, .375, .5, .625, .75))
        return self.snap(a + self.r.randrange(0, b - a)) if b - a > 1 else a

    def later(self, d):
        return self.snap(d + (self.r.choice((.125, .25, .5, 1., 2.5)) if self.k == 'f' else self.r.choice((1, 5, 30, 91, 200, 365, 900))))

    def period(self):
        """offset or tenor"""
        return S(self.r.choice((.125, .25, .5, 1.))) if self.k == 'f' else \
            S(self.r.choice((1, 7, 30, 91, 365))) if self.k == 'd' else self.r.choice(('1D', '2D', '1W', '1M', '3M', '6M', '1Y'))

    def tenor(self):
        return S(self.r.choice((.25, .5, 1.))) if self.k == 'f' else \
            S(self.r.choice((30, 91, 182, 365))) if self.k == 'd' else self.r.choice(('1M', '3M', '6M', '1Y'))

    def dcs(self, rate=False):
        if self.k == 'f':
            return self.r.choice(('none', 'none', 'none', 'none') + (('half',) if not rate else ()))
        if self.d30:
            return self.r.choice(('d30360', 'd30360', 'none'))
        return self.r.choice(('none', 'none', 'act360', 'act365') + (('half',) if not rate else ()))

    # ---------------------------------------------------------------- curves
    def yf(self, org, d):
        return float(d - org) if self.k == 'f' else (d - org) / 365.25

    def values(self, cls, org, x):
        """values which make sense for the class"""
        r = self.r
        if cls in ('DiscountFactorCurve', 'SurvivalProbabilityCurve', 'DefaultProbabilityCurve'):
            rate = r.uniform(-.005 if cls in IR else .002, .06)
            y = []
            for d in x:
                t = self.yf(org, d)
                rate += r.uniform(-.004, .004) if cls in IR else 0
                y.append(1. if t == 0 else round(math.exp(-rate * t), 6))
            return [round(1 - v, 6) for v in y] if cls == 'DefaultProbabilityCurve' else y
        if cls in MARGINAL:
            y = [self.u(.85, .999) for _ in x]
            return [round(1 - v, 4) for v in y] if cls == 'MarginalDefaultProbabilityCurve' else y
        if cls in IR:   # steep curves lead to nowhere
            y, last = [], None
            for d in x:
                v = self.u(-.01, .08)
                if last is not None:
                    most = .002 + .15 * abs(self.yf(org, d) - self.yf(org, last))
                    v = round(min(max(v, y[-1] - most), y[-1] + most), 4)
                y.append(v)
                last = d
            return y
        if cls == 'FlatIntensityCurve':   # survival falls
            v, y, last = self.u(.001, .08), [], 0.
            for d in x:
                t = max(self.yf(org, d), 0.)
                if t > last > 0:
                    v = round((v * last + r.uniform(.6, 1.5) * v * (t - last)) / t, 6)
                y.append(v)
                last = t
            return y
        if cls in CREDIT:
            return [self.u(.001, .08) for _ in x]
        if cls == 'InstantaneousVolatilityCurve':
            return [self.u(.05, .6) for _ in x]
        if cls == 'TerminalVolatilityCurve':
            v, y, last = self.u(.05, .4), [], None
            for d in x:
                t = max(self.yf(org, d), 0.)
                if last is not None and t > last:  # variance grows
                    v = r.uniform(v / (1 + .45 * (t - last) / t), 1.4 * v)
                v = round(v, 5)
                y.append(v)
                last = t
            return y
        if cls in ('ForwardCurve', 'FxForwardCurve'):
            return [self.u(20, 150, 2) for _ in x]
        return [self.u(-3, 5, 3) for _ in x]

    def curve(self, cls, n=None, org='auto', x=None, y=None, dc='auto', itp=None, ten='auto', id=None, first=None, **kw):
        r = self.r
        rate = cls in RATE
        self.walks = self.walks or cls in PIECE
        n = n or r.choice((1, 2, 2, 3, 3, 4, 5, 6))
        if cls in FACTOR and org is None:
            n = max(n, 2)
        x = x or self.dates(n, first)
        if org == 'auto':
            org = None if self.chance(.5) else x[0] if self.chance(.5) else self.snap(self.t0 - (self.gap() if self.chance(.5) else 0))
            if org is not None and org > x[0]:
                org = x[0]
        eff = x[0] if org is None else org
        if cls in FACTOR and x == [eff]:
            x = x + [self.later(x[0])]
        dc = self.dcs(rate) if dc == 'auto' else dc
        if dc == 'd30360' and cls in ADDITIVE:  # not additive over days
            dc = 'none'
        if ten == 'auto':
            # other tenors than those of business dates have no default
            ten = self.tenor() if rate and (self.k != 'b' or self.chance(.4)) else None
        y = y or self.values(cls, eff, x)
        id = id or self.id()
        self.add('new', id=id, cls=cls, x=[S(d) for d in x], y=[S(v) for v in y], itp=itp,
                 org=None if org is None else S(org), dc=None if dc in (None, 'none') else dc, ten=ten,
                 box='tuple' if self.chance(.15) else None, **kw)
        return Curve(id=id, cls=cls, x=list(x), y=list(y), org=eff, given=org, dc=dc, ten=ten, itp=itp)

    def flat_curve(self, cls='ZeroRateCurve', org=None, id=None, value=None, ten='auto'):
        org = self.t0 if org is None else org
        return self.curve(cls, x=[org], y=[self.u(-.01, .08) if value is None else value], org=None, dc='none', ten=ten, id=id)

    def discount(self, org=None, classes=None):
        """a curve for discounting (with cash rates)"""
        org = self.t0 if org is None else self.snap(org)
        classes = classes or (('DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve') if self.quick else None) or (('DiscountFactorCurve', 'ZeroRateCurve', 'ShortRateCurve', 'CashRateCurve')
                              if self.k == 'b' else ('DiscountFactorCurve', 'ZeroRateCurve', 'ZeroRateCurve', 'CashRateCurve'))
        return self.curve(self.r.choice(classes), org=org, first=org)


def kinds(rng, which='fdb'):
    return rng.choice(which)


# --------------------------------------------------------------------- C01
PARTS = ('left', 'constant', 'right', 'nearest', 'linear', 'loglinear', 'loglinearrate', 'logconstantrate', 'zero', 'no')


def c01(rng):
    p = Prog(rng, 'f', 'interpolation')
    n = rng.choice((1, 2, 2, 3, 4, 5, 6, 8) if rng.random() < .95 else (12, 25, 40))
    f = rng.choice(BASE + SCHEMES + ('parts', 'parts', 'parts', 'parts'))
    parts = None
    if f == 'parts':
        parts = [rng.choice(PARTS[:8] + PARTS) for _ in range(3)]
    xs = rng.sample([i / 8 for i in range(-24, 64)], n)
    if p.chance(.4) and 0. not in xs:
        xs[0] = 0.
    logs = f in LOGS or (parts and any(q in LOGS for q in parts))
    bad = logs and p.chance(.08)
    ys = [p.u(.05, 3) if logs else p.u(-3, 3) for _ in xs]
    if bad:
        ys[rng.randrange(n)] = rng.choice((0., -.5))
    scheme = f in SCHEMES or parts
    if scheme and n > 1 and p.chance(.04):
        xs[1] = xs[0]
    rl = f in ('loglinearrate', 'logconstantrate') or f.startswith('logconstantrate') or f == 'log_linear_rate_scheme' \
        or (parts and any(q in ('loglinearrate', 'logconstantrate') for q in parts))
    if rl and len([x for x in xs if x]) == 0:
        xs[0] = 1.
    srt = p.chance(.3)
    if srt:
        xs, ys = map(list, zip(*sorted(zip(xs, ys))))
    q = list(xs) + [p.some(xs) for _ in range(5)] + [0.]
    rng.shuffle(q)
    kw = dict(xs=[S(x) for x in xs], ys=[S(y) for y in ys])
    how = None
    if parts:
        how = rng.choice(('three', 'list', 'two', 'one', 'cls'))
        if how == 'two':
            parts[0] = parts[2]
        elif how in ('one', 'cls'):
            parts = ['constant', parts[1], 'constant']
        kw['parts'] = parts
        if parts == ['constant', 'linear', 'constant'] and p.chance(.3):
            how = 'none'
    else:
        kw['f'] = f
        how = rng.choice((None, 'dict', 'tuple')) if f in BASE else rng.choice((None, 'tuple'))
    if how:
        kw['how'] = how
    for x in q[:10]:
        p.add('interp', x=S(x), **kw)
        if f in BASE and f not in ('loglinearrate', 'logconstantrate') and p.chance(.3):
            p.add('interp', x=S(x), ask='in', **kw)
    if not parts and not bad and len(set(xs)) == n and p.chance(.5):
        if f in ('no', 'zero') or True:
            p.add('new', id='c', cls='Curve', x=kw['xs'], y=kw['ys'], itp=f)
            p.add('calls', id='c', xs=[S(x) for x in xs])
            if f != 'no':
                p.add('calls', id='c', xs=[S(x) for x in q], box=rng.choice(('tuple', None)))
    return p


# --------------------------------------------------------------------- C02
def point_probe(p, c, xs):
    """queries which see the map of points"""
    p.add('dom', id=c.id)
    p.add('iter', id=c.id)
    for x in p.r.sample(xs, min(3, len(xs))):
        p.add('in', id=c.id, x=S(x))
        p.add('get', id=c.id, x=S(x))
    if c.itp != 'no':
        for _ in range(3):
            p.add('call', id=c.id, x=S(p.some(c.x)))
    p.add('calls', id=c.id, xs=[S(x) for x in c.x])


def any_value(p, c):
    if c.cls in FACTOR + MARGINAL:
        return p.u(.3, .99)
    if c.cls in IR + CREDIT:
        return p.u(-.01, .1)
    if c.cls in VOL:
        return p.u(.05, .6)
    return p.u(.1, 4) if c.itp in LOGS or c.cls in ('ForwardCurve', 'FxForwardCurve') else p.u(-4, 4)


def c02(rng):
    k = kinds(rng)
    cls = rng.choice(('Curve', 'Curve', 'DateCurve', 'DateCurve', 'ForwardCurve') + RATE)
    if cls == 'Curve':
        k = 'f'
    p = Prog(rng, k, 'updates')
    itp = None
    if cls in ('Curve', 'DateCurve') and p.chance(.8):
        itp = rng.choice(BASE + SCHEMES)
        if k != 'f' and itp == 'nearest':
            itp = 'linear'
    elif cls in RATE and cls not in FACTOR and p.chance(.3):
        itp = rng.choice(('linear', 'constant', 'left', 'right', 'linear_scheme'))
    x = p.dates(rng.choice((2, 3, 4, 5)))
    y = None
    if itp in LOGS:
        y = [p.u(.1, 3) for _ in x]
    kw = dict(org=None, dc=None, ten=None) if cls == 'Curve' else dict()
    if cls in FACTOR:
        kw['org'] = x[0] - p.gap()
    c = p.curve(cls, x=x, y=y, itp=itp, **kw)
    pool = sorted(set(x + [p.some(x) for _ in range(4)]))
    log = itp in LOGS or (itp is None and cls in FACTOR + MARGINAL + ('ForwardCurve',))
    rl = (itp is None and cls in FACTOR) or itp in LOGS
    spread = False
    if cls in RATE:
        p.add('new', id='sp', cls='DateCurve', x=[S(x[0])], y=[S(p.u(.001, .01))])
        p.add('new', id='sq', cls='DateCurve', x=[S(x[0]), S(x[-1])], y=[S(p.u(.001, .01)), S(p.u(.001, .01))])
    if p.chance(.05):   # as many values as dates
        p.add('new', id='bad', cls=cls, x=[S(d) for d in c.x], y=[S(v) for v in c.y] * 2 if p.chance(.5) else [S(v) for v in c.y[1:]])
    fixed = []
    for _ in range(rng.choice((2, 4, 6, 10))):
        w = rng.random()
        if w < .6 or cls in ('Curve', 'ForwardCurve'):
            d = rng.choice(pool)
            if rl and d == c.org:
                d = x[-1]
            v = rng.choice((0., -.5)) if log and p.chance(.1) else any_value(p, c)
            p.add('set', id=c.id, x=S(d), v=S(v))
            if d not in c.x and not (log and v <= 0):
                c.x.append(d)
        elif w < .7 and cls in RATE:
            p.add('spread', id=c.id, s='none' if spread else rng.choice(('sp', 'sq')))
            spread = not spread
        elif w < .8:
            d = rng.choice(pool)
            p.add('fix', id=c.id, x=S(d), v='0' if cls in ('Curve', 'DateCurve', 'ZeroRateCurve', 'ShortRateCurve', 'FlatIntensityCurve', 'HazardRateCurve')
                  and p.chance(.2) else S(p.u(.01, .9)))
            fixed.append(d)
        elif fixed:
            p.add('unfix', id=c.id, x=S(rng.choice(fixed)))
        if p.chance(.4):
            point_probe(p, c, pool)
    if cls in RATE:
        if spread:
            p.add('spread', id=c.id, s='none')
    for d in fixed:
        p.add('unfix', id=c.id, x=S(d))
    point_probe(p, c, pool)
    return p


# --------------------------------------------------------------------- C03
def same_org(p, cls, org, n=None, **kw):
    """curve of class with origin org"""
    x = p.dates(n or p.r.choice((1, 2, 3, 4)), org)
    if kw.pop('positive', False):
        kw['y'] = [p.u(.2, 4) for _ in x]
        return p.curve(cls, x=x, org=None if p.chance(.5) else org, **kw)
    if p.chance(.4) and len(x) > 1:
        return p.curve(cls, x=x[1:], org=org, **kw)
    return p.curve(cls, x=x, org=None if p.chance(.5) else org, **kw)


def c03(rng):
    k = kinds(rng)
    w = rng.random()
    if w < .25:
        cls, k = 'Curve', 'f'
    elif w < .6:
        cls = 'DateCurve'
    elif w < .7:
        cls = 'ForwardCurve'
    elif w < .85:
        cls = rng.choice(('ZeroRateCurve', 'FlatIntensityCurve')) if k == 'b' else 'ZeroRateCurve'
    else:
        cls, k = rng.choice(('HazardRateCurve', 'TerminalVolatilityCurve', 'ShortRateCurve', 'SurvivalProbabilityCurve', 'DefaultProbabilityCurve')), 'b'
    p = Prog(rng, k, 'arithmetic')
    if p.chance(.25):
        return shifting(p)
    dc = p.dcs(cls in RATE)
    kw = dict(dc=dc)
    itp = None
    if cls in ('Curve', 'DateCurve'):
        itp = rng.choice((None, 'linear', 'left', 'constant', 'right', 'linear_scheme', 'loglinear', 'log_linear_scheme', 'zero_linear_scheme'))
        kw['itp'] = itp
    log = itp in LOGS or cls == 'ForwardCurve'
    if itp == 'loglinear' and cls != 'Curve':   # out of reach of doubles
        kw['itp'] = itp = 'log_linear_scheme'
    itps = dict(kw)
    ids = []
    if cls == 'Curve':
        kw.update(org=None, dc=None, ten=None)
        for i in range(2):
            if i and p.chance(.5):   # operands of different kind
                kw['itp'] = rng.choice((None, 'left', 'nearest', 'linear_scheme', 'right'))
            x = rng.sample([i / 4 for i in range(12)], rng.choice((1, 2, 3, 4)))
            ids.append(p.curve(cls, x=x, y=[p.u(.5, 4) if log or p.chance(.5) else p.u(-3, 3) for _ in x], **kw))
    else:
        for i in range(2):
            if cls == 'DateCurve' and i and p.chance(.4):
                itps = dict(kw, itp=rng.choice((None, 'linear', 'left', 'log_linear_scheme')), dc=dc if p.chance(.6) else p.dcs(True))
            if cls in LINEAR and i and p.chance(.3) and (k == 'b' or cls == 'ZeroRateCurve'):
                other = rng.choice(('DiscountFactorCurve', 'ZeroRateCurve')) if cls == 'ZeroRateCurve' else cls
                c = same_org(p, other, p.t0, max(2, rng.choice((2, 3))), dc=dc)
            else:
                if cls == 'DateCurve' and itps['itp'] in LOGS:
                    itps['positive'] = True
                c = same_org(p, cls, p.t0, **itps)
            ids.append(c)
    a, b = ids
    shared = sorted(set(a.x + b.x))
    probe = shared + ([] if cls == 'ForwardCurve' else [p.some(shared, back=False) for _ in range(2)])
    if log and cls != 'Curve':
        fns = ('add', 'mul', 'div')
    else:
        fns = ('add', 'sub', 'mul', 'div')
    if cls in FACTOR:   # of probabilities the product
        fns = ('mul', 'mul')
    if p.chance(.3) and cls in ('Curve', 'DateCurve') and not log:
        p.add('set', id=b.id, x=S(b.x[-1]), v='0')   # quotients fail
    elif p.chance(.15) and cls in ('Curve', 'DateCurve') and not log:
        for x in sorted(set(b.x)):   # tiny divisors are fine
            p.add('set', id=b.id, x=S(x), v=S(p.u(1, 9) * 10 ** -rng.choice((6, 9, 13))))
    for fn in rng.sample(fns, 2):
        if cls in RATE and fn == 'div' and any(abs(v) < .001 for v in b.y):
            continue
        if cls == 'TerminalVolatilityCurve' and fn == 'sub':
            continue
        r = p.id('r')
        p.add('arith', id=r, a=a.id, b=b.id, fn=fn)
        if fn == 'div' and cls in ('Curve', 'DateCurve') and not log:
            # may fail, ask the operands only
            p.add('calls', id=a.id, xs=[S(x) for x in a.x])
            continue
        if log and fn == 'sub':
            continue
        p.add('dom', id=r)
        p.add('calls', id=r, xs=[S(x) for x in probe if not (cls == 'ForwardCurve' and x > shared[-1])])
        p.add('kw', id=r)
        if cls != 'Curve':
            p.add('org', id=r)
            p.add('dcnt', id=r, s=S(shared[-1]))
    for c in (a, b):
        p.add('kw', id=c.id)
        p.add('calls', id=c.id, xs=[S(x) for x in c.x])
    return p


def shifting(p):
    cls = p.r.choice(('Curve', 'DateCurve', 'DateCurve', 'ForwardCurve', 'ZeroRateCurve', 'DiscountFactorCurve', 'HazardRateCurve',
                      'SurvivalProbabilityCurve', 'CashRateCurve', 'TerminalVolatilityCurve', 'DefaultProbabilityCurve') + MARGINAL)
    if cls == 'Curve':
        p.k, p.t0 = 'f', 0.
    p.name = 'shift'
    c = p.curve(cls, **(dict(org=None, dc=None, ten=None) if cls == 'Curve' else {}))
    by = p.period()
    if p.k != 'b' and p.chance(.3):
        by = '-' + by
    n = {'M': 1, 'Y': 12}.get(by[-1])
    if p.k == 'b' and n and len({add_months(d, n * int(by[:-1])) for d in c.x}) < len(set(c.x)):
        by = '1D'   # ends of months coincide
    p.add('shift', id='s', src=c.id, by=by)
    p.add('dom', id='s')
    if cls != 'Curve':
        p.add('org', id='s')
        p.add('dcnt', id='s', s=S(c.x[-1] + p.gap()))
    p.add('calls', id='s', xs=[S(p.some(c.x, back=False)) for _ in range(3)])
    if cls in RATE and p.k == 'b':
        p.add('ten', id='s')
    if cls in IR:
        p.add('cash', id='s', s=S(c.x[-1]))
    # values on the moved dates
    if p.k != 'b':
        p.add('calls', id='s', xs=[S(x + (float(by) if p.k == 'f' else int(by))) for x in c.x])
    p.add('kw', id=c.id)
    p.add('calls', id=c.id, xs=[S(x) for x in c.x])
    return p


# --------------------------------------------------------------------- C04
def smooth(x, s, e):
    """kinks in [s, e] far enough apart for quadrature"""
    x = sorted(set([v for v in x if s < v < e] + [s, e]))
    return len(x) == 1 or len(x) <= 4 and min(b - a for a, b in zip(x, x[1:])) >= (e - s) / 12


def c04(rng):
    p = Prog(rng, kinds(rng), 'dated')
    cls = rng.choice(('DateCurve', 'DateCurve', 'DateCurve', 'DateCurve', 'ForwardCurve', 'ZeroRateCurve', 'HazardRateCurve'))
    itp = rng.choice((None, 'linear', 'left', 'constant', 'right', 'linear_scheme', 'zero_linear_scheme', 'loglinear',
                      'log_linear_scheme', 'nearest')) if cls == 'DateCurve' else None
    if itp == 'nearest' and p.k != 'f':
        itp = 'right'
    n = rng.choice((2, 3, 4, 5))
    x = p.dates(n)
    y = [p.u(.2, 4) for _ in x] if itp in LOGS else None
    if p.chance(.25) and cls == 'DateCurve':
        rng.shuffle(x)
    srt = x == sorted(x)
    c = p.curve(cls, x=x, y=y, itp=itp, org=rng.choice((None, None, p.t0, p.t0 - p.gap(), p.some(x))) if cls == 'DateCurve' else 'auto')
    c.x.sort()
    fixed = []
    p.add('org', id=c.id)
    p.add('dom', id=c.id)
    if cls == 'DateCurve' and srt and n >= 2 and p.k in 'fd' and c.org <= x[0] and itp is None and p.chance(.7):
        if p.chance(.5):
            p.add('table', id=c.id)
        else:
            y = [0] + sorted(rng.sample((1, 7, 30, 91, 182), 3)) if p.k == 'd' else [0, .25, .5]
            p.add('table', id=c.id, x=[S(d) for d in sorted(x)], y=[S(v) for v in y])
    for _ in range(rng.choice((6, 10, 14))):
        w = rng.random()
        d = p.some(c.x)
        if cls == 'ForwardCurve' and d > c.x[-1]:
            d = c.x[-1]
        if w < .3:
            p.add('call', id=c.id, x=S(d))
        elif w < .4:
            ds = [p.some(c.x[:1]) if cls == 'ForwardCurve' else p.some(c.x) for _ in range(4)]
            ds = [min(v, c.x[-1]) if cls == 'ForwardCurve' else v for v in ds]
            p.add('calls', id=c.id, xs=[S(v) for v in ds], box='tuple' if p.chance(.5) else None)
        elif w < .5:
            p.add('dcnt', id=c.id, s=S(d))
        elif w < .6:
            p.add('dcnt', id=c.id, s=S(d), e=S(p.some(c.x)))
        elif w < .72:
            p.add('fix', id=c.id, x=S(d), v=p.r.choice(('0', S(p.u(-2, 2)), S(p.u(-2, 2)))))
            fixed.append(d)
            p.add('call', id=c.id, x=S(d))
            e = d + (.125 if p.k == 'f' else 1)
            if not (cls == 'ForwardCurve' and e > c.x[-1]):
                p.add('call', id=c.id, x=S(e))
        elif w < .8 and fixed:
            d = rng.choice(fixed)
            p.add('unfix', id=c.id, x=S(d))
            p.add('call', id=c.id, x=S(d))
        elif w < .9 and (itp in (None, 'linear_scheme') and cls in ('DateCurve', 'ZeroRateCurve')):
            s, e = sorted((p.some(c.x), p.some(c.x)))
            if s != e and p.yf(s, e) < 6 and smooth(c.x, s, e):
                s, e = (e, s) if p.chance(.3) else (s, e)
                p.add('integ', id=c.id, s=S(s), e=S(e))
        elif p.k == 'b' and not fixed and cls == 'DateCurve' and itp in (None, 'linear') and c.dc != 'd30360':
            i = rng.randrange(n - 1)
            a, b = c.x[i], c.x[i + 1]
            if b - a >= 5:
                p.add('deriv', id=c.id, x=S(rng.randrange(a + 2, b - 2)))
    return p


# --------------------------------------------------------------------- rates, factors, probabilities
def pair(p, c, back=False, equal=True):
    s, e = p.some(c.x, back=back), p.some(c.x, back=back)
    if p.chance(.1) and equal:
        return s, s
    s, e = min(s, e), max(s, e)
    if s == e:
        e = p.later(e)
    lo = c.org
    if s < lo or p.chance(.06):
        s = lo
        if p.chance(.4):   # from before the origin
            s = p.snap(lo - p.gap())
    if e <= s:
        e = p.later(s)
    if c.cls in PIECE or c.cls == 'CashRateCurve' or c.cls in MARGINAL:   # long walks
        lim = 12. if p.k == 'f' else 3000
        e = min(e, s + lim)
    return s, e


def at_origin(c, s):
    """rate at s involves the factor at the origin (no claim if this is not one)"""
    x = sorted(c.x)
    return c.cls in FACTOR and (x[0] <= c.org and s < x[1] or x[-2:][0] <= c.org)


def ir_query(p, c, spread=False):
    """a query on an interest rate curve"""
    r, b = p.r, p.k == 'b'
    w = r.random()
    s, e = pair(p, c)
    while spread and c.cls in FACTOR and s == c.org:
        s, e = p.later(s), p.later(p.later(e))
    if c.cls in PIECE and not b:
        return p.add('call', id=c.id, x=S(s))
    if w < .2:
        p.add('df', id=c.id, s=S(e))
    elif w < .4:
        p.add('df', id=c.id, s=S(s), e=S(e))
    elif w < .5:
        p.add('zero', id=c.id, s=S(e if e != c.org or b or c.cls in LINEAR or c.cls in FACTOR else p.later(e)))
    elif w < .65:
        if s == e and not b and not (c.cls == 'CashRateCurve'):
            e = p.later(s)
        p.add('zero', id=c.id, s=S(s), e=S(e))
    elif w < .75:
        mn, mx = min(c.x), max(c.x)
        if (b or (mn <= s < mx) or c.cls in PIECE) and not (spread and at_origin(c, s)):
            p.add('short', id=c.id, s=S(s))
    elif w < .9:
        if s == e:
            e = p.later(s)
        v = r.random()
        if v < .4:
            p.add('cash', id=c.id, s=S(s), e=S(e))
        elif v < .6:
            p.add('cash', id=c.id, s=S(s), step=p.tenor())
        elif v < .8 and (b or c.ten):
            p.add('cash', id=c.id, s=S(s))
        else:
            t = p.tenor()
            if b:
                p.add('cash', id=c.id, s=S(s), e=S(e), step=t)
            else:
                n = float(t) if p.k == 'f' else int(t)
                if s + n != 0:
                    p.add('cash', id=c.id, s=S(s), e=S(s + n + (0 if p.chance(.6) else p.gap())), step=t)
    else:
        ds = p.dates(r.choice((1, 2, 3, 5)), s)
        if ds[-1] - c.org < (40. if p.k == 'f' else 8000):
            p.add('annuity', id=c.id, xs=[S(d) for d in ds])


def triangle(p, c, op):
    """factors of adjacent periods"""
    ds = sorted({pair(p, c)[0], *pair(p, c)})
    for i in range(len(ds)):
        for j in range(i, len(ds)):
            p.add(op, id=c.id, s=S(ds[i]), e=S(ds[j]))


def ir_curve(p, cls=None, **kw):
    classes = IR if p.k == 'b' else ('DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve', 'CashRateCurve')
    cls = cls or p.r.choice(classes)
    if cls == 'DiscountFactorCurve' and p.chance(.25):
        x = p.dates(p.r.choice((2, 3, 4)))
        kw = dict(dict(x=x, org=None, itp=p.r.choice(('log_linear_scheme', 'linear_scheme', 'loglinear', 'linear'))), **kw)
    elif cls in ('ZeroRateCurve', 'CashRateCurve') and p.chance(.25):
        kw = dict(dict(itp=p.r.choice(('linear', 'constant', 'left', 'right'))), **kw)
    return p.curve(cls, **kw)


def c05(rng):
    p = Prog(rng, kinds(rng, 'fdbb'), 'rates')
    c = ir_curve(p)
    if not (c.cls in PIECE and p.k != 'b'):
        triangle(p, c, 'df')
    for _ in range(14):
        ir_query(p, c)
    if p.k == 'b':
        p.add('ten', id=c.id)
    return p


def credit_query(p, c, spread=False):
    r, b = p.r, p.k == 'b'
    w = r.random()
    s, e = pair(p, c)
    while spread and c.cls in FACTOR and s == c.org:
        s, e = p.later(s), p.later(p.later(e))
    if c.cls in PIECE and not b:
        return p.add('call', id=c.id, x=S(s))
    if w < .15:
        p.add('call', id=c.id, x=S(s))
    elif w < .35:
        p.add('surv', id=c.id, s=S(e))
    elif w < .55:
        p.add('surv', id=c.id, s=S(s), e=S(e))
    elif w < .68:
        if e == c.org and not b and c.cls in MARGINAL:
            e = p.later(e)
        p.add('intens', id=c.id, s=S(e))
    elif w < .82:
        if s == e and not b:
            e = p.later(s)
        p.add('intens', id=c.id, s=S(s), e=S(e))
    else:
        mn, mx = min(c.x), max(c.x)
        if (b or (mn <= s < mx) or c.cls in PIECE) and not (spread and at_origin(c, s)):
            p.add('hazard', id=c.id, s=S(s))


def credit_curve(p, cls=None, **kw):
    classes = CREDIT if p.k == 'b' else tuple(c for c in CREDIT if c not in PIECE)
    cls = cls or p.r.choice(classes)
    if cls in ('FlatIntensityCurve',) and p.chance(.25):
        kw = dict(dict(itp=p.r.choice(('linear', 'constant', 'left', 'right'))), **kw)
    if cls in ('SurvivalProbabilityCurve', 'DefaultProbabilityCurve') and p.chance(.25):
        kw = dict(dict(x=p.dates(p.r.choice((2, 3, 4))), org=None, itp='log_linear_scheme'), **kw)
    return p.curve(cls, **kw)


def c07(rng):
    p = Prog(rng, kinds(rng, 'fdbb'), 'credit')
    if p.chance(.12):   # values are kept between zero and one
        cls = rng.choice(('SurvivalProbabilityCurve', 'DefaultProbabilityCurve') + MARGINAL)
        x = p.dates(4)
        y = [p.u(.1, .9), 1., rng.choice((1.25, 1., -.25)), p.u(.1, .9)]
        if 'Default' in cls:
            y[2] = rng.choice((-.25, 0.))
            y[1] = 0.
        elif y[2] < 0:
            y[2] = 1.5
        c = p.curve(cls, x=x, y=y, org=x[0] - p.gap(), itp=rng.choice((None, 'log_linear_scheme')) if cls not in MARGINAL else None)
        p.add('calls', id=c.id, xs=[S(d) for d in x])
        p.add('kw', id=c.id)
        return p
    if p.chance(.08):   # nothing survives from some date on
        cls = rng.choice(('SurvivalProbabilityCurve', 'DefaultProbabilityCurve') + MARGINAL)
        x = p.dates(4)
        n = rng.choice((1, 2, 3))
        y = [1. - i * .125 for i in range(1, n + 1)] + [0.] * (4 - n)
        if 'Default' in cls:
            y = [1. - v for v in y]
        c = p.curve(cls, x=x, y=y, org=x[0] - p.gap())
        p.add('calls', id=c.id, xs=[S(d) for d in x])
        for _ in range(12):
            s, e = rng.choice([c.org] + x[:n]), p.some(c.x, back=False)
            w = rng.random()
            if w < .3:
                s = e = rng.choice(x)
            elif cls in MARGINAL:
                s = rng.choice([c.org] + x)
            s, e = min(s, e), max(s, e)
            if cls not in MARGINAL and s != e and s != c.org and s not in x[:n]:
                s = c.org
            p.add('surv', id=c.id, s=S(s), e=S(e))
        return p
    c = credit_curve(p)
    triangle(p, c, 'surv')
    for _ in range(14):
        credit_query(p, c)
    p.add('kw', id=c.id)
    if p.k == 'b':
        p.add('ten', id=c.id)
    return p


def vol_query(p, c):
    b = p.k == 'b'
    w = p.r.random()
    s, e = pair(p, c)
    if c.cls == VOL[0] and w < .75 and not (smooth(c.x, c.org, e) and smooth(c.x, s, e)):
        w = .1 if w < .4 else .9
    if w < .2:
        p.add('call', id=c.id, x=S(s))
    elif w < .4:
        p.add('tvol', id=c.id, s=S(e))
    elif w < .75:
        if s == e and not b and c.cls == 'TerminalVolatilityCurve':
            e = p.later(s)
        if p.chance(.12) and s != c.org:
            s, e = e, s
        p.add('tvol', id=c.id, s=S(s), e=S(e))
    else:
        if b or c.cls == 'InstantaneousVolatilityCurve':
            p.add('ivol', id=c.id, s=S(s))


def c08(rng):
    p = Prog(rng, kinds(rng, 'fdbb'), 'volatility')
    cls = rng.choice(VOL)
    kw = dict()
    if cls == 'TerminalVolatilityCurve' and p.chance(.3):   # variance may decrease
        x = p.dates(rng.choice((2, 3, 4)))
        kw = dict(x=x, y=[p.u(.05, .6) for _ in x])
    c = p.curve(cls, **kw)
    if cls == 'TerminalVolatilityCurve' and p.chance(.3):
        p.ev[-1]['floor'] = S(rng.choice((0., p.u(.01, .3))))
    for _ in range(14):
        vol_query(p, c)
    return p


# --------------------------------------------------------------------- C06
def family(p):
    return p.r.choice((IR, IR, CREDIT, CREDIT, VOL))


def c06(rng):
    w = rng.random()
    if w < .2:
        p = Prog(rng, kinds(rng, 'fd'), 'casts')
        if p.chance(.5):
            src = p.r.choice(('DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve'))
            dst = 'ZeroRateCurve'
        else:
            src, dst = 'ZeroRateCurve', 'ZeroRateCurve'
    else:
        p = Prog(rng, 'b', 'casts')
        fam = family(p)
        src, dst = rng.choice(fam), rng.choice(fam)
    n = rng.choice((1, 2, 2, 3, 4))
    x = [p.t0]
    while len(x) < n:
        x.append(p.snap(x[-1] + (p.gap() if p.k == 'f' else rng.choice((182, 365, 500) if src == VOL[0] else (1, 30, 31, 91, 182, 365)))))
    if p.chance(.5) and n > 1:
        kw = dict(org=x[0], x=x[1:])
    else:
        kw = dict(org=None if p.chance(.6) else x[0], x=x)
    if src in FACTOR and (len(kw['x']) < 2 or kw['x'][0] != p.t0):
        kw['x'] = sorted(set(kw['x'] + [p.t0 + 400 if p.k != 'f' else p.t0 + 2.]))
    if p.k == 'b' and dst in ADDITIVE and p.d30:
        kw['dc'] = 'none'
    c = p.curve(src, **kw)
    # terminal volatilities from differences of integrals are too rough
    if src == 'InstantaneousVolatilityCurve' and dst == 'InstantaneousVolatilityCurve' and False:
        return p
    extra = dict()
    if p.chance(.25):
        extra['org'] = S(c.org)
    if p.chance(.15):
        extra['dc'] = rng.choice(('act360', 'act365', 'none'))
        if extra['dc'] == 'none':
            extra.pop('dc')
    if p.chance(.35) and (p.k == 'b' or True):
        extra['ten'] = p.tenor()
    if p.k == 'b' and src == 'InstantaneousVolatilityCurve' and 'dc' in extra:
        extra.pop('dc')
    if dst not in FACTOR and p.chance(.2):
        extra['itp'] = rng.choice(('linear_scheme', 'constant') + (('log_linear_scheme',) if dst in MARGINAL else ()))
    if p.chance(.1):
        p.add('cast', id='q', cls=rng.choice((src, dst)), src=c.id, via='points')
    d = 'd'
    if p.chance(.3):
        xs = sorted(set([p.some(c.x, back=False) for _ in range(3)]))
        if p.k != 'b':
            xs = [v for v in xs if v > c.org] or [p.later(c.org)]
        if dst in FACTOR:
            xs = [v for v in xs if v > c.org] or [p.later(c.org)]
            extra['org'] = S(c.org)
        if src in VOL and dst == 'InstantaneousVolatilityCurve':
            xs = [v for v in xs if v >= c.org]
        p.add('caston', id=d, cls=dst, src=c.id, x=[S(v) for v in xs], via='cast' if p.chance(.3) else None, **extra)
        org = c.given if c.given is not None else None
        rec = Curve(id=d, cls=dst, x=xs, org=c.org if (org is not None or 'org' in extra) else xs[0])
    else:
        via = 'cast' if p.chance(.3) else None
        p.add('cast', id=d, cls=dst, src=c.id, via=via, **extra)
        rec = Curve(id=d, cls=dst, x=c.x, org=c.org)
    rec.ten = c.ten if p.k != 'b' else None
    rec.dc = c.dc
    rec.itp = extra.get('itp')
    p.add('dom', id=d)
    p.add('org', id=d)
    p.add('kw', id=d)
    p.add('calls', id=d, xs=[S(v) for v in rec.x])
    if p.k == 'b':
        p.add('ten', id=d)
        for v in (rec.x[0], rec.x[-1]):
            p.add('call', id=d, x=S(v))
        if not (src in VOL and dst != src):
            q = ir_query if dst in IR else credit_query if dst in CREDIT else vol_query
            f = 'df' if dst in IR else 'surv' if dst in CREDIT else 'tvol'
            if dst not in VOL and rec.org == c.org:
                for v in c.x:
                    p.add(f, id=d, s=S(v))
                    if v >= c.org:
                        p.add(f, id=c.id, s=S(v))
            for _ in range(4):
                if dst in PIECE and (src not in PIECE):
                    continue
                if dst not in VOL:
                    q(p, rec)
    elif dst in LINEAR:
        f = 'zero' if dst in IR else 'intens'
        for v in c.x:
            if v > c.org:
                p.add(f, id=d, s=S(v))
                p.add(f, id=c.id, s=S(v))
    p.add('kw', id=c.id)
    return p


# --------------------------------------------------------------------- C09
def c09(rng):
    p = Prog(rng, kinds(rng, 'fdbb'), 'spread')
    cls = rng.choice(RATE if p.k == 'b' else tuple(c for c in RATE if c not in PIECE))
    c = p.curve(cls, **(dict(org=p.t0 - p.gap()) if cls in FACTOR and p.chance(.5) else {}))
    flat = cls in PIECE or p.chance(.5)
    v = lambda: S(p.u(-.004, .01))   # noqa E731
    sx = p.dates(1 if flat else rng.choice((2, 3)), c.x[0])
    p.add('new', id='s1', cls='DateCurve', x=[S(d) for d in sx], y=[v() for _ in sx])
    other = cls if cls not in FACTOR + MARGINAL else rng.choice(('ZeroRateCurve', 'DateCurve'))
    p.add('new', id='s2', cls=other if not flat else 'DateCurve', x=[S(d) for d in sx], y=[v() for _ in sx],
          itp=None if flat or other not in PIECE else 'constant')
    on = 'none'
    q = ir_query if cls in IR else credit_query if cls in CREDIT else vol_query

    def look():
        p.add('isspread', id=c.id, s=on)
        p.add('calls', id=c.id, xs=[S(p.some(c.x, back=False)) for _ in range(3)])
        for _ in range(3):
            if cls == 'InstantaneousVolatilityCurve':
                p.add('ivol', id=c.id, s=S(p.some(c.x, back=False)))
            elif cls == 'TerminalVolatilityCurve':
                p.add('tvol', id=c.id, s=S(p.some(c.x, back=False)))
            else:
                q(p, c, spread=True)
    look()
    for _ in range(rng.choice((2, 3, 5))):
        w = rng.random()
        if w < .6:
            s = rng.choice(('s1', 's2', 'none')) if on != 'none' else rng.choice(('s1', 's2'))
            p.add('spread', id=c.id, s=s)
            if on == 'none' or s == 'none':
                on = s
        elif w < .8:
            s = rng.choice(('s1', 's2'))
            p.add('set', id=s, x=S(rng.choice(sx)), v=v())
        elif w < .9:     # a point of the curve itself
            keep = round(c.y[-1] * p.u(1., 1.05, 3), 6)
            if cls in FACTOR + MARGINAL:
                keep = round((1. - c.y[-1] if 'Default' in cls else c.y[-1]) * p.u(.98, 1., 3), 6)
            p.add('set', id=c.id, x=S(c.x[-1]), v=S(keep))
        else:
            p.add('fix', id=c.id, x=S(c.x[-1]), v=S(any_value(p, c))) if cls not in PIECE else None
        look()
    p.add('spread', id=c.id, s='none')
    on = 'none'
    p.add('kw', id=c.id)
    look()
    return p


# --------------------------------------------------------------------- C10
def c10(rng):
    return fx(rng) if rng.random() < .5 else forwards(rng)


def forwards(rng):
    p = Prog(rng, kinds(rng), 'forwards')
    x = p.dates(rng.choice((1, 2, 3, 4)))
    org = rng.choice((None, x[0], x[0] - p.gap()))
    eff = x[0] if org is None else org
    w = rng.random()
    if w < .3:
        yc = None
    elif w < .55:
        yc = S(rng.choice((0., p.u(-.02, .08), p.u(-.02, .08))))
        if yc == '0.0':
            yc = '0.0'
    elif w < .6:
        yc = 'none'
    else:
        cls = rng.choice(('DiscountFactorCurve', 'ZeroRateCurve') + (('ShortRateCurve', 'CashRateCurve') if p.k == 'b' else ()))
        if p.chance(.2):
            d = p.curve('DateCurve', org=eff, first=eff, y=None, itp='log_linear_scheme', x=(xx := p.dates(3, eff)), dc='none') \
                if False else p.curve('ForwardCurve', first=eff, org=None)
            d.x = d.x
            yc = None if True else d.id
        else:
            d = p.curve(cls, org=eff, first=eff)
            yc = d.id
    y = p.values('ForwardCurve', eff, x)
    if p.chance(.3) and org is not None and len(x) > 1:
        z = list(zip(x, y))
        rng.shuffle(z)
        x, y = map(list, zip(*z))
    price = len(x) == 1 and p.chance(.5)
    if price:
        org = None
    dc = p.dcs(True)
    p.add('new', id='f', cls='ForwardCurve', x=[S(d) for d in x], y=[S(v) for v in y], org=None if org is None else S(org),
          dc=None if dc == 'none' else dc, yc=yc, price=rng.choice(('price', 'float')) if price else None,
          itp=None if price or p.chance(.7) else rng.choice(('linear', 'linear_scheme', 'left')))
    for _ in range(8):
        d = p.some(x)
        p.add(rng.choice(('fwd', 'call')), id='f', x=S(d))
    d = max(x)
    for _ in range(3):
        d = p.later(d)
        p.add('fwd', id='f', x=S(d))
    p.add('calls', id='f', xs=[S(v) for v in sorted(x)] + [S(d)])
    if p.chance(.4):
        p.add('set', id='f', x=S(rng.choice(x + [p.later(max(x))])), v=S(p.u(20, 150, 2)))
        p.add('fwd', id='f', x=S(max(x)))
        p.add('fwd', id='f', x=S(p.later(p.later(d))))
    return p


CUR = ('EUR', 'USD', 'GBP', 'JPY')


def fx(rng):
    p = Prog(rng, kinds(rng), 'fx')
    base = rng.choice(CUR)
    cls = ('DiscountFactorCurve', 'ZeroRateCurve') + (('CashRateCurve',) if p.k != 'f' else ())
    cv = {c: p.curve(rng.choice(cls), org=p.t0, first=p.t0, id='z' + c) for c in CUR}
    early = p.t0 if p.chance(.5) else p.t0 - p.gap() if p.chance(.5) else p.later(p.t0)
    alt = {c: p.curve(rng.choice(cls), org=early, first=early, id='y' + c) for c in CUR}
    p.add('fxnew', id='x', cur=base, dom=cv[base].id)
    curs = [base]
    # an fx forward curve of its own
    x = p.dates(rng.choice((1, 2, 3)), rng.choice((p.t0, p.t0, p.t0 - p.gap(), p.later(p.t0))))

    def look():
        for d in rng.sample(curs, min(3, len(curs))):
            for f in rng.sample(curs, min(3, len(curs))):
                if d == f and d != base:
                    continue
                q = p.some(x, back=False)
                p.add('fxfwd', id='x', d=d, f=f, x=S(max(q, p.t0)), via=rng.choice((None, 'item', 'row')))
        p.add('fxrow', id='x', cur=base)
    for i in range(rng.choice((1, 2, 3, 5))):
        w = rng.random()
        c = rng.choice([v for v in CUR if v != base])
        if p.chance(.1):    # what is refused changes nothing
            w = rng.random() * .85
            if w < .5:
                p.add('fxadd', id='x', cur=c, crv=cv[c].id, spot=S(float(rng.randrange(1, 5))), bad=rng.choice(('int', 'number')))
            else:
                f = 'r%d' % i
                p.add('new', id=f, cls='FxForwardCurve', x=[S(d) for d in x], y=[S(p.u(.5, 2, 3)) for _ in x], dom=alt[base].id, fgn=cv[c].id)
                p.add('fxsetcur', id='x', cur=c, crv=f)
            look()
            continue
        if p.chance(.15):   # curves live on
            z = rng.choice([cv[v] for v in CUR])
            if p.chance(.5) and len(z.x) > 1:
                p.add('set', id=z.id, x=S(z.x[-1]), v=S(round(z.y[-1] * .98, 6)))
            elif z.cls not in FACTOR:
                p.add('new', id='sp%d' % i, cls='DateCurve', x=[S(p.t0)], y=[S(rng.choice((.001, -.002)))])
                p.add('spread', id=z.id, s='none')
                p.add('spread', id=z.id, s='sp%d' % i)
        if w < .65:
            p.add('fxadd', id='x', cur=c, crv=rng.choice((cv, alt))[c].id, spot=S(p.u(.2, 3, 3)))
            if c not in curs:
                curs.append(c)
        elif w < .85:
            f = 'q%d' % i
            z, org = list(x), None
            if len(x) > 1 and p.chance(.3):     # in any order
                rng.shuffle(z)
                org = S(rng.choice((x[0], p.t0)))
            p.add('new', id=f, cls='FxForwardCurve', x=[S(d) for d in z], y=[S(p.u(.5, 2, 3)) for _ in x], dom=cv[base].id, fgn=cv[c].id,
                  price=rng.choice((None, 'fx', 'float')) if len(x) == 1 else None, org=org)
            p.add('fxsetcur', id='x', cur=c, crv=f)
            if c not in curs:
                curs.append(c)
            for _ in range(3):
                p.add('fwd', id=f, x=S(p.some(x)))
        elif len(curs) > 1:
            c = rng.choice([v for v in curs if v != base])
            f = 'q%d' % i
            p.add('new', id=f, cls='FxForwardCurve', x=[S(d) for d in x], y=[S(p.u(.5, 2, 3)) for _ in x], dom=cv[base].id, fgn=cv[c].id,
                  price=rng.choice((None, 'fx', 'float')) if len(x) == 1 else None)
            p.add('fxsetpair', id='x', d=base, f=c, crv=f)
        look()
    look()
    return p


# --------------------------------------------------------------------- C11, C12
def c11(rng):
    p = Prog(rng, 'f', 'plans')
    for _ in range(10):
        n = rng.choice((1, 2, 3, 4, 5, 8, 10, 12, 30))
        amt = rng.choice((1., 1., 100., p.u(-1000, 1000, 2), p.u(.01, 10, 2)))
        fn = rng.choice(('same', 'bullet', 'amortize', 'annuity', 'annuity', 'annuity', 'consumer'))
        rate = None
        if fn in ('annuity', 'consumer') and p.chance(.85):
            rate = S(rng.choice((0., .01, -.01, p.u(-.05, .2), p.u(.001, .1), p.u(-9, 9, 2) * 1e-5)))
        p.add('plan', fn=fn, n=n, amt=S(amt), rate=rate)
        plan = [p.u(-20, 50, 2) for _ in range(rng.choice((1, 2, 3, 6)))]
        p.add('outst', plan=[S(v) for v in plan], amt=S(amt), sign=p.chance(.4))
    return p


def c12(rng):
    p = Prog(rng, 'f', 'compounding')
    for _ in range(12):
        r, t = rng.choice((0., p.u(-.05, .2), p.u(-.05, .2))), rng.choice((0., p.u(.01, 30), p.u(.01, 2)))
        f = rng.choice((1, 2, 4, 12, 52, 365, 3))
        df = p.u(.1, 1.2)
        if p.chance(.12):   # back in time
            t = -p.u(.05, 3)
        t1 = t or 1.
        fn = rng.choice(('simple_compounding', 'simple_rate', 'continuous_compounding', 'continuous_rate', 'periodic_compounding',
                         'periodic_rate', 'annually_compounding', 'semi_compounding', 'quarterly_compounding',
                         'monthly_compounding', 'daily_compounding'))
        if fn == 'simple_compounding' and 1 + r * t < .05:
            r = abs(r)
        a = {'simple_rate': (df, t1), 'continuous_rate': (df, t1), 'periodic_rate': (df, t1, f),
             'periodic_compounding': (r, t, f)}.get(fn, (r, t))
        p.add('comp', fn=fn, a=[S(v) for v in a])
    # there and back
    r, t, f = p.u(-.04, .15), p.u(.1, 10) if p.chance(.8) else -p.u(.1, 5), rng.choice((1, 2, 4, 12, 365))
    for fn, inv, more in (('simple_compounding', 'simple_rate', ()), ('continuous_compounding', 'continuous_rate', ()),
                          ('periodic_compounding', 'periodic_rate', (f,))):
        d = {'s': 1 / (1 + r * t), 'c': math.exp(-r * t), 'p': (1 + r / f) ** (-f * t)}[fn[0]]
        p.add('comp', fn=fn, a=[S(v) for v in (r, t) + more])
        p.add('comp', fn=inv, a=[S(v) for v in (round(d, 8), t) + more])
    return p


# --------------------------------------------------------------------- cashflows
def reference(p, org=None, model=False):
    """what projects flows: nothing, a number, a curve"""
    w = p.r.random()
    if w < .25:
        return 'none'
    if w < .45:
        return p.r.choice(('0', S(p.u(.005, .06)), S(p.u(.005, .06)), S(p.u(-.02, .06))))
    org = p.t0 if org is None else p.snap(org)
    if w < .85:
        return p.discount(org).id
    if w < .93:
        x = p.dates(3, org)
        return p.curve('DateCurve', x=x, y=[p.u(.0, .06) for _ in x], org=None).id
    x = p.dates(3, org)
    return p.curve('ForwardCurve', x=x, y=[p.u(.01, .06) for _ in x], org=None, dc='none').id


def pay_dates(p, n=None, first=None):
    r = p.r
    n = n or r.choice((1, 2, 3, 4, 6))
    x = [p.t0 if first is None else first]
    if p.k == 'b' and p.chance(.5):   # months
        return x[:1] + [add_months(x[0], 3 * i) for i in range(1, n)]
    return p.dates(n, x[0])


def add_months(n, k):
    from datetime import date
    d = date.fromordinal(n)
    t = d.year * 12 + d.month - 1 + k
    y, m = divmod(t, 12)
    m += 1
    last = [31, 29 if y % 4 == 0 and (y % 100 or y % 400 == 0) else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31][m - 1]
    return date(y, m, min(d.day, last)).toordinal()


def offsets(p, q=.3):
    kw = dict()
    if p.chance(q):
        kw['fo'] = S(p.r.choice((.125, .25))) if p.k == 'f' else S(p.r.choice((1, 2, 14))) if p.k == 'd' else p.r.choice(('1D', '2D', '1W', '1M'))
    if p.chance(q):
        kw['po'] = S(p.r.choice((.125, .25))) if p.k == 'f' else S(p.r.choice((1, 2, 14))) if p.k == 'd' else p.r.choice(('1D', '2D', '1W', '1M'))
    return kw


def rate_list(p, id=None, ref='auto', x=None, r=None, **kw):
    x = x or pay_dates(p, first=p.t0 + p.gap())
    org = None
    if len(x) == 1 or p.chance(.6):
        org = x[0] - p.gap()
    a = [0. if p.chance(.1) else p.u(-100, 100, 2) for _ in x]
    scalar = p.chance(.4)
    if scalar and p.chance(.4):
        a[0] = p.r.choice((1., 0.))
    id = id or p.id('l')
    dc = p.dcs()
    if kw.get('dc'):
        dc = kw.pop('dc')
    if p.chance(.05) and len(x) > 1:   # refused
        p.add('cfnew', id=id, cls=p.r.choice(('RateCashFlowList', 'ContingentRateCashFlowList')), x=[S(d) for d in x],
              a=[S(v) for v in (a + [1.] if p.chance(.6) else a[1:])], r='0.01', ref='none')
    e = dict(id=id, cls='RateCashFlowList', x=[S(d) for d in x], a=[S(a[0])] if scalar else [S(v) for v in a],
             scalar=True if scalar else None, org=None if org is None else S(org), dc=None if dc == 'none' else dc,
             r=S(p.u(-.02, .08) if r is None else r), ref=reference(p) if ref == 'auto' else ref, **offsets(p))
    e.update(kw)
    p.add('cfnew', **e)
    return Curve(id=id, x=x, org=org, cls='RateCashFlowList', start=x[0] - p.gap() if org is None else org)


def one_pay(p, c):
    """changes a single payment"""
    rates = c.cls in ('RateCashFlowList', 'crate')
    if rates and p.chance(.7):
        p.add('setpay', id=c.id, x=S(p.r.choice(c.x)), field='fixed_rate', v=S(p.u(-.02, .08)))
    elif rates or c.cls == 'FixedCashFlowList' or getattr(c, 'single', False):
        p.add('setpay', id=c.id, x=S(p.r.choice(c.x)), field='amount', v=S(p.r.choice((0., p.u(-100, 100, 2)))))


def flows_probe(p, c, x):
    for _ in range(3):
        p.add('cfget', id=c, x=S(p.some(x)))
    p.add('cfgets', id=c, xs=[S(d) for d in x], box=p.r.choice((None, 'tuple')))
    p.add('cfdom', id=c)


def c13(rng):
    p = Prog(rng, kinds(rng), 'interest')
    c = rate_list(p)
    p.add('cforg', id=c.id)
    flows_probe(p, c.id, c.x)
    p.add('cftab', id=c.id)
    for d in c.x:
        p.add('payoff', id=c.id, x=S(d))
    p.add('getrate', id=c.id)
    if p.chance(.6):
        p.add('setrate', id=c.id, r=S(p.u(-.02, .08)))
        p.add('getrate', id=c.id)
        flows_probe(p, c.id, c.x)
        p.add('cftab', id=c.id)
    if p.chance(.4):
        one_pay(p, c)
        p.add('getrate', id=c.id)
        flows_probe(p, c.id, c.x)
        p.add('cftab', id=c.id)
        if p.chance(.5):
            p.add('setrate', id=c.id, r=S(p.u(-.02, .08)))
            p.add('getrate', id=c.id)
            flows_probe(p, c.id, c.x)
    if p.chance(.4):
        p.add('setref', id=c.id, ref=reference(p))
        flows_probe(p, c.id, c.x)
    if p.chance(.4):
        p.add('cfcall', id='k', src=c.id, ref=reference(p))
        p.add('cfgets', id='k', xs=[S(d) for d in c.x])
        p.add('cfgets', id=c.id, xs=[S(d) for d in c.x])
    return p


def fixed_list(p, id=None, x=None, cls=None, shuffle=False):
    x = x or pay_dates(p)
    shuffle = shuffle and p.chance(.3)
    first = x[0]
    if shuffle:   # in any order
        x = list(x)
        p.r.shuffle(x)
    cls = cls or p.r.choice(('FixedCashFlowList', 'FixedCashFlowList', 'CashFlowList'))
    a = [p.u(-100, 100, 2) for _ in x]
    scalar = p.chance(.25)
    if scalar and p.chance(.4):
        a[0] = p.r.choice((1., 0.))
    if p.chance(.1) and not scalar:   # refused
        p.add('cfnew', id=p.id('w'), cls=cls, x=[S(d) for d in x], a=[S(v) for v in a + [1.]])
        if len(a) > 1:
            p.add('cfnew', id=p.id('w'), cls=cls, x=[S(d) for d in x], a=[S(v) for v in a[1:]])
    id = id or p.id('l')
    org = None if p.chance(.5) and not shuffle else S(first - p.gap())
    p.add('cfnew', id=id, cls=cls, x=[S(d) for d in x], a=[S(a[0])] if scalar else [S(v) for v in a],
          scalar=True if scalar else None, org=org, box=p.r.choice((None, 'tuple')))
    return Curve(id=id, x=x, cls=cls)


def c14(rng):
    p = Prog(rng, kinds(rng), 'containers')
    legs = []
    for _ in range(rng.choice((1, 2, 2, 3))):
        w = rng.random()
        if w < .55 or (p.k != 'b' and w < .6):
            c = fixed_list(p, shuffle=True)
        elif w < .85:
            c = rate_list(p, ref=rng.choice(('none', 'none', '0.03')) if p.chance(.5) else 'auto')
        else:
            c = option_list(p)
        legs.append(c)
        p.add('cforg', id=c.id)
        flows_probe(p, c.id, c.x)
        p.add('cftab', id=c.id)
        if p.chance(.3):
            one_pay(p, c)
            flows_probe(p, c.id, c.x)
        if p.chance(.5):
            p.add('cfcall', id='k' + c.id, src=c.id)
            p.add('cfdom', id='k' + c.id)
            p.add('cfgets', id='k' + c.id, xs=[S(d) for d in c.x])
    for d in c.x[:2]:
        p.add('payoff', id=c.id, x=S(d))
    p.add('payoff', id=c.id, x=S(c.x[-1] + p.gap()))
    p.add('legs', id='g', ids=[c.id for c in legs])
    x = sorted({d for c in legs for d in c.x})
    p.add('cforg', id='g')
    flows_probe(p, 'g', x)
    p.add('cftab', id='g')
    p.add('cfcall', id='kg', src='g', ref=model(p, rates=True, classes=VANILLA[:2]).id if p.chance(.4) else None)
    p.add('cfdom', id='kg')
    p.add('cfgets', id='kg', xs=[S(d) for d in x])
    p.add('cforg', id='kg')
    if p.chance(.4):   # legs of legs
        c = fixed_list(p, shuffle=True)
        p.add('legs', id='n', ids=rng.choice((['g', c.id], [c.id, 'g'], ['g'])))
        p.add('cforg', id='n')
        flows_probe(p, 'n', sorted(set(x + c.x)))
        p.add('cftab', id='n')
        p.add('cfcall', id='kn', src='n')
        p.add('cforg', id='kn')
    if p.chance(.5):   # copies
        p.add('cfcopy', id='z', src=rng.choice([c.id for c in legs] + ['g']), org=rng.choice((None, S(p.t0), S(x[0] - p.gap()), '0' if p.k == 'f' else None)))
        p.add('cforg', id='z')
        flows_probe(p, 'z', x)
        p.add('cftab', id='z')
    if any(c.cls == 'RateCashFlowList' for c in legs):
        c = [c for c in legs if c.cls == 'RateCashFlowList'][0]
        p.add('setrate', id=c.id, r=S(p.u(0, .1)))
        flows_probe(p, 'g', x)
    if p.chance(.05):
        p.add('legs', id='none', ids=[c.id], bad=True)
    if p.chance(.4):   # payoffs of all lists put together
        x = mixed(p, 'x', legs)
        flows_probe(p, 'x', x)
        p.add('cforg', id='x')
        p.add('cftab', id='x')
        p.add('payoff', id='x', xs=[S(d) for d in x + [x[-1] + p.gap()]], box=rng.choice((None, 'tuple')))
        p.add('cfcall', id='kx', src='x', ref=model(p, rates=True, classes=VANILLA[:2]).id if p.chance(.4) else None)
        p.add('cfgets', id='kx', xs=[S(d) for d in x])
    return p


def mixed(p, id, ls):
    """a list made of payoffs of others, numbers and functions of the user"""
    rng = p.r
    of = [[c.id, S(d)] for c in ls for d in c.x]
    rng.shuffle(of)
    of = of[:rng.choice((1, 2, 4, 6))]
    for _ in range(rng.choice((0, 0, 1, 2))):
        of.insert(rng.randrange(len(of) + 1), rng.choice((['num', S(p.u(-50, 50, 2))], ['num', '0'], ['fn', S(p.u(-50, 50, 2)), S(p.u(-50, 50, 2))])))
    x = p.dates(len(of), p.t0)[:len(of)]
    of = of[:len(x)]
    ref = model(p, rates=True, classes=VANILLA[:2]).id if p.chance(.6) else None
    p.add('cfmix', id=id, cls='ContingentCashFlowList' if ref or p.chance(.5) else 'CashFlowList', x=[S(d) for d in x],
          of=of, ref=ref, org=rng.choice((None, S(p.t0), S(x[0] - p.gap()))), box=rng.choice((None, 'tuple')))
    return x


VANILLA = ('IntrinsicOptionPayOffModel', 'NormalOptionPayOffModel', 'LogNormalOptionPayOffModel', 'DisplacedLogNormalOptionPayOffModel',
           'UserOptionPayOffModel')
BINARY = ('BinaryIntrinsicOptionPayOffModel', 'BinaryNormalOptionPayOffModel', 'BinaryLogNormalOptionPayOffModel',
          'BinaryDisplacedLogNormalOptionPayOffModel', 'BinaryOptionPayOffModel')


def model(p, id=None, classes=VANILLA, vd=None, level=None, rates=False, vol=True, units=0., slow=True, **kw):
    """an option model, forwards at level"""
    cls = p.r.choice(classes)
    id = id or p.id('m')
    vd = p.t0 - p.gap() if vd is None else vd
    level = level or (p.u(.01, .05) if rates else p.r.choice((p.u(.02, .08), p.u(50, 150, 2), 1.)))
    inner = p.r.choice(VANILLA[1:]) if cls == 'BinaryOptionPayOffModel' else None
    log = 'LogNormal' in (inner or cls)
    w = p.r.random()
    if w < .4:
        fwd = S(level) if log or 'User' in (inner or cls) or p.chance(.7) else p.r.choice(('0', '0', S(round(-level * p.u(.2, 1, 2), 6))))
    elif w < .7 or (log and rates):
        x = p.dates(p.r.choice((1, 2, 3)), p.t0 - (0 if p.k == 'f' else 40))
        fwd = p.curve('ForwardCurve', x=x, y=[round(level * p.u(.8, 1.25, 2), 6) for _ in x], org=None, dc=p.dcs(True),
                      yc=None if p.chance(.5) else S(p.u(-.01, .05))).id
    elif rates:
        fwd = (p.discount(vd) if slow else p.discount(vd, classes=('DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve'))).id
    else:
        x = p.dates(p.r.choice((2, 3)), p.t0)
        fwd = p.curve('DateCurve', x=x, y=[round(level * p.u(.8, 1.25, 2), 6) for _ in x], org=None, dc=p.dcs(True)).id
    # normal volatilities are of the size of the forward
    scale = level if ('Normal' in (inner or cls) or 'User' in (inner or cls)) and not log else 1.
    if inner is None and p.chance(units):   # other differences and units
        kw['un'] = {k: v for k, v in (('dsh', S(round(level * .01, 6))), ('dsc', '1'), ('vsh', S(round(scale * .001, 8))), ('vsc', '1'), ('tsh', '0.0625'),
                                      ('tsc', '0.25')) if p.chance(.6)}
    v = lambda: round(scale * p.u(.1, .5), 7)    # noqa E731
    w = p.r.random()
    if not vol:
        vl = 'none'
    elif w < .5:
        vl = S(v())
    elif w < .8:
        x = p.dates(p.r.choice((1, 2)), vd)
        y = [v()]
        y += [round(y[0] * 1.1, 6)] * (len(x) - 1)
        vl = p.curve('TerminalVolatilityCurve', x=x, y=y, org=vd, dc=p.dcs(True)).id
    else:
        x = p.dates(p.r.choice((1, 2)), vd)
        vl = p.curve('DateCurve', x=x, y=[v() for _ in x], org=vd, dc=p.dcs(True)).id
    dc = p.r.choice(('none', 'none', 'act365', 'act360')) if p.k != 'f' else 'none'
    p.add('mnew', id=id, cls=cls, vd=S(vd), fwd=fwd, vol=vl, dc=None if dc == 'none' else dc,
          disp=S(p.u(.01, .05) if log and p.chance(1) else 0.) if 'Displaced' in (inner or cls) else None,
          inner=inner, carry=True if inner and p.chance(.5) else None,
          sshift=S(p.r.choice((.001, .0005, .002))) if inner and p.chance(.4) else None, **kw)
    return Curve(id=id, cls=cls, vd=vd, level=level, inner=inner, zero=fwd == '0')


def strike(p, m, odd=.15):
    """a strike, also at zero and below if the model can do"""
    cls = getattr(m, 'cls', '')
    if ('Normal' in cls or 'Intrinsic' in cls or 'User' in cls) and 'LogNormal' not in cls and p.chance(odd):
        return p.r.choice(('0', '0') * (not m.zero) + (S(round(-m.level * p.u(.1, .5, 2), 6)),))
    return S(round(m.level * 1.0013 * p.u(.7, 1.4, 2), 6))


def option_list(p, id=None, m=None, x=None):
    w = p.r.random()
    x = x or pay_dates(p, first=p.t0 + p.gap())
    m = m or (Curve(id='none', level=1.) if p.chance(.1) else model(p))
    id = id or p.id('l')
    k = lambda: strike(p, m)  # noqa E731
    a = lambda: S(p.u(-50, 100, 2))  # noqa E731
    org = None if p.chance(.5) else S(x[0] - p.gap())
    if w < .6:
        scalar = p.chance(.3)
        ks = [k()] if scalar else [p.r.choice((k(), k(), 'none')) if m.id != 'none' else k() for _ in x]
        if m.id == 'none':
            ks = [v for v in ks]
        puts = [p.chance(.5)] if p.chance(.4) else [p.chance(.5) for _ in x]
        bits = True if p.chance(.2) else None    # as 0 and 1
        if p.chance(.05) and len(x) > 1 and len(x) != 2:   # refused
            p.add('cfnew', id=id, cls='OptionCashflowList', x=[S(d) for d in x], a=[a() for _ in x], ks=[k(), k()], puts=puts, ref=m.id)
            p.add('cfnew', id=id, cls='OptionCashflowList', x=[S(d) for d in x], a=[a() for _ in x], ks=[k()], puts=[True, False], ref=m.id)
            p.add('cfnew', id=id, cls='OptionCashflowList', x=[S(d) for d in x], a=[a() for _ in x] + [a()], ks=[k()], puts=puts, ref=m.id)
        p.add('cfnew', id=id, cls='OptionCashflowList', x=[S(d) for d in x], a=[a()] if scalar else [a() for _ in x],
              scalar=True if scalar else None, ks=ks, puts=puts, bits=bits, ref=m.id, org=org, **offsets(p))
    else:
        nc, np_ = p.r.choice(((1, 1), (2, 1), (0, 2), (2, 2), (3, 0)))
        scalar = p.chance(.3)
        if p.chance(.05):   # refused
            n = p.r.randrange(12)
            p.add('cfnew', id=id, cls='OptionStrategyCashflowList', x=[S(d) for d in x], scalar=True, ca=[a()], ck=[k() for _ in range(n)],
                  pa=[a()], pk=[k() for _ in range(11 - n)], ref=m.id)
            p.add('cfnew', id=id, cls='OptionStrategyCashflowList', x=[S(d) for d in x], ca=[a()], ck=[k(), k()], pa=[], pk=[], ref=m.id)
            p.add('cfnew', id=id, cls='OptionStrategyCashflowList', x=[S(d) for d in x], ca=[a(), a()], ck=[k(), k()], pa=[a(), a()], pk=[k()], ref=m.id)
        p.add('cfnew', id=id, cls='OptionStrategyCashflowList', x=[S(d) for d in x], scalar=True if scalar else None,
              ca=[a()] if scalar else [a() for _ in range(nc)], ck=[k() for _ in range(nc)],
              pa=[a()] if scalar else [a() for _ in range(np_)], pk=[k() for _ in range(np_)], ref=m.id, org=org, **offsets(p))
    return Curve(id=id, x=x, cls='opt', m=m, start=x[0], single=w < .6)


def collar_list(p, id=None, m=None, x=None):
    x = x or pay_dates(p, first=p.t0 + p.gap())
    org = None
    if len(x) == 1 or p.chance(.6):
        org = x[0] - p.gap()
    id = id or p.id('l')
    a = [p.u(-100, 100, 2) for _ in x]
    scalar = p.chance(.4)
    m = m or model(p, rates=True)
    k = round(m.level * 1.0013 * p.u(.6, 1.5, 2), 6)
    low = float(strike(p, m, .4))
    cap, flr = p.r.choice(((None, k), (k, None), (k, k), (round(k * 1.3, 6), k), (None, None), (None, low), (k, min(low, k)), (low, low)))
    dc = p.dcs()
    p.add('cfnew', id=id, cls='ContingentRateCashFlowList', x=[S(d) for d in x], a=[S(a[0])] if scalar else [S(v) for v in a],
          scalar=True if scalar else None, org=None if org is None else S(org), dc=None if dc == 'none' else dc,
          r=S(p.r.choice((0., p.u(-.02, .05)))), cap=None if cap is None else S(cap), flr=None if flr is None else S(flr),
          ref=m.id, **offsets(p))
    return Curve(id=id, x=x, cls='crate', m=m, start=x[0] - p.gap() if org is None else org)


def c15(rng):
    p = Prog(rng, kinds(rng), 'contingent')
    c = option_list(p) if p.chance(.5) else collar_list(p)
    flows_probe(p, c.id, c.x)
    p.add('cftab', id=c.id)
    p.add('cforg', id=c.id)
    for d in c.x:
        p.add('payoff', id=c.id, x=S(d)) if c.cls == 'crate' else None
    if p.chance(.3):
        one_pay(p, c)
        flows_probe(p, c.id, c.x)
        p.add('getrate', id=c.id) if c.cls == 'crate' else None
        p.add('cftab', id=c.id)
    if c.m.id != 'none':
        if p.chance(.5):
            p.add('mset', id=c.m.id, field='vd', v=S(p.t0 - p.gap()))
            flows_probe(p, c.id, c.x)
        if p.chance(.4) and c.m.cls == 'NormalOptionPayOffModel':
            p.add('mset', id=c.m.id, field='vol', v=S(round(c.m.level * .3, 6)))
            p.add('mset', id=c.m.id, field='fwd', v=S(round(c.m.level * .9, 6)))
            flows_probe(p, c.id, c.x)
        if p.chance(.4):
            m = model(p, level=c.m.level, classes=('NormalOptionPayOffModel', 'IntrinsicOptionPayOffModel'))
            p.add('cfcall', id='k', src=c.id, ref=m.id)
            p.add('setref', id=c.id, ref=m.id)
            flows_probe(p, c.id, c.x)
            p.add('cftab', id=c.id)
    if c.cls == 'crate':
        p.add('setrate', id=c.id, r=S(p.u(-.02, .05)))
        p.add('getrate', id=c.id)
        flows_probe(p, c.id, c.x)
    return p


FNS = ('call_value', 'put_value', 'call_delta', 'put_delta', 'call_gamma', 'put_gamma', 'call_vega', 'put_vega', 'call_theta', 'put_theta')


def c16(rng):
    p = Prog(rng, kinds(rng), 'models')
    binary = p.chance(.25)
    m = model(p, classes=BINARY if binary else VANILLA, vol=binary or p.chance(.92), units=.25,
              bump=True if not binary and p.chance(.3) else None)
    ds = [p.later(p.t0) for _ in range(3)]
    if not binary:
        ds.append(m.vd)
    for _ in range(8):
        d = rng.choice(ds)
        k = rng.choice(('none', strike(p, m), strike(p, m)))
        p.add('mdet', id=m.id, x=S(d), k=None if k == 'none' else k)
        for fn in (('call_value',) if binary else rng.sample(FNS, 4)):
            p.add('mval', id=m.id, fn=fn, x=S(d), k=None if k == 'none' else k)
    if not binary:
        p.add('mset', id=m.id, field='vd', v=S(p.t0))
        for fn in FNS:
            p.add('mval', id=m.id, fn=fn, x=S(ds[0]), k=S(round(m.level * .9513, 6)))
    if m.cls in ('IntrinsicOptionPayOffModel', 'NormalOptionPayOffModel', 'UserOptionPayOffModel') and p.chance(.5):
        p.add('mset', id=m.id, field='fwd', v=S(round(-m.level * p.u(.1, 1., 2), 6)))   # a forward below zero
        for d in (p.t0, m.vd, rng.choice(ds)):
            for k in ('0', S(round(m.level * .9513, 6))):
                for fn in ('call_value', 'put_value') + tuple(rng.sample(FNS[2:], 2)):
                    p.add('mval', id=m.id, fn=fn, x=S(d), k=k)
    return p


# --------------------------------------------------------------------- valuation
def some_list(p, contingent=True, legs=True):
    """cashflows of any kind"""
    w = p.r.random()
    if w < .25:
        return fixed_list(p, shuffle=True)
    if w < .55 or not contingent:
        c = rate_list(p)
    elif w < .75:
        c = option_list(p, m=model(p))
    else:
        c = collar_list(p)
    return c


def val_date(p, disc, x, avoid_origin=False, back=False):
    """valuation date or None"""
    if p.chance(.3):
        return None
    d = p.some(x)
    if back and p.chance(.1):
        return p.snap(disc.org - p.gap())
    d = max(d, disc.org)
    if avoid_origin and d == disc.org:
        return None
    return d


def limits(p, d, disc, x):
    """walks of step by step curves stay short"""
    return True


def c17(rng):
    p = Prog(rng, kinds(rng), 'pv')
    disc = p.discount(p.t0 - p.gap())
    ls = [some_list(p) for _ in range(rng.choice((1, 2, 3)))]
    x = sorted({d for c in ls for d in c.x})
    for c in ls:
        for _ in range(3):
            d = val_date(p, disc, c.x, back=True)
            p.add('pv', id=c.id, disc=disc.id, vd=None if d is None else S(d))
        if c.cls in ('opt', 'crate'):
            p.add('mvd', id=c.m.id)
    if p.chance(.25):
        c = Curve(id='mix', cls='mix', x=None)
        c.x = mixed(p, 'mix', ls)
        x = sorted(set(x) | set(c.x))
        ls.append(c)
    p.add('legs', id='g', ids=[c.id for c in ls])
    for _ in range(3):
        d = val_date(p, disc, x, back=True)
        for c in ls:
            p.add('pv', id=c.id, disc=disc.id, vd=None if d is None else S(d))
        p.add('pv', id='g', disc=disc.id, vd=None if d is None else S(d))
    # every date, the last one too
    for d in ls[0].x:
        if d >= disc.org:
            p.add('pv', id=ls[0].id, disc=disc.id, vd=S(d))
    return p


def c18(rng):
    p = Prog(rng, kinds(rng), 'solve')
    w = rng.random()
    prec = rng.choice((None, None, '1e-07', '1e-10', '0.001', '1e-05'))
    if w < .4:      # yield to maturity
        x = pay_dates(p, first=p.t0)
        a = [p.u(1, 10, 2) for _ in x]
        a[0], a[-1] = -100., 100.
        if len(x) == 1:
            a = [100.]
        cls = rng.choice(('FixedCashFlowList', 'CashFlowList'))
        org = p.t0 if len(x) == 1 or p.chance(.5) else None
        late = len(x) > 1 and p.chance(.15)     # an origin after the first payments
        if late:
            org = rng.choice([p.later(x[0])] + x[:-1])
        if len(x) == 1:
            x = [p.later(p.t0)]
        p.add('cfnew', id='l', cls=cls, x=[S(d) for d in x], a=[S(v) for v in a], org=None if org is None else S(org))
        id = 'l'
        if p.chance(.4):    # a bond
            c = rate_list(p, r=p.u(.0, .08), x=x, ref='none', fo=None, po=None)
            p.add('legs', id='b', ids=['l', c.id])
            id = 'b'
        dc = p.dcs()
        for _ in range(3):
            vd = rng.choice((None, p.t0, p.t0, p.later(p.t0)))
            if vd is None and id == 'l' and org is None:
                vd = x[0]
            if late:
                vd = rng.choice((None, vd))
            y, day = p.u(-.05, .15), (org if late and id == 'l' else p.t0) if vd is None else vd
            near = round(sum(v * math.exp(-y * p.yf(day, d)) for d, v in zip(x, a) if d >= day), 2)
            pv = rng.choice((0., near, near, near, p.u(-5, 5, 2), p.u(60, 110, 2), 400.))
            p.add('ytm', id=id, vd=None if vd is None else S(vd), pv=S(pv), prec=prec, dc=None if dc == 'none' else dc,
                  bounds=rng.choice((None, None, ['-0.05', '0.3'], ['0.02', '0.03'], ['-0.01', '1'])))
        p.add('cfgets', id='l', xs=[S(d) for d in x])
    elif w < .75:   # fair rate
        disc = p.discount(p.t0, classes=('DiscountFactorCurve', 'ZeroRateCurve', 'CashRateCurve'))
        p.quick = True      # no walks day by day in each step of the search
        c = rate_list(p, r=p.u(-.02, .08)) if p.chance(.75) else collar_list(p, m=model(p, rates=True, slow=False))
        if p.chance(.3):
            one_pay(p, c)
        for _ in range(3):
            pv = rng.choice((0., 0., p.u(-3, 3, 2), 1000.))
            vd = rng.choice((None, p.t0, p.some(c.x, back=False)))
            vd = None if vd is None else max(vd, p.t0)
            p.add('fair', id=c.id, disc=disc.id, vd=None if vd is None else S(vd), pv=S(pv), prec=prec,
                  bounds=rng.choice((None, None, ['-0.5', '0.5'], ['0.02', '0.03'])))
            p.add('getrate', id=c.id)
        p.add('cfgets', id=c.id, xs=[S(d) for d in c.x])
    elif w < .9:
        fit(p, prec)
    else:
        fit_forward(p, prec)
    return p


def fit(p, prec):
    """zero rates from instruments which mature one after the other"""
    r = p.r
    n = r.choice((1, 2, 3, 4))
    x = p.dates(n + 1, p.t0)[1:]
    cls = r.choice(('ZeroRateCurve', 'ZeroRateCurve', 'DiscountFactorCurve') if p.k != 'b' else ('ZeroRateCurve', 'DiscountFactorCurve', 'ZeroRateCurve'))
    cls = 'ZeroRateCurve'
    disc = p.curve(cls, x=x, y=[p.u(-.01, .05) for _ in x], org=p.t0, id='z')
    ids, pvs = [], []
    for i, d in enumerate(x):
        id = 'i%d' % i
        if p.chance(.5) or i == 0:
            a = [100.]
            ds = [d]
        else:
            ds = sorted({x[j] for j in range(i)} | {d})
            a = [p.u(1, 4, 2) for _ in ds]
            a[-1] += 100.
        z = list(zip(ds, a))
        if p.chance(.25):   # in any order
            r.shuffle(z)
        p.add('cfnew', id=id, cls='FixedCashFlowList', x=[S(v) for v, _ in z], a=[S(v) for _, v in z], org=S(p.t0))
        t = p.yf(p.t0, d)
        rate = p.u(.01, .05)
        pv = 100. * math.exp(-rate * t) + sum(a[:-1]) + (a[-1] - 100.)
        ids.append(id)
        pvs.append(round(pv, 4))
    order = list(range(n))
    if p.chance(.3):
        r.shuffle(order)
    fitc = grid = None
    if p.chance(.25):
        grid = [S(v) for v in x]
    for _ in range(2):
        p.add('fit', ids=[ids[i] for i in order], disc='z', vd=r.choice((None, S(p.t0))), pv=[S(pvs[i]) for i in order],
              prec=prec, fitc=r.choice((None, 'z')), grid=grid, bounds=r.choice((None, ['-0.2', '0.3'])))
        p.add('isspread', id='z', s='none')
        p.add('kw', id='z')


def fit_forward(p, prec):
    """forward rates from swaps which mature one after the other, discounted on another curve"""
    r = p.r
    n = r.choice((1, 2, 3, 4))
    ten, steps = {'f': ('0.25', (.25, .5, 1.)), 'd': ('91', (91, 182, 365)), 'b': ('3M', (3, 6, 12))}[p.k]
    x = [p.t0]
    for _ in range(n):
        q = r.choice(steps)
        x.append(add_months(x[-1], q) if p.k == 'b' else x[-1] + q)
    x = x[1:]
    disc = p.discount(p.t0, classes=('ZeroRateCurve', 'DiscountFactorCurve'))
    p.curve('ZeroRateCurve', x=x, y=[p.u(.0, .04) for _ in x], org=p.t0, id='w', ten=ten)
    ids = ['s%d' % i for i in range(n)]
    dc = p.dcs()
    for i, d in enumerate(x):
        ds = [v for v in x[:i] if p.chance(.7)] + [d]
        kw = dict(x=[S(v) for v in ds], org=S(p.t0), dc=None if dc == 'none' else dc, a=['100'], scalar=True)
        swap = p.chance(.5)
        p.add('cfnew', id='f%d' % i if swap else ids[i], cls='RateCashFlowList', r='0' if swap else S(-p.u(.0, .05)), ref='w', **kw)
        if swap:
            kw['a'] = ['-100']
            p.add('cfnew', id='p%d' % i, cls='RateCashFlowList', r=S(p.u(.0, .05)), ref='none', **kw)
            p.add('legs', id=ids[i], ids=['p%d' % i, 'f%d' % i])
    grid = None
    if n > 2 and p.chance(.4):
        grid = [S(v) for i, v in enumerate(x) if i != 1]
    for _ in range(2):
        p.add('fit', ids=ids, disc=disc.id, vd=r.choice((None, S(p.t0))), pv=['0'] if p.chance(.7) else [S(p.u(-.2, .2, 2)) for _ in ids], prec=prec,
              fitc='w', grid=grid, bounds=r.choice((None, ['-0.2', '0.3'])))
        p.add('isspread', id='w', s='none')
        p.add('isspread', id=disc.id, s='none')
        p.add('kw', id='w')


def c19(rng):
    p = Prog(rng, kinds(rng), 'sensitivities')
    disc = p.discount(p.t0, classes=('ZeroRateCurve', 'ZeroRateCurve', 'CashRateCurve') + (('ShortRateCurve',) if p.k == 'b' else ()))
    curves = [disc]
    if p.chance(.5):
        if p.k == 'b' and p.chance(.3):   # origin before any fixing
            fwd = p.discount(p.snap(p.t0 - 2500), classes=('DiscountFactorCurve',))
        else:
            fwd = p.discount(p.t0, classes=('ZeroRateCurve', 'CashRateCurve'))
        curves.append(fwd)
        c = rate_list(p, ref=fwd.id)
    else:
        w = rng.random()
        c = fixed_list(p) if w < .4 else rate_list(p, ref=rng.choice((disc.id, 'none', '0.02'))) if w < .7 else \
            collar_list(p) if w < .85 else option_list(p, m=model(p))
    if p.chance(.3):
        c2 = fixed_list(p)
        p.add('legs', id='g', ids=[c.id, c2.id])
        c = Curve(id='g', x=sorted(set(c.x + c2.x)), cls='legs')
    steps = disc.cls in PIECE or any(v.cls in PIECE for v in curves)
    for _ in range(4):
        d = val_date(p, disc, c.x)
        kw = dict(id=c.id, disc=disc.id, vd=None if d is None else S(d))
        if p.chance(.6):
            pick = rng.sample(curves, rng.randrange(1, len(curves) + 1))
            kw['del'] = [v.id for v in pick]
            if len(pick) == 1 and p.chance(.5):
                kw['dlist'] = True
        if p.chance(.5):
            kw['shift'] = rng.choice(('0.0001', '0.001', '0.01', '-0.0001'))
        if p.chance(.5) or steps:
            p.add('bpv', **kw)
        else:
            n = rng.choice((1, 2, 2, 3, 4))
            g = p.dates(n, p.t0)
            p.add('bucket', grid=[S(v) for v in g], **kw)
            p.add('bpv', **kw)
            if p.chance(.3) and len(disc.x) == len(set(disc.x)):
                p.add('bucket', **kw)
        for v in curves:
            p.add('isspread', id=v.id, s='none')
    if p.chance(.4):
        v = rng.choice(curves)
        p.add('new', id='sp', cls='DateCurve', x=[S(p.t0)], y=['0.001'])
        p.add('spread', id=v.id, s='sp')
        p.add('bpv', id=c.id, disc=disc.id, **{'del': [w.id for w in curves]})
        p.add('bucket', id=c.id, disc=disc.id, grid=[S(d) for d in p.dates(2, p.t0)], **{'del': [w.id for w in curves]})
        for w in curves:
            p.add('isspread', id=w.id, s='sp' if w is v else 'none')
        p.add('pv', id=c.id, disc=disc.id, vd=S(p.later(p.t0)))
        p.add('spread', id=v.id, s='none')
        if not steps:
            p.add('bpv', id=c.id, disc=disc.id, **{'del': [w.id for w in curves]})
    return p


def c20(rng):
    p = Prog(rng, kinds(rng), 'accrued')
    ls = []
    for _ in range(rng.choice((1, 2, 3))):
        w = rng.random()
        ls.append(rate_list(p) if w < .55 else collar_list(p) if w < .8 else fixed_list(p) if w < .95 else option_list(p, m=model(p)))
    p.add('legs', id='g', ids=[c.id for c in ls])
    for c in ls:
        lo = getattr(c, 'start', c.x[0])
        for _ in range(6):
            d = p.some([lo] + list(c.x))
            p.add('accr', id=c.id, vd=S(d))
            if p.chance(.4):
                p.add('accr', id='g', vd=S(d))
        for d in c.x:
            p.add('accr', id=c.id, vd=S(d))
        if c.cls in ('RateCashFlowList', 'crate') and p.chance(.4):
            p.add('setrate', id=c.id, r=S(p.u(-.02, .08)))
            p.add('accr', id=c.id, vd=S(p.some(c.x)))
        if p.chance(.3):
            one_pay(p, c)
            for d in c.x[:3]:
                p.add('accr', id=c.id, vd=S(p.some([lo] + list(c.x))))
                p.add('accr', id='g', vd=S(d))
    return p


# --------------------------------------------------------------------- C21
def c21(rng):
    p = Prog(rng, kinds(rng), 'purity')
    t = p.t0
    classes = ('ZeroRateCurve', 'CashRateCurve') + (('ShortRateCurve',) if p.k == 'b' else ())
    fail = dict(failing=True) if p.chance(.75) else dict()
    late = p.chance(.15)
    if late:   # takes its origin from its first date, an earlier one comes later
        x = sorted(p.dates(4, t))[1:]
        disc = p.curve('ZeroRateCurve', org=None, x=x, y=[p.u(.0, .05) for _ in x], **fail)
        p.add('set', id=disc.id, x=S(t + (x[0] - t) / 2 if p.k == 'f' else p.snap(t)), v='0.015')
    else:
        disc = p.curve(rng.choice(classes), org=t, first=t, n=rng.choice((1, 2, 3)), **fail)
    fwd = p.curve(rng.choice(classes[:2]), org=t, first=t, n=2, **fail)
    cs = [rate_list(p, ref=rng.choice((fwd.id, disc.id)))]
    if p.chance(.5):
        m = model(p, classes=VANILLA[1:2], rates=True, **fail)
        cs.append(option_list(p, m=m) if p.chance(.5) else collar_list(p, m=m))
    if p.chance(.3):
        cs.append(fixed_list(p))
    for c in cs:
        if p.chance(.3):
            one_pay(p, c)
    p.add('legs', id='g', ids=[c.id for c in cs])
    grid = p.dates(rng.choice((1, 2, 3)), t)
    steps = any(e.get('cls') == 'ShortRateCurve' for e in p.ev)

    def act(c):
        vd = rng.choice((None, S(t), S(max(t, p.some(cs[0].x)))))
        w = rng.random()
        dl = rng.choice((None, [fwd.id], [disc.id, fwd.id], [fwd.id, disc.id]))
        kw = {'del': dl} if dl else {}
        if w < .2:
            p.add('pv', id=c, disc=disc.id, vd=vd)
        elif w < .4:
            p.add('bpv', id=c, disc=disc.id, vd=vd, **kw)
        elif w < .6 and not steps:
            if late or p.chance(.3):
                p.add('bucket', id=c, disc=disc.id, vd=vd, **kw)
            else:
                p.add('bucket', id=c, disc=disc.id, vd=vd, grid=[S(d) for d in grid], **kw)
        elif w < .8 and c != 'g' and not steps and cs[[v.id for v in cs].index(c)].cls in ('RateCashFlowList', 'crate'):
            p.add('fair', id=c, disc=disc.id, vd=vd, pv=rng.choice(('0', '0', '500')), prec='0.001', bounds=['-0.5', '0.5'])
        elif w < .9:
            p.add('accr', id=c, vd=S(p.some(cs[0].x)))
        else:
            p.add('pv', id='g', disc=disc.id, vd=vd)

    def look():
        for v in (disc, fwd):
            p.add('isspread', id=v.id, s='none')
            p.add('kw', id=v.id)
            p.add('dom', id=v.id)
            p.add('org', id=v.id)
        for v in cs:
            p.add('cfgets', id=v.id, xs=[S(d) for d in v.x])
            if v.cls in ('RateCashFlowList', 'crate'):
                p.add('getrate', id=v.id)
            if v.cls in ('opt', 'crate') and v.m.id != 'none':
                p.add('mvd', id=v.m.id)
    if p.chance(.3):
        n = rng.choice((1, 2, 3))
        p.t0 = t
        x = p.dates(n + 1, t)[1:]
        z = p.curve('ZeroRateCurve', x=x, y=[p.u(.0, .05) for _ in x], org=t, id='z', **fail)
        for i, d in enumerate(x):
            p.add('cfnew', id='i%d' % i, cls='FixedCashFlowList', x=[S(d)], a=['100'], org=S(t))
        pvs = [S(round(100 * math.exp(-p.u(.01, .05) * p.yf(t, d)), 4)) for d in x]
        kw = dict(ids=['i%d' % i for i in range(n)], disc='z', pv=pvs, prec='0.001')
        if fail:
            p.add('arm', n=rng.randrange(0, 40))
            p.add('fit', **kw)
            p.add('disarm')
            p.add('isspread', id='z', s='none')
            p.add('kw', id='z')
        else:
            p.add('fit', **dict(kw, pv=['5000'] * n)) if False else None
        p.add('fit', **kw)
        p.add('isspread', id='z', s='none')
        p.add('kw', id='z')
    for _ in range(rng.choice((2, 3))):
        c = rng.choice([v.id for v in cs])
        if fail:
            p.add('arm', n=rng.choice((0, 1, 2, 3, rng.randrange(4, 30))))
        n = len(p.ev)
        act(c)
        if fail:
            p.add('disarm')
            last = p.ev[n:-1]
        else:
            last = p.ev[n:]
        look()
        for e in last:
            p.ev.append(dict(e))
    look()
    return p


# --------------------------------------------------------------------- C22
NAMES = ('AAA', 'AA', 'A', 'BBB', 'BB', 'B', 'CCC', 'CC', 'C', 'D')


LONG_NAMES = [a + b for a in ('AAA', 'AA', 'A', 'BBB', 'BB', 'B', 'CCC', 'CC', 'C') for b in '+ -'.split(' ') + ['']] + ['D']


def c22(rng):
    p = Prog(rng, 'f', 'ratings')
    n = rng.choice((2, 3, 4, 6, 10) if rng.random() < .9 else (18, 28))
    names = list((NAMES if n <= len(NAMES) else LONG_NAMES)[:n])
    if p.chance(.5):
        vals = sorted(rng.sample(range(2, 400000), n))
        vals = [round(v * rng.choice((1e-6, 2e-6)), 7) for v in vals[:1]] + [round(v * 2e-6, 7) for v in vals[1:]]
        if p.chance(.5):
            vals[-1] = 1.
        vals = sorted(set(vals))
        names = names[:len(vals)]
        pairs = [[a, S(b)] for a, b in zip(names, vals)]
        if len(pairs) < 2:
            return c22(rng)
        rng.shuffle(pairs)
        p.add('scale', id='m', pairs=pairs)
        vals = sorted(float(b) for _, b in pairs)
    else:
        kw = dict()
        if p.chance(.5):
            kw['first'] = S(rng.choice((.001, .0001, .01, p.u(.0001, .2))))
        if n >= 10 and not kw:
            kw['first'] = '0.0001'
        first = float(kw.get('first', 10. ** -(n - 1)))
        vals = [math.exp(math.log(first) * (1 - i / (n - 1))) for i in range(n)]
        p.add('scale', id='m', names=names, **kw)
    for via in (None, 'items', 'classes'):
        p.add('rscale', id='m', via=via)
    nm = sorted(names, key=names.index)
    for _ in range(6):
        i = rng.randrange(len(vals) - 1)
        w = rng.random()
        if w < .6:
            v = round(vals[i] + (vals[i + 1] - vals[i]) * p.u(.05, .95), 7)
        elif w < .8:
            v = vals[i]
        else:
            v = round(rng.choice((vals[0] / 2, vals[-1] * 1.5)), 7)
        if w < .8 and (min(abs(v * 1e7 % 1 - .5) for _ in (1,)) < .05):
            v = round(v, 7)
        sl = True if w >= .8 and p.chance(.5) else None
        p.add('rvec', ms='m', v=S(v), sloppy=sl, how=rng.choice((None, 'list')))
        if w < .8:
            p.add('rname', ms='m', v=S(v), how=rng.choice((None, 'str')))
        p.add('rval', ms='m', v=S(v))
    ask = dict(name='none') if p.chance(.5) else dict(v=S(p.u(0, 1, 4)))
    p.add('rvec', ms=rng.choice(('m', 'none')) if 'name' in ask else 'none', **ask)
    p.add('rval', ms=rng.choice(('m', 'none')) if 'name' in ask else 'none', **ask)
    p.add('rname', ms='none', **ask)
    for nme in rng.sample(nm, min(3, len(nm))):
        via = rng.choice((None, 'get', 'dict'))
        p.add('rvec', ms='m', name=nme, via=via)
        p.add('rname', ms='m', name=nme, via=via)
        p.add('rval', ms='m', name=nme, via=via)
        p.add('rget', ms='m', name=nme, **{'else': rng.choice((None, '0.5'))})
    p.add('rget', ms='m', name='E', **{'else': rng.choice((None, S(p.u(0, 1))))})
    p.add('rval', ms=rng.choice(('m', 'none')), v='0', short=True)
    if 'first' not in p.ev[0] and 'names' in p.ev[0]:
        p.add('rvec', ms='m', name=rng.choice(nm), via=rng.choice(('gen', 'list')), names=names)
    if p.chance(.3):    # a class moved, or one more
        w = max(range(len(vals) - 1), key=lambda i: vals[i + 1] - vals[i]) if p.chance(.3) else rng.randrange(len(vals) - 1)
        if vals[w + 1] - vals[w] < 1e-6:
            return p
        p.add('rset', id='m', name=rng.choice((nm[0], nm[-1], 'E')), v=S(round(vals[w] + (vals[w + 1] - vals[w]) * .37, 7)))
        p.add('rscale', id='m', via=rng.choice((None, 'items', 'classes')))
        for v in (vals[w], round((vals[w] + 2 * vals[w + 1]) / 3, 7)):
            if vals[0] < v < vals[-1]:
                p.add('rvec', ms='m', v=S(v), sloppy=True)
    return p


# --------------------------------------------------------------------- C23
def c23(rng):
    p = Prog(rng, kinds(rng), 'products')
    s = p.t0
    if p.k == 'f':
        per = rng.choice(('0.25', '0.5', '1', '2'))
        e = s + rng.choice((.25, .5, 1., 1.25, 2., 2.5, 3.75, 5., 7.))
        rper = rng.choice(('0.25', '0.5', '1'))
        if p.chance(.15):   # as by default
            p.t0 = s = 0.
            e, per, rper = 10., '1', '0.25'
    elif p.k == 'd':
        per = rng.choice(('30', '91', '182', '365'))
        e = s + rng.choice((20, 91, 182, 200, 365, 400, 730, 1000))
        rper = rng.choice(('30', '91', '182'))
    else:
        per = rng.choice(('1M', '3M', '6M', '1Y'))
        e = rng.choice((add_months(s, rng.randrange(1, 40)), s + rng.randrange(15, 900)))
        rper = rng.choice(('1M', '3M', '6M'))
        # a first period shrinking to nothing by adjustment would give two payments a day
        while any(0 < min(d for d in rolls(e, t) if d > s) - s < 5 for t in (per, rper)):
            e += 1
    hol, length = None, None
    if p.k == 'b' and p.chance(.4):     # some days off
        near = sorted({d + o for t in (per, rper) for d in rolls(e, t) if d > s + 8 for o in (-1, 0, 1)})
        hol = [S(d) for d in near if p.chance(.2)][:12]
    conv = rng.choice(('no', 'follow', 'previous', 'mod_follow', 'mod_previous')) if p.k == 'b' else 'mod_follow'
    dcs = rng.choice(('none', 'act360', 'act365')) if p.k != 'f' else 'none'
    kw = dict(s=S(s), e=S(e), per=per, conv=conv, dc=None if dcs == 'none' else dcs, **offsets(p, .2))
    if hol:
        kw['hol'] = hol
    ref = reference(p, s - (1000 if p.k != 'f' else 2.)) if p.chance(.6) else 'none'
    if p.chance(.5):
        n = len(coupons(p, s, e, per))
        plan = p.chance(.4)
        low = rng.choice((1, 1, -50))    # a plan may give back
        a = [p.u(low, 50, 2) for _ in range(n)] if plan else [rng.choice((1., p.u(-100, 100, 2), p.u(-100, 100, 2)))]
        if plan and p.chance(.15):   # all paid back is all paid out
            a = [float(round(v)) for v in a]
            a[rng.randrange(n)] -= sum(a)
        if plan and p.chance(.1):
            a = a + [1.]
            p.add('bond', id='w', a=[S(v) for v in a], scalar=False, r=S(p.u(0, .06)), ref=ref, **kw)
            a = a[:-1]
        p.add('bond', id='p', a=[S(v) for v in a], scalar=not plan, r=S(rng.choice((0., p.u(-.01, .06), p.u(-.01, .06)))), ref=ref, **kw)
    else:
        if p.k == 'b' and p.chance(.3):     # the end as time from the start
            kw['len'] = rng.choice(('1Y', '18M', '2Y', '6M'))
            if any(0 < min(d for d in rolls(add_months(s, {'1Y': 12, '18M': 18, '2Y': 24, '6M': 6}[kw['len']]), t) if d > s) - s < 5 for t in (per, rper)):
                del kw['len']
        p.add('swap', id='p', a=[S(rng.choice((1., p.u(-100, 100, 2), p.u(-100, 100, 2))))], r=S(rng.choice((0., p.u(-.01, .06), p.u(-.01, .06)))), ref='none' if p.chance(.7) else ref,
              rper=rper, rdc=rng.choice((None, 'act360', 'act365')) if p.k != 'f' else None, rr=S(rng.choice((0., p.u(0, .01)))),
              rref=ref, **kw)
    p.add('cfdom', id='p')
    p.add('cforg', id='p')
    for i in (0, 1):
        leg = 'p.%d' % i
        p.add('cfdom', id=leg)
        p.add('cforg', id=leg)
        p.add('cftab', id=leg)
    p.add('cfcall', id='k', src='p')
    for _ in range(4):
        p.add('cfget', id='p', x=S(p.some([s, e])))
    p.add('cfget', id='p', x=S(s))
    p.add('cfget', id='p', x=S(e))
    p.add('cftab', id='p')
    d = p.discount(s)
    p.add('pv', id='p', disc=d.id, vd=S(s))
    p.add('accr', id='p', vd=S(p.some([s, e])))
    return p


def rolls(e, per):
    m = {'1M': 1, '3M': 3, '6M': 6, '1Y': 12}[per]
    return [add_months(e, -m * n) for n in range(60)]


def coupons(p, s, e, per):
    """payment dates (only their number matters)"""
    if p.k == 'b':
        m = {'1M': 1, '3M': 3, '6M': 6, '1Y': 12}[per]
        out, n = [], 0
        while add_months(e, -m * n) > s:
            out.append(n)
            n += 1
        return out
    q = float(per)
    out, n = [e], 1
    while s + q < out[-1]:
        out.append(e - q * n)
        n += 1
    return out


# --------------------------------------------------------------------- C24
def c24(rng):
    k = kinds(rng)
    cls = rng.choice(('Curve', 'DateCurve', 'DateCurve', 'DateCurve', 'ForwardCurve') + RATE)
    if cls == 'Curve':
        k = 'f'
    p = Prog(rng, k, 'copies')
    w = rng.random()
    p.unnamed = w >= .45    # descriptions are made of names
    itp = None
    if cls in ('Curve', 'DateCurve'):
        itp = rng.choice((None, 'linear', 'left', 'right', 'linear_scheme', 'loglinear', 'log_linear_scheme', 'zero_linear_scheme', 'constant'))
    x = p.dates(rng.choice((2, 3, 4)))
    y = [p.u(.2, 3) for _ in x] if itp in LOGS else None
    kw = dict(org=None, dc=None, ten=None) if cls == 'Curve' else dict()
    if cls in FACTOR:
        kw['org'] = x[0] - p.gap()
    c = p.curve(cls, x=x, y=y, itp=itp, **kw)
    p.add('kw', id=c.id)
    ids = [c.id]

    def other(t):
        kw = dict()
        if p.chance(.2) and cls != 'Curve' and t == 'DateCurve':
            kw['org'] = S(x[0] - p.gap())
        if p.chance(.2) and cls != 'Curve' and t == 'DateCurve':
            kw['dc'] = 'act360'
        if p.chance(.2):
            kw['itp'] = rng.choice(('linear', 'left', 'constant', 'linear_scheme', 'zero'))
        return kw

    if w < .45:
        p.add('clone', id='q', src=c.id)
        ids.append('q')
        p.add('kw', id='q')
        if cls != 'Curve':
            p.add('org', id='q')
            p.add('dcnt', id='q', s=S(p.some(x)))
        if cls in RATE and p.k == 'b':
            p.add('ten', id='q')
    elif w < .75 and cls not in ('ForwardCurve',):
        t = rng.choice(('Curve', 'DateCurve')) if cls != 'Curve' else 'Curve'
        if cls in RATE and t == 'Curve' and k == 'f' and False:
            t = 'DateCurve'
        via = 'to_curve' if t == 'Curve' and cls != 'Curve' and p.chance(.3) else 'cast' if cls in RATE and p.chance(.3) else None
        p.add('cast', id='q', cls=t, src=c.id, via=via, **(other(t) if via != 'to_curve' else dict()))
        if t == 'DateCurve':
            p.add('kw', id='q')
            p.add('org', id='q')
            p.add('dcnt', id='q', s=S(x[-1]))
        ids.append('q')
    elif cls in ('Curve', 'DateCurve'):
        t = 'Curve' if cls == 'Curve' else rng.choice(('Curve', 'DateCurve'))
        xs = sorted({p.some(x) for _ in range(3)})
        if itp in LOGS or True:
            p.add('copyon', id='q', cls=t, src=c.id, x=[S(d) for d in xs], **other(t))
            ids.append('q')
            if t == 'DateCurve':
                p.add('kw', id='q')
                p.add('org', id='q')
            p.add('dom', id='q')
    for i in ids:
        p.add('dom', id=i)
        if i == 'q' and len(ids) > 1 and p.ev[-1]['op'] == 'dom':
            pass
    if len(ids) > 1:
        copy = [e for e in p.ev if e.get('id') == 'q'][0]
        tcls = copy.get('cls', cls)
        plain = tcls == 'Curve' and cls != 'Curve'
        qs = [p.some(x) if cls != 'ForwardCurve' else p.mid(x[0], x[-1]) for _ in range(4)]
        if not plain:
            p.add('calls', id='q', xs=[S(d) for d in qs])
        else:
            p.add('calls', id='q', xs=[S(p.u(0, 3)) for d in qs])
        p.add('calls', id=c.id, xs=[S(d) for d in qs])
        # updates on either side
        d = rng.choice(x[1:])
        v = any_value(p, c)
        p.add('set', id=c.id, x=S(d), v=S(v))
        if cls != 'Curve' and cls not in FACTOR:
            p.add('fix', id=c.id, x=S(x[0]), v=S(p.u(.1, .9)))
        if not plain:
            p.add('calls', id='q', xs=[S(d) for d in qs])
            dd = rng.choice(x[1:])
            p.add('set', id='q', x=S(dd), v=S(any_value(p, c)))
            if tcls in RATE:
                p.add('new', id='sp', cls='DateCurve', x=[S(x[0])], y=['0.01'])
                p.add('spread', id='q', s='sp')
            p.add('calls', id='q', xs=[S(d) for d in qs])
        else:
            p.add('set', id='q', x='0.75', v=S(p.u(.1, .9)))
        p.add('dom', id='q')
        p.add('calls', id=c.id, xs=[S(d) for d in qs])
        p.add('dom', id=c.id)
    return p


MAKERS = {k.upper(): v for k, v in globals().items() if len(k) == 3 and k[0] == 'c' and k[1:].isdigit()}
COUNT = {'C01': 1200, 'C02': 500, 'C16': 400, 'C12': 400, 'C11': 300, 'C22': 500}
MODEL_LIMIT = {'C06': 2500, 'C14': 2000, 'C17': 800}


def programs(pid, rng, n):
    out = []
    while len(out) < n:
        p = MAKERS[pid](rng)
        if p.ev:
            out.append(p.done())
    return out
