"""Reference model of timeboard: the documented definitions, executed naively.

Nothing here is derived from the code under test.  Every workshift is an entry
of a plain Python list, every query walks that list, and there is no state
besides the table itself, so a model answer cannot depend on history,
interleaving or faults.  pandas is used for one thing only: the boundaries of
calendar periods (trusted base).
"""
import bisect
import math
from datetime import datetime, timedelta

import pandas as pd
from dateutil.easter import easter
from dateutil.relativedelta import relativedelta

NS_S = 1000000000


class MErr(Exception):
    """The documented outcome of the call is an exception of this class."""
    def __init__(self, cls):
        Exception.__init__(self, cls)
        self.cls = cls


# ---------------------------------------------------------------- labels etc.
def norm(x):
    """Bring a value to plain comparable JSON form."""
    if x is None or isinstance(x, (str, bool)):
        return x
    if hasattr(x, 'item') and not isinstance(x, (pd.Timestamp,)):
        try:
            x = x.item()
        except (AttributeError, ValueError):
            pass
    if isinstance(x, bool):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return 'NaN'
        if x == int(x) and abs(x) < 1e15:
            return int(x)
        return float('%.12g' % x)
    if isinstance(x, int):
        return x
    if x is pd.NaT:
        return 'NaT'
    if isinstance(x, pd.Timestamp):
        return x.value
    return 'obj:' + type(x).__name__


# ---------------------------------------------------------------- selectors
def selector_fn(spec):
    k = spec[0]
    if k == 'truthy':
        return lambda x: bool(x)
    if k == 'gt':
        return lambda x, v=spec[1]: (x > v) if not isinstance(x, str) else False
    if k == 'in':
        return lambda x, v=tuple(spec[1]): x in v
    if k == 'eq':
        return lambda x, v=spec[1]: x == v
    if k == 'ne':
        return lambda x, v=spec[1]: x != v
    if k == 'all':
        return lambda x: True
    if k == 'none':
        return lambda x: False
    if k == 'int1':     # truthy, but not a bool
        return lambda x, v=spec[1]: 1 if x == v else 0
    if k == 'tog':      # changes the schedules now and then
        return selector_fn(spec[2])
    if k == 'bad':      # does not know what to do with one of the labels
        return lambda x, v=spec[1]: bad(x, v)
    raise ValueError(spec)


class SelError(Exception):
    pass


def bad(x, v):
    if x == v:
        raise SelError('no duty defined for %r' % (x,))
    return bool(x)


# ---------------------------------------------------------------- time points
def period_of(ns, freq):
    return pd.Period(pd.Timestamp(ns), freq=freq)


def freq_delta(freq):
    """The longest step of a calendar frequency near July 2016 (documented
    search margin for marks lying outside the span)."""
    base = {'W': timedelta(days=7), 'D': timedelta(days=1),
            'H': timedelta(hours=1), 'M': timedelta(days=31),
            'Q': timedelta(days=92), 'A': timedelta(days=366)}
    return int(base[freq].total_seconds()) * NS_S


def to_dt(ns):
    return pd.Timestamp(ns).to_pydatetime()


def to_ns(dt):
    return pd.Timestamp(dt).value


def floor_bu(ns, freq):
    return period_of(ns, freq).start_time.value


def ndow(year, month, weekday, n):
    """n-th `weekday` (1..7) of a month as a date, or None."""
    first = datetime(year, month, 1)
    days = [first + timedelta(days=i) for i in range(31)]
    days = [d for d in days if d.month == month and d.isoweekday() == weekday]
    if n > 0:
        return days[n - 1] if n <= len(days) else None
    return days[n] if -n <= len(days) else None


ORDER = {
    'S': {'S', 'T', 'H', 'D', 'W', 'M', 'Q', 'A'},
    'T': {'T', 'H', 'D', 'W', 'M', 'Q', 'A'},
    'H': {'H', 'D', 'W', 'M', 'Q', 'A'},
    'D': {'D', 'W', 'M', 'Q', 'A'},
    'W': set(), 'M': {'M', 'Q', 'A'}, 'Q': {'Q', 'A'}, 'A': {'A'},
}


def parts(freq):
    """(factor, kind, anchor)"""
    i = 0
    while freq[i].isdigit():
        i += 1
    kind, _, anchor = freq[i:].partition('-')
    return int(freq[:i] or 1), kind, anchor


def subperiod(base, each):
    """May base units be grouped into `each` periods without ambiguity?"""
    if base == each:
        return True
    (n, k, a), (m, j, c) = parts(base), parts(each)
    if (k, a) == (j, c):
        return m % n == 0
    if n > 1:           # different frequencies: documented as not supported
        return False
    if k in ('Q', 'A', 'W') and a:
        return False
    if k == 'Q' and c:
        return False
    return j in ORDER.get(k, set())


class Plan(object):
    """Result of organising a frame.  A label is either ('lab', value) or
    ('rp', k, i): the i-th label drawn by this build from pattern k."""
    def __init__(self, n, default):
        self.labels = [('lab', default)] * n
        self.starts = [True] * n
        self.draws = {}     # k -> number of draws so far
        self.total_draws = None

    def draw(self, k):
        i = self.draws.get(k, 0)
        self.draws[k] = i + 1
        return ('rp', k, i)


class World(object):
    """Specs shared by boards of one scenario: organizers and patterns."""
    def __init__(self, orgs, rps):
        self.orgs = orgs
        self.rps = rps


class MBoard(object):
    def __init__(self, spec, world):
        self.spec = spec
        self.freq = spec['freq']
        pr = pd.period_range(start=pd.Timestamp(spec['start']),
                             end=pd.Timestamp(spec['end']), freq=self.freq)
        if len(pr) == 0:
            raise MErr('VoidIntervalError')
        self.bu_start = [int(v) for v in pr.start_time.asi8]
        self.bu_end = [int(v) for v in pr.end_time.asi8]
        self.n_bu = len(pr)
        self.p0, self.p1 = str(pr[0]), str(pr[-1])
        self.world = world
        self.wsref = spec.get('wsref') or 'start'
        self.wtsrc = spec.get('wtsrc') or 'duration'
        self.defname = spec.get('defname') or 'on_duty'
        self.defsel = spec.get('sel') or ['truthy']
        dl = spec.get('deflabel')
        self.plan = Plan(self.n_bu, float('nan') if dl is None else dl)
        if dl is None:
            self.plan.labels = [('lab', None)] * self.n_bu
        lay = spec['layout']
        if 'pat' in lay:
            self._organize({'marks': [], 'structure': [{'pat': lay['pat']}]},
                           0, self.n_bu - 1)
        else:
            self._organize(world.orgs[lay['org']], 0, self.n_bu - 1)
        self.ws_first = [i for i in range(self.n_bu) if self.plan.starts[i]]
        self.ws_last = [i - 1 for i in self.ws_first[1:]] + [self.n_bu - 1]
        self.n = len(self.ws_first)
        self.start = [self.bu_start[i] for i in self.ws_first]
        self.end = [self.bu_end[i] for i in self.ws_last]
        self.dur = [b - a + 1 for a, b in zip(self.ws_first, self.ws_last)]
        self.ref = self.end if self.wsref == 'end' else self.start
        self.sym = [self.plan.labels[i] for i in self.ws_first]
        self.labels = None
        self._amend = self._locate_amendments(spec.get('amend') or [])
        if not any(s[0] == 'rp' for s in self.sym):
            self.resolve(None)

    # -- building
    def resolve(self, drawn):
        """Fix the labels.  `drawn(k, i)` is the i-th label this build drew
        from pattern k."""
        self.labels = []
        for s in self.sym:
            self.labels.append(s[1] if s[0] == 'lab' else drawn(s[1], s[2]))
        for loc, v in self._amend.items():
            self.labels[loc] = v

    def _locate_amendments(self, items):
        res = {}
        for key, v in items:
            try:
                loc = self.locate(pd.Timestamp(key).value)
            except MErr:
                continue
            if loc in res:
                raise MErr('KeyError')
            res[loc] = v
        return res

    def _organize(self, org, first, last):
        if 'marker' in org and org['marker'] is not None:
            spans = self._marker_spans(org['marker'], first, last)
        else:
            pos = set()
            for m in org['marks']:
                t = pd.Timestamp(m).value
                if self.bu_start[0] <= t <= self.bu_end[-1]:
                    p = bisect.bisect_right(self.bu_start, t) - 1
                    if first < p <= last:
                        pos.add(p)
            spans = self._cut(pos, first, last, 0)
        st = org['structure']
        if isinstance(st, dict):        # a RememberingPattern as the structure
            if not self.world.rps[st['rp']]:
                return
            elems = None
        else:
            elems = st
            if not elems:
                return
        for i, (a, b, skip) in enumerate(spans):
            if elems is None:
                e = {'drawn': self.plan.draw(st['rp'])}
            else:
                e = elems[i % len(elems)]
            if 'org' in e:
                sub = e['org'] if isinstance(e['org'], dict) \
                    else self.world.orgs[e['org']]
                self._organize(sub, a, b)
            elif 'pat' in e or 'rp' in e:
                if skip < 0:
                    raise MErr('OutOfBoundsError')
                if 'pat' in e:
                    pat = e['pat']
                    if not pat:
                        continue
                    for j in range(a, b + 1):
                        self.plan.labels[j] = (
                            'lab', pat[(skip + j - a) % len(pat)])
                else:
                    if not self.world.rps[e['rp']]:
                        continue
                    for _ in range(skip):
                        self.plan.draw(e['rp'])
                    for j in range(a, b + 1):
                        self.plan.labels[j] = self.plan.draw(e['rp'])
            else:
                self.plan.labels[a] = e['drawn'] if 'drawn' in e \
                    else ('lab', e['label'])
                for j in range(a + 1, b + 1):
                    self.plan.starts[j] = False

    def _cut(self, positions, first, last, skip):
        cuts = [first] + sorted(positions)
        ends = [c - 1 for c in cuts[1:]] + [last]
        return [(a, b, skip if i == 0 else 0)
                for i, (a, b) in enumerate(zip(cuts, ends))]

    def _marker_spans(self, mk, first, last):
        each = mk['each']
        if not subperiod(self.freq, each):
            raise MErr('UnacceptablePeriodError')
        s0, s1 = self.bu_start[first], self.bu_end[last]
        at = mk.get('at')
        if not at:
            ps = pd.period_range(pd.Timestamp(s0), pd.Timestamp(s1), freq=each)
            pts = [p.start_time.value for p in ps]
            origin = pts[0]
            undefined = False
        else:
            ps = pd.period_range(pd.Timestamp(s0 - freq_delta(each)),
                                 pd.Timestamp(s1 + freq_delta(each)),
                                 freq=each)
            pts = []
            how = mk.get('how') or 'from_start_of_each'
            for kw in at:
                pts.extend(self._points(how, ps, kw))
            pts.sort()
            before = [t for t in pts if t <= s0]
            if not pts:
                return [(first, last, -1)]
            undefined = not before
            origin = before[-1] if before else None
        if undefined:
            skip = -1
        else:
            skip = max(0, period_of(s0, self.freq).ordinal -
                       period_of(origin, self.freq).ordinal)
        pos = set()
        for t in pts:
            if s0 < t <= s1:
                p = bisect.bisect_right(self.bu_start, t) - 1
                if first < p <= last:
                    pos.add(p)
        return self._cut(pos, first, last, skip)

    def _points(self, how, ps, kw):
        kw = dict(kw)
        res = []
        if how in ('from_start_of_each', 'user'):
            only = kw.pop('only', None)
            off = relativedelta(**kw)
            t0 = datetime(2004, 1, 1)
            if t0 + off < t0:
                return []
            for p in ps:
                if only is not None and p.start_time.month not in only:
                    continue
                t = to_ns(to_dt(p.start_time.value) + off)
                t = floor_bu(t, self.freq)
                if t <= p.end_time.value:
                    res.append(t)
        elif how == 'nth_weekday_of_month':
            shift = kw.get('shift') or 0
            for p in ps:
                s = p.start_time
                m = s.month - 1 + kw['month'] - 1
                y, m = s.year + m // 12, m % 12 + 1
                if to_ns(datetime(y, m, 1)) > p.end_time.value:
                    continue
                d = ndow(y, m, kw['weekday'], kw['week'])
                if d is not None:
                    res.append(to_ns(d + timedelta(days=shift)))
        elif how in ('from_easter_western', 'from_easter_orthodox'):
            typ = 3 if how == 'from_easter_western' else 2
            if kw.get('shift') is not None:
                kw['days'] = kw.pop('shift')
            off = relativedelta(**kw)
            t0 = datetime(2004, 1, 1)
            fut = t0 + off >= t0
            for p in ps:
                e = easter(p.year, typ)
                t = to_ns(datetime(e.year, e.month, e.day) + off)
                t = floor_bu(t, self.freq)
                if fut and t <= p.end_time.value:
                    res.append(t)
                if not fut and t >= p.start_time.value:
                    res.append(t)
        else:
            raise ValueError(how)
        return res

    # -- schedules
    def duty_list(self, sel):
        f = selector_fn(sel)
        return [bool(f(x)) for x in self.labels]

    def idx(self, duty, sel):
        if duty == 'any':
            return list(range(self.n))
        d = self.duty_list(sel)
        if duty == 'on':
            return [i for i in range(self.n) if d[i]]
        if duty == 'off':
            return [i for i in range(self.n) if not d[i]]
        raise MErr('ValueError')

    # -- locating
    def locate(self, t):
        if t < self.bu_start[0] or t > self.bu_end[-1]:
            raise MErr('OutOfBoundsError')
        return bisect.bisect_right(self.start, t) - 1

    def _where(self, t):
        """(position | None, -1 | 0 | 1)"""
        if t < self.bu_start[0]:
            return (None, -1)
        if t > self.bu_end[-1]:
            return (None, 1)
        return (self.locate(t), 0)

    def _ref_after(self, t):
        p, w = self._where(t)
        if p is None:
            return (p, w)
        for i in range(p, self.n):
            if self.ref[i] >= t:
                return (i, 0)
        return (None, 1)

    def _ref_before(self, t):
        p, w = self._where(t)
        if p is None:
            return (p, w)
        for i in range(p, -1, -1):
            if self.ref[i] <= t:
                return (i, 0)
        return (None, -1)

    def ws(self, i, sname):
        return ['ws', self.start[i], self.end[i], self.dur[i],
                norm(self.labels[i]), self.ref[i], sname]

    def ws_compact(self, i):
        d = '' if self.dur[i] == 1 else '%dx' % self.dur[i]
        return "%s'%s' at %s" % (d, self.freq,
                                 period_of(self.start[i], self.freq))

    def ws_repr(self, i, sname):
        s = '' if sname == self.defname else ', ' + sname
        return 'Workshift(%d%s) of %s' % (i, s, self.ws_compact(i))

    def ivl_repr(self, loc, sname):
        s = '' if sname == self.defname else ', ' + sname
        if loc[0] > loc[1]:
            return 'Interval ((%d, %d)%s): void [0]' % (loc[0], loc[1], s)
        return 'Interval((%d, %d)%s): %s -> %s [%d]' % (
            loc[0], loc[1], s, self.ws_compact(loc[0]),
            self.ws_compact(loc[1]), loc[1] - loc[0] + 1)

    def tb_repr(self):
        return "Timeboard of '%s': %s -> %s" % (self.freq, self.p0, self.p1)

    # -- intervals.  Bounds are (position | None, where)
    def interval(self, kind, a=None, b=None, freq=None, length=None,
                 clip=True, closed='11'):
        """kind: 'pts' (a, b ns or None), 'len' (a, length),
        'per' (a ns, freq)."""
        head, tail = closed[0] == '0', closed[1] == '0'
        if kind == 'pts':
            l = (0, 0) if a is None else self._where(a)
            r = (self.n - 1, 0) if b is None else self._where(b)
        elif kind == 'len':
            if length == 0:
                raise MErr('VoidIntervalError')
            l = self._where(a)
            if l[0] is None:
                r = l
            else:
                o = l[0] + length - (1 if length > 0 else -1)
                if o < 0:
                    l, r = (None, -1), l
                elif o >= self.n:
                    r = (None, 1)
                elif o < l[0]:
                    l, r = (o, 0), l
                else:
                    r = (o, 0)
        else:
            p = period_of(a, freq)
            l = self._ref_after(p.start_time.value)
            r = self._ref_before(p.end_time.value)
            if clip:
                cl, cr = l, r
                if l[1] == -1 and r[1] != -1:
                    cl = (0, -1)
                    head = False
                if r[1] == 1 and l[1] != 1:
                    cr = (self.n - 1, 1)
                    tail = False
                l, r = cl, cr
        if head and l[0] is not None:
            l = (l[0] + 1, l[1])
        if tail and r[0] is not None:
            r = (r[0] - 1, r[1])
        if l[1] == 0 and r[1] == 0:
            ok = l[0] <= r[0]
        else:
            ok = l[1] <= r[1]
        if not ok:
            raise MErr('VoidIntervalError')
        if l[0] is None and r[0] is None:
            raise MErr('OutOfBoundsError' if l[1] == r[1]
                       else 'PartialOutOfBoundsError')
        if l[0] is None or r[0] is None:
            raise MErr('PartialOutOfBoundsError')
        for x in (l[0], r[0]):
            if not 0 <= x < self.n:
                raise MErr('OutOfBoundsError')
        if l[0] > r[0]:
            raise MErr('VoidIntervalError')
        return (l[0], r[0])

    def members(self, loc, duty, sel):
        return [i for i in self.idx(duty, sel) if loc[0] <= i <= loc[1]]

    def nth(self, loc, n, duty, sel):
        m = self.members(loc, duty, sel)
        if -len(m) <= n < len(m):
            return m[n]
        raise MErr('OutOfBoundsError')

    def total_duration(self, loc, duty, sel):
        return sum(self.dur[i] for i in self.members(loc, duty, sel))

    def worktime(self, loc, duty, sel):
        m = self.members(loc, duty, sel)
        if self.wtsrc == 'labels':
            if any(isinstance(self.labels[i], str) for i in m):
                raise MErr('TypeError')
            return norm(sum(self.labels[i] for i in m))
        return sum(self.dur[i] for i in m)

    def ws_worktime(self, i, duty, sel):
        d = self.duty_list(sel)[i]
        if duty not in ('on', 'off', 'any'):
            raise MErr('ValueError')
        if duty == 'any' or (duty == 'on') == d:
            if self.wtsrc == 'labels':
                if isinstance(self.labels[i], str):
                    raise MErr('TypeError')
                return norm(self.labels[i])
            return self.dur[i]
        return 0

    def portion(self, loc, other, duty, sel):
        x = (max(loc[0], other[0]), min(loc[1], other[1]))
        if loc[0] > loc[1]:
            return 0
        c = len(self.members(x, duty, sel)) if x[0] <= x[1] else 0
        if c == 0:
            return 0
        return norm(c / float(len(self.members(other, duty, sel))))

    def roll(self, i, steps, duty, sel, back):
        on = self.duty_list(sel)[i]
        if duty == 'same':
            duty = 'on' if on else 'off'
        elif duty == 'alt':
            duty = 'off' if on else 'on'
        lst = self.idx(duty, sel)
        if back:
            c = [k for k in range(len(lst)) if lst[k] <= i]
            if not c:
                raise MErr('OutOfBoundsError')
            k = c[-1] - steps
        else:
            c = [k for k in range(len(lst)) if lst[k] >= i]
            if not c:
                raise MErr('OutOfBoundsError')
            k = c[0] + steps
        if not 0 <= k < len(lst):
            raise MErr('OutOfBoundsError')
        return lst[k]

    def count_periods(self, loc, freq, duty, sel):
        if loc[0] > loc[1]:
            return 0
        if freq not in ('S', 'T', 'min', 'H', 'D', 'W', 'M', 'Q', 'A', 'Y'):
            raise MErr('UnacceptablePeriodError')
        m = self.members(loc, duty, sel)
        if not m:
            return 0
        t0, t1 = self.ref[m[0]], self.ref[m[-1]]
        ps = pd.period_range(pd.Timestamp(self.start[loc[0]]),
                             pd.Timestamp(self.end[loc[1]]), freq=freq)
        counts = []
        for p in ps:
            try:
                pl = self.interval('per', a=p.start_time.value, freq=freq,
                                   clip=False)
            except MErr as e:
                if e.cls == 'OutOfBoundsError':
                    counts.append((p, None))
                    continue
                if e.cls == 'VoidIntervalError':
                    raise MErr('UnacceptablePeriodError')
                raise
            counts.append((p, self.members(pl, duty, sel)))
        total = 0.0
        for p, pm in counts:
            if p.end_time.value < t0 or p.start_time.value > t1:
                continue
            if pm is None:
                raise MErr('?')
            if pm:
                total += len([i for i in pm if i in m_set(m)]) / float(len(pm))
        return norm(total)

    # -- tables
    def df_rows(self, a, b):
        return [[i, self.ref[i], self.start[i], self.dur[i], self.end[i],
                 norm(self.labels[i])] for i in range(a, b + 1)]

    def df_col(self, a, b, sel):
        f = selector_fn(sel)
        return [bool(f(self.labels[i])) for i in range(a, b + 1)]


def m_set(m):
    return set(m)


# ---------------------------------------------------------------- calendars
CAL = {
    'US': ('2000-01-01', '2020-12-31'),
    'UK': ('2000-01-01', '2020-12-31'),
    'RU': ('2005-01-01', '2021-12-31'),
}


def _observed(fixed, how):
    """Weekend holidays move to a weekday that is not yet a holiday."""
    am = dict(fixed)
    for h in sorted(fixed):
        wd = h.weekday()
        if wd < 5:
            continue
        step = 1
        if how == 'nearest' and wd == 5:
            step = -1
        d = h + timedelta(days=step)
        while d.weekday() >= 5 or d in am:
            d += timedelta(days=step)
        am[d] = fixed[h]
    return am


def us_holidays(y0, y1, skip, long_weekends):
    skip = set(skip or ())
    fixed = {'new_year': (1, 1), 'independence': (7, 4), 'veterans': (11, 11),
             'christmas': (12, 25)}
    fl = {'mlk': (1, 1, 3), 'presidents': (2, 1, 3), 'memorial': (5, 1, -1),
          'labor': (9, 1, 1), 'columbus': (10, 1, 2),
          'thanksgiving': (11, 4, 4), 'black_friday': (11, 4, 4, 1)}
    am = {}
    # the observed day of a 1 January may fall into the year before
    for y in range(y0, y1 + 2):
        for k, (m, d) in fixed.items():
            if k not in skip:
                am[datetime(y, m, d)] = 0
    if long_weekends:
        am = _observed(am, 'nearest')
    for y in range(y0, y1 + 1):
        for k, t in fl.items():
            if k not in skip:
                d = ndow(y, t[0], t[1], t[2])
                am[d + timedelta(days=t[3] if len(t) > 3 else 0)] = 0
    if 'one_off' not in skip:
        am[datetime(2018, 12, 5)] = 0
    if 'xmas_additional_day' not in skip:
        am[datetime(2018, 12, 24)] = 0
        am[datetime(2018, 12, 26)] = 0
    return am


def uk_holidays(y0, y1, country, skip, long_weekends):
    skip = set(skip or ())
    fixed = {'new_year': (1, 1), 'new_year2': (1, 2), 'st_patricks': (3, 17),
             'orangemens': (7, 12), 'st_andrews': (11, 30),
             'christmas': (12, 25), 'boxing': (12, 26)}
    fl = {'early_may': (5, 1, 1), 'spring': (5, 1, -1), 'summer': (8, 1, -1)}
    if country == 'england':
        skip |= {'new_year2', 'st_patricks', 'orangemens', 'st_andrews'}
    elif country == 'scotland':
        fl['summer'] = (8, 1, 1)
        skip |= {'st_patricks', 'orangemens', 'easter_monday'}
    elif country == 'northern_ireland':
        skip |= {'new_year2', 'st_andrews'}
    am = {}
    for y in range(y0, y1 + 1):
        for k, (m, d) in fixed.items():
            if k not in skip:
                am[datetime(y, m, d)] = 0
    if long_weekends:
        am = _observed(am, 'next')
    for y in range(y0, y1 + 1):
        for k, t in fl.items():
            if k not in skip:
                am[ndow(y, *t)] = 0
        e = easter(y, 3)
        e = datetime(e.year, e.month, e.day)
        if 'good_friday' not in skip:
            am[e - timedelta(days=2)] = 0
        if 'easter_monday' not in skip:
            am[e + timedelta(days=1)] = 0
    royal = 'royal' not in skip
    if y0 <= 2002 <= y1:
        am.pop(datetime(2002, 5, 27), None)
        if royal:
            am[datetime(2002, 6, 3)] = am[datetime(2002, 6, 4)] = 0
    if y0 <= 2011 <= y1 and royal:
        am[datetime(2011, 4, 29)] = 0
    if y0 <= 2012 <= y1:
        am.pop(datetime(2012, 5, 28), None)
        if royal:
            am[datetime(2012, 6, 4)] = am[datetime(2012, 6, 5)] = 0
    return am


def ru_holidays(y0, y1, dec31, short, table):
    am = {datetime.strptime(k, '%Y-%m-%d'): v for k, v in table.items()}
    am = {k: ((7 if short else 8) if v == 'x' else v) for k, v in am.items()}
    days = [(1, 1), (1, 2), (1, 3), (1, 4), (1, 5), (1, 6), (1, 7), (2, 23),
            (3, 8), (5, 1), (5, 9), (6, 12), (11, 4)]
    if not dec31:
        days.append((12, 31))
    for y in range(y0, y1 + 1):
        for m, d in days:
            am[datetime(y, m, d)] = 0
    return am


def calendar_labels(cc, kw, ru_table, sub={}):
    """(first day, [labels]) or MErr for CC.Weekly8x5(**kw), or for a class
    derived from it with bounds or amendments of its own."""
    lo, hi = [pd.Timestamp(x) for x in (
        (sub['lo'], sub['hi']) if sub.get('lo') else CAL[cc])]
    hi = hi + pd.Timedelta(hours=23, minutes=59, seconds=59)
    start = pd.Timestamp(kw['custom_start']) if kw.get('custom_start') else lo
    end = pd.Timestamp(kw['custom_end']) if kw.get('custom_end') else hi
    for t in (start, end):
        if not lo <= t <= hi:
            raise MErr('OutOfBoundsError')
    d0, d1 = start.normalize().to_pydatetime(), end.normalize().to_pydatetime()
    if d0 > d1:
        raise MErr('VoidIntervalError')
    custom = {pd.Timestamp(k).normalize().to_pydatetime(): v
              for k, v in (kw.get('custom_amendments') or {}).items()}
    if kw.get('do_not_amend'):
        am = {}
    elif kw.get('only_custom_amendments'):
        am = custom
    else:
        y0, y1 = d0.year, d1.year
        if cc == 'US':
            am = us_holidays(y0, y1, kw.get('do_not_observe'),
                             kw.get('long_weekends', True))
        elif cc == 'UK':
            am = uk_holidays(y0, y1, kw.get('country', 'england'),
                             kw.get('do_not_observe'),
                             kw.get('long_weekends', True))
        else:
            am = ru_holidays(y0, y1, kw.get('work_on_dec31', True),
                             kw.get('short_eves', True), ru_table)
        am.update(custom)
        am.update({pd.Timestamp(k).to_pydatetime(): v
                   for k, v in sub.get('am') or []})
    labels = []
    d = d0
    while d <= d1:
        v = 8 if d.weekday() < 5 else 0
        labels.append(am.get(d, v))
        d += timedelta(days=1)
    return d0, labels
