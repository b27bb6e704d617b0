"""Scenario generation: one seed, one scenario.  Swarm style: every run draws
its own sizes, workload mix, preemption style and fault mix."""
import random

import pandas as pd

from .model import MBoard, MErr, World, NS_S, period_of
from .world import BAD
from .kernel import FAULT_KINDS, OTHER

DAY = 86400 * NS_S
SETS = {
    'int': [0, 1, 2, 8, 4, 3], 'bin': [0, 1], 'str': ['A', 'B', 'C', 'D', ''],
    'flt': [0, 0.5, 7.5, 1, 8], 'neg': [-1, 0, 1, 5],
    'mix': [0, 'A', 1, 'B', 8], 'big': [0, 1000, -1, -2, 65536, 5],
    'wrd': [],
}
SETS0 = dict(SETS)
UNIT = {'D': DAY, 'H': DAY // 24, 'W': 7 * DAY, 'M': 30 * DAY,
        'T': 60 * NS_S, 'S': NS_S, 'Q': 91 * DAY, 'A': 365 * DAY,
        '8H': DAY // 3, '12H': DAY // 2, '2D': 2 * DAY, '30T': 1800 * NS_S,
        '3M': 91 * DAY, 'W-WED': 7 * DAY, 'A-JUN': 365 * DAY}
# anchored and multiplied calendar frequencies
EACHES = {'S': ['T', 'T', 'H', '15S', '5T'],
          'T': ['H', 'D', '15T', '2H'],
          'H': ['D', 'D', 'W', 'M', '12H', '8H', '2D', 'W-WED', 'A-JUN'],
          'D': ['W', 'W', 'M', 'M', 'Q', 'A', 'W-WED', 'A-JUN', '2D', '10D',
                '2W', '2M', 'Q-FEB'],
          'W': ['W', '2W', '4W'], 'M': ['Q', 'A', '2M', 'A-JUN', 'Q-FEB'],
          'Q': ['A', '2Q', '4Q'], 'A': ['2A', '5A'],
          '8H': ['24H', '8H', '16H'], '12H': ['24H', '12H', '36H'],
          '2D': ['2D', '4D', '14D'], '30T': ['30T', '60T', '90T'],
          '3M': ['3M', '6M', '12M'], 'W-WED': ['W-WED', '2W-WED'],
          'A-JUN': ['2A-JUN', '3A-JUN']}
PLAIN = {'T', 'H', 'D', 'W', 'M', 'Q', 'A'}
PERIODS = {'D': ['W', 'M', 'M', 'Q', 'A', 'D'], 'H': ['D', 'D', 'W', 'M'],
           'W': ['M', 'Q', 'A'], 'M': ['Q', 'A', 'A'], 'T': ['H', 'H', 'D'],
           'S': ['T', 'T', 'H'], 'Q': ['A', 'Q'], 'A': ['A', 'A-JUN'],
           '8H': ['D', 'D', 'W', 'M'], '12H': ['D', 'W', 'M'],
           '2D': ['W', 'M', 'Q'], '30T': ['H', 'D', 'D'], '3M': ['A', 'Q'],
           'W-WED': ['W', 'W-WED', 'M', 'Q'], 'A-JUN': ['A', 'A-JUN']}
LINE_FAULTS = ['interrupt', 'cancel', 'memory', 'timeout']
CB_FAULTS = ['cb_error', 'cb_value', 'cb_type', 'cb_key', 'cb_index',
             'cb_runtime', 'cb_zero', 'cb_attr', 'cb_oob', 'cb_void',
             'memory', 'interrupt', 'cancel', 'timeout', 'other', 'other']


# how much more often to make operations which reach changed code
BOOST = {}


def tokens(op):
    """What an operation consists of, in terms of choices made here."""
    o = op['op']
    t = ['op:' + o, 'any:' + {
        'add': 'reg', 'drop': 'reg', 'get': 'reg', 'has': 'reg',
        'names': 'reg', 'df': 'table', 'print': 'table', 'build': 'build',
        'series': 'build', 'orphan': 'build', 'churn': 'churn', 'tmp': 'churn', 'cal': 'cal', 'ucal': 'cal',
        'helper': 'helper',
        }.get(o, 'q')]
    if op['op'] in ('ws', 'wsq'):
        t += ['wd:' + d[0] for d in op['do']]
    if op['op'] in ('ivl', 'ivlq'):
        t += ['id:' + d[0] for d in op['do']]
    if op['op'] == 'ivl':
        t.append('iv:' + op['kind'])
    return t


def learn(seen):
    """`seen`: [operation, steps in code aimed at] of a trial run."""
    n, hit = {}, {}
    for op, h in seen:
        # an operation of one part tells most
        for k in tokens(op):
            n[k] = n.get(k, 0) + 1
            hit[k] = hit.get(k, 0) + (h > 0)
    BOOST.clear()
    for k in n:
        if hit[k]:
            BOOST[k] = 1 + 7. * hit[k] / n[k]


# values which changed code mentions: days since 1970, numbers, texts
LITS = {'date': [], 'int': [], 'str': [], 'exc': []}


def aim_at(lits):
    for k in LITS:
        LITS[k] = sorted(x for x in lits[k] if x is not None)[:40]


class Gen(object):
    def __init__(self, prop, seed, i):
        self.r = random.Random('%s/%s/%s' % (prop, seed, i))
        self.prop = prop
        self.sc = {'prop': prop, 'seed': self.r.randrange(2 ** 31), 'i': i,
                   'rps': [], 'orgs': [], 'boards': [], 'scheds': [],
                   'ivls': [], 'wss': [], 'tasks': [], 'post': [],
                   'sched': [], 'faults': [], 'gran': 'l', 'first': 0}
        self.w = World(self.sc['orgs'], self.sc['rps'])
        self.m = {}
        self.hk = {}            # board -> [handle keys]
        self.n_handle = 0
        self.org_freq = {}
        self.sels_used = {}
        self.busy = .02
        self.at_rate = .45
        SETS['wrd'] = ['%s%d' % (self.pick('klmnpqrst'),
                                self.r.randrange(10 ** 6))
                       for _ in range(8)] + ['']
        self.ints, self.day = [], None
        if LITS['int'] and self.p(.4):
            self.ints = [self.pick(LITS['int']) + self.pick([-1, 0, 0, 1])
                         for _ in range(2)]
        if LITS['date'] and self.p(.5):
            self.day = self.pick(LITS['date'])
        if self.ints or (LITS['str'] and self.p(.3)):
            for k in ('int', 'str', 'mix'):
                SETS[k] = SETS0[k] + [x for x in (
                    self.ints if k != 'str' else []) if 0 <= x < 10 ** 5] + (
                    [self.pick(LITS['str'])]
                    if LITS['str'] and k != 'int' else [])
        else:
            SETS.update({k: SETS0[k] for k in ('int', 'str', 'mix')})
        self.boosted = bool(BOOST) and self.r.random() < .6
        # now and then everybody asks for one duty under one schedule
        self.focus = {} if self.p(.4 if self.boosted else .15) else None

    # ------------------------------------------------ helpers
    def bpick(self, prefix, pairs):
        if not self.boosted:
            return self.wpick(pairs)
        return self.wpick([(v, w * BOOST.get(prefix + v, 1))
                           for v, w in pairs])

    def p(self, x):
        return self.r.random() < x

    def pick(self, xs):
        if isinstance(xs, dict):
            xs = sorted(xs)
        return xs[self.r.randrange(len(xs))]

    def wpick(self, pairs):
        t = sum(w for _, w in pairs)
        x = self.r.random() * t
        for v, w in pairs:
            x -= w
            if x < 0:
                return v
        return pairs[-1][0]

    def between(self, a, b):
        return self.r.randint(a, b)

    def logint(self, a, b):
        import math
        return int(round(math.exp(self.r.uniform(math.log(a), math.log(b)))))

    def amount(self, n, top=60):
        """`n`, or now and then a number which changed code mentions."""
        if self.ints and self.p(.3):
            x = self.pick(self.ints)
            if 1 <= x <= top:
                return x
        return n

    # ------------------------------------------------ specs
    def labels(self, fam, n):
        s = SETS[fam]
        return [self.pick(s) for _ in range(n)]

    def selector(self, fam):
        s = SETS[fam]
        if self.sels_used.get(fam) and self.p(.25):
            return self.pick(self.sels_used[fam])
        x = self.new_selector(s)
        self.sels_used.setdefault(fam, []).append(x)
        return x

    def new_selector(self, s):
        k = self.wpick([('truthy', 3), ('gt', 3), ('in', 3), ('eq', 2),
                        ('ne', 2), ('all', .6), ('none', .6), ('int1', .7)])
        if k == 'gt':
            nums = [x for x in s if not isinstance(x, str)] or [0]
            return ['gt', self.pick(nums)]
        if k == 'in':
            return ['in', sorted(set(self.pick(s) for _ in range(
                self.between(1, 3))), key=repr)]
        if k in ('eq', 'ne', 'int1'):
            return [k, self.pick(s)]
        return [k]

    def elem(self, fam, depth, rps):
        k = self.wpick([('pat', 5), ('label', 3), ('org', 1.5 if depth else 0),
                        ('rp', 4 if rps else 0)])
        if k == 'pat':
            e = {'pat': self.labels(fam, self.between(1, 7))}
            x = self.r.random()
            if x < .15:
                e['tuple'] = True
            elif x < .3:
                e['user'] = True        # the caller's own iterable
            return e
        if k == 'rp':
            return {'rp': self.pick(rps)}
        if k == 'label':
            return {'label': self.pick(SETS[fam])}
        return {'org': self.org(fam, self._freq, self._span, depth - 1, rps)}

    def org(self, fam, freq, span, depth=1, rps=()):
        """Append an organizer and return its index."""
        self._freq, self._span = freq, span
        o = {}
        many = self.at_rate > .8
        if self.p(.9 if many else .7):
            each = self.pick([e for e in EACHES[freq] if many and e in PLAIN
                              and e != freq] or EACHES[freq])
            mk = {'each': each}
            if each in PLAIN and freq in ('T', 'H', 'D', 'W', 'M') and \
                    (each != freq or freq == 'W') and self.p(self.at_rate):
                how, at = self.at_list(each, freq)
                if at:
                    mk['at'], mk['how'] = at, how
            elif self.p(.5):
                mk['plain'] = True
            o['marker'] = mk
            like = [i for i, x in enumerate(self.sc['orgs'])
                    if x.get('marker') and self.org_freq[i] == freq]
            if like and self.prop in ('C01', 'C07', 'C08') and self.p(.3):
                # the very marker of another organizer
                o['mk_of'] = self.pick(like)
                o['marker'] = _copy(self.sc['orgs'][o['mk_of']]['marker'])
        else:
            a, z = span
            n = self.between(0, 5)
            o['marks'] = sorted(set(
                self.r.randrange(a - (z - a) // 10, z + (z - a) // 10 + 1)
                // (3600 * NS_S) * 3600 * NS_S for _ in range(n)))
            if self.p(.4):              # in any order, and repeated
                self.r.shuffle(o['marks'])
                if o['marks'] and self.p(.3):
                    o['marks'].append(self.pick(o['marks']))
            o['mkinds'] = [self.pick(['str', 'ts', 'dt', 'obj'])
                           for _ in o['marks']]
        if rps and self.p(.2):
            o['structure'] = {'rp': self.pick(list(rps))}
        else:
            o['structure'] = [self.elem(fam, depth, list(rps))
                              for _ in range(self.between(1, 3))]
            like = [i for i, x in enumerate(self.sc['orgs'])
                    if self.org_freq[i] == freq and x.get('fam') == fam and
                    isinstance(x['structure'], list) and
                    not any('org' in e for e in x['structure'])]
            if like and self.prop in ('C01', 'C07', 'C08') and self.p(.15):
                o['st_of'] = self.pick(like)
                o['structure'] = _copy(
                    self.sc['orgs'][o['st_of']]['structure'])
        o['fam'] = fam
        self.org_freq[len(self.sc['orgs'])] = freq
        self.sc['orgs'].append(o)
        return len(self.sc['orgs']) - 1

    def at_list(self, each, freq):
        how = self.wpick([('from_start_of_each', 6), ('user', 3),
                          ('nth_weekday_of_month',
                           (8 if self.at_rate > .8 else 3)
                           if each in ('M', 'Q', 'A') and
                           freq in ('D', 'H') else 0),
                          ('from_easter_western',
                           (4 if self.at_rate > .8 else 1.5)
                           if each == 'A' and freq == 'D' else 0),
                          ('from_easter_orthodox',
                           (3 if self.at_rate > .8 else 1)
                           if each == 'A' and freq == 'D' else 0)])
        n = self.between(1, 3)
        at = []
        for _ in range(n):
            if how == 'nth_weekday_of_month':
                d = {'month': self.between(1, {'M': 1, 'Q': 3, 'A': 12}[each]),
                     'weekday': self.between(1, 7),
                     'week': self.pick([1, 2, 3, 4, -1, -2, 5, -5] +
                                       [5, -5] * (4 * (self.at_rate > .8)))}
                if self.p(.3):
                    d['shift'] = self.between(-3, 3)
            elif how.startswith('from_easter'):
                d = {'shift': self.between(-30, 30)} if self.p(.4) else \
                    {'days': self.between(-40, 40)}
            else:
                unit = {'H': ['minutes'], 'D': ['hours'],
                        'W': ['days', 'days', 'hours'],
                        'M': ['days', 'days', 'weeks'],
                        'Q': ['days', 'weeks', 'months'],
                        'A': ['months', 'days', 'weeks']}[each]
                u = self.pick(unit)
                top = {'minutes': 59, 'hours': 23 if each == 'D' else 150,
                       'days': {'W': 6, 'M': 30, 'Q': 80}.get(each, 360),
                       'weeks': {'M': 4, 'Q': 12}.get(each, 50),
                       'months': {'Q': 2}.get(each, 11)}[u]
                d = {u: self.between(0, top)}
                if u == 'months' and self.p(.5):
                    d['days'] = self.between(0, 27)
                if self.p(.15):         # counted from the end
                    d = {'H': {'hours': 1, 'minutes': -self.between(1, 59)},
                         'D': {'days': 1, 'hours': -self.between(1, 23)},
                         'W': {'weeks': 1, 'days': -self.between(1, 6)},
                         'M': {'months': 1, 'days': -self.between(1, 31)},
                         'Q': {'months': 3, 'days': -self.between(1, 80)},
                         'A': {'years': 1, 'days': -self.between(1, 300)}
                         }[each]
                elif self.p(.45 if self.at_rate > .8 else .12) and \
                        each in ('M', 'Q', 'A'):
                    # not in every period there is such a day
                    d = {'days': {'M': 30, 'Q': 91, 'A': 365}[each]}
                elif self.p(.06) and each in ('M', 'Q', 'A'):
                    d = {'day': self.between(1, 28)}
            if how == 'user' and each in ('D', 'W', 'M', 'Q') and \
                    self.p(.4):         # at some seasons only
                m = self.between(1, 12)
                d['only'] = sorted(set((m + k) % 12 + 1 for k in range(
                    self.between(1, 6))))
            at.append(d)
        return how, at

    def board(self, size=None, rps=(), orgs=None, errors=False, small=False):
        """A board spec (checked against the model)."""
        for attempt in range(40):
            freq = self.wpick([('D', 7), ('H', 1.3), ('W', .9), ('M', .9),
                                   ('T', .5), ('S', .25), ('Q', .25), ('A', .25),
                               ('8H', .4), ('12H', .25), ('2D', .25),
                               ('30T', .15), ('3M', .1), ('W-WED', .15),
                               ('A-JUN', .1)])
            unit = UNIT[freq]
            n = size or self.wpick([(self.between(1, 6), 1.2),
                                    (self.between(7, 40), 6),
                                    (self.between(41, 110), 2.5),
                                    (self.between(300, 500),
                                     0 if small else .25)])
            n = self.amount(n, 500)
            day0 = self.between(10960, 18600)       # 2000 .. 2020
            if self.p(.04):
                day0 = self.between(-80000, 80000)  # 1751 .. 2189
            if self.day is not None and self.p(.7):
                day0 = self.day - self.between(-2, min(
                    3 + n * unit // DAY, 400))
            a = day0 * DAY
            if freq in ('H', 'T', 'S', '8H', '12H', '30T') and self.p(.6):
                a += self.between(0, 23) * DAY // 24
            if freq in ('S', '30T') and self.p(.5):
                a += self.between(0, 3599) * NS_S
            if unit > 90 * DAY:
                n = min(n, 80)
            while a + (n + 3) * unit > 90000 * DAY:     # 2216
                a -= 30000 * DAY
            while a < -90000 * DAY:                     # 1723
                a += 30000 * DAY
            z = a + (n - 1) * unit
            fam = self.wpick([('int', 4), ('bin', 3), ('str', 2), ('flt', 1),
                              ('neg', 1), ('mix', .6), ('big', .7), ('wrd', 1)])
            spec = {'freq': freq, 'start': a, 'end': z, 'fam': fam}
            keep = len(self.sc['orgs'])
            if orgs and self.p(.85):
                spec['layout'] = {'org': self.pick(orgs)}
            elif self.p(.35) and not rps:
                spec['layout'] = {'pat': self.labels(fam, self.between(1, 8))}
                if self.p(.12):
                    spec['layout']['user'] = True
            else:
                spec['layout'] = {'org': self.org(
                    fam, freq, (a, z), self.wpick([(0, 4), (1, 3), (2, .5)]),
                    rps)}
            if self.p(.4):
                am = {}
                for _ in range(self.between(1, 4)):
                    t = self.r.randrange(a - 2 * unit, z + 3 * unit)
                    am[t // (60 * NS_S) * 60 * NS_S] = self.pick(SETS[fam])
                spec['amend'] = [[k, v] for k, v in sorted(am.items())]
                spec['akinds'] = [self.pick(['str', 'ts', 'dt', 'obj'])]
                if self.p(.3):
                    spec['amap'] = True
            if self.p(.45):
                spec['sel'] = self.selector(fam)
            if self.p(.2):
                spec['defname'] = self.pick(['main', 'std', 'base'])
            if self.p(.35):
                spec['wsref'] = self.pick(['start', 'end', 'end'])
            if self.p(.3):
                spec['deflabel'] = self.pick(SETS[fam])
            if self.p(.3 if fam in ('int', 'flt', 'bin', 'neg', 'big')
                      else .06):
                spec['wtsrc'] = 'labels'
            spec['pkind'] = self.pick(['str', 'ts', 'dt', 'str'])
            try:
                m = MBoard(spec, self.w)
            except MErr:
                if errors and self.p(.5):
                    return spec, None
                del self.sc['orgs'][keep:]
                continue
            return spec, m
        raise RuntimeError('no board')

    def add_board(self, **kw):
        spec, m = self.board(**kw)
        if m is None:
            return self.add_board(**kw)
        self.sc['boards'].append(spec)
        key = 'b%d' % (len(self.sc['boards']) - 1)
        self.m[key] = m
        self.hk[key] = []
        return key

    def add_sched(self, b, name=None, sel=None):
        key = 's%d' % len(self.sc['scheds'])
        name = name or 'sch%d' % len(self.sc['scheds'])
        sel = sel or self.selector(self.m[b].spec['fam'])
        self.sc['scheds'].append([key, b, name, sel])
        self.hk[b].append(key)
        return key

    # ------------------------------------------------ queries
    def sk(self, b, q=.45):
        if self.focus is not None and self.p(.8):
            if b not in self.focus or (self.focus[b] is not None and
                                       self.focus[b] not in self.hk[b]):
                self.focus[b] = self.pick(self.hk[b]) \
                    if self.hk[b] and self.p(.5) else None
            return self.focus[b]
        return self.pick(self.hk[b]) if self.hk[b] and self.p(q) else None

    def time(self, b, oob=.05):
        m = self.m[b]
        if self.p(oob):
            d = self.between(1, 40) * 3600 * NS_S
            return m.bu_start[0] - d if self.p(.5) else m.bu_end[-1] + 1 + d
        i = self.between(0, m.n - 1)
        if self.p(.3):
            t = m.start[i]
        elif self.p(.15):
            t = (m.end[i] + 1) // NS_S * NS_S - NS_S
        else:
            t = self.r.randrange(m.start[i], m.end[i] + 1)
        return t // NS_S * NS_S

    def kind(self, obj=.12):
        return self.wpick([('str', 4), ('ts', 3), ('dt', 1.5),
                           ('obj', obj * 10)])

    def duty(self, roll=False):
        if self.focus is not None and self.p(.8):
            if 'duty' not in self.focus:
                self.focus['duty'] = self.pick(['on', 'on', 'off', 'any'])
            return self.focus['duty']
        return self.wpick([('on', 4), ('off', 3), ('any', 2.5), (None, 1),
                           ('same', 1.5 if roll else 0),
                           ('alt', 1.5 if roll else 0), ('odd', .12)])

    def ws_do(self, b):
        m = self.bpick('wd:', [('read', 2), ('duty', 1.5), ('rf', 4), ('rb', 3),
                        ('add', 1), ('sub', 1), ('wt', 1.5), ('repr', .7)])
        if m == 'duty':
            return [m, self.sk(b)]
        if m in ('rf', 'rb'):
            return [m, self.wpick([(0, 2), (self.amount(self.between(1, 9)), 5),
                                   (self.between(-4, -1), 1.5)]),
                    self.duty(True), self.sk(b)]
        if m in ('add', 'sub'):
            return [m, self.between(-2, 6)]
        if m == 'wt':
            return [m, self.duty(), self.sk(b)]
        return [m]

    def ws_op(self, b, obj=.12):
        m = self.m[b]
        op = {'op': 'ws', 'b': b,
              'via': self.wpick([('get', 4), ('call', 3), ('ctor', 1)])}
        if op['via'] == 'ctor':
            op['pos'] = self.between(0, m.n - 1)
        else:
            op['k'] = self.kind(obj)
            op['at'] = self.time(b)
            if self.sc['wss'] and self.p(.08):
                op['k'] = 'ws'
                op['w'] = 'w%d' % self.between(0, len(self.sc['wss']) - 1)
            elif self.p(.06):
                op['k'] = 'per:' + m.freq
        op['s'] = self.sk(b, .35)
        op['do'] = [self.ws_do(b) for _ in range(self.wpick(
            [(1, 4), (2, 3), (3, 1)]))]
        return op

    def posrange(self, b):
        n = self.m[b].n
        a, z = self.between(0, n - 1), self.between(0, n - 1)
        if a > z and self.p(.95):
            a, z = z, a
        return [a, z]

    def other(self, b):
        """The other interval: a shared one (the same object every time) or
        the ends of one made for the purpose."""
        own = [i for i, x in enumerate(self.sc['ivls']) if x['b'] == b]
        if own and self.p(.4):
            return 'i%d' % self.pick(own)
        return self.posrange(b)

    def ivl_spec(self, b, obj=.12, heavy=True):
        m = self.m[b]
        kind = self.bpick('iv:', [('pts', 4), ('len', 2), ('per', 3), ('pp', 1),
                           ('all', 1), ('pos', 1.5)])
        op = {'b': b, 'kind': kind}
        if kind == 'pos':
            op['a'], op['z'] = self.posrange(b)
            op['s'] = self.sk(b, .35)
            if self.prop == 'C10' and self.p(.6):
                op['lst'] = True
            if self.p(.25):
                op['wb'] = True
            elif self.p(.03):
                op[self.pick('az')] = self.pick([-1, m.n, m.n + 3])
            return op
        op['via'] = self.pick(['get', 'call'])
        op['k'] = self.kind(obj)
        if kind == 'pts':
            a, z = self.time(b, .03), self.time(b, .03)
            if a > z and self.p(.95):
                a, z = z, a
            op['a'], op['z'] = a, z
            if self.p(.08):
                op[self.pick(['a', 'z'])] = None
        elif kind == 'len':
            op['a'] = self.time(b, .03)
            op['n'] = self.wpick([(self.between(1, max(1, m.n // 2)), 6),
                                  (self.between(-6, -1), 1.5), (0, .1)])
        elif kind in ('per', 'pp'):
            op['a'] = self.time(b, .03)
            op['f'] = self.period_freq(m)
            if self.p(.3):
                op['clip'] = self.p(.5)
        if self.p(.2):
            op['closed'] = self.pick(['11', '01', '10', '00'])
        op['s'] = self.sk(b, .35)
        return op

    def period_freq(self, m):
        if self.p(.04):
            return self.pick(['H', 'D', 'W', 'M', 'Q', 'A', 'W-WED', 'A-JUN',
                              'Q-FEB', '2D', '3M', '36H'])
        return self.pick(PERIODS[m.freq])

    def ivl_do(self, b, it=1.0):
        m = self.m[b]
        k = self.bpick('id:', [('read', 1), ('count', 3), ('dur', 2), ('wt', 2),
                        ('nth', 2), ('first', 1), ('last', 1),
                        ('list', 2 * it), ('iter', 1.5 * it),
                        ('nest', .7 * it), ('zip', .5 * it),
                        ('pairs', .4 * it),
                        ('cp', .8 if m.n < 150 else .1), ('ov', 1.5),
                        ('mul', .7), ('por', 1), ('div', .5), ('len', .3),
                        ('ovd', .6)])
        if k in ('count', 'dur', 'wt', 'first', 'last', 'list'):
            return [k, self.duty(), self.sk(b)]
        if k == 'nth':
            return [k, self.between(-5, 8), self.duty(), self.sk(b)]
        if k == 'nest':
            return [k, self.between(1, 2)]
        if k == 'cp':
            return [k, self.period_freq(m), self.duty(), self.sk(b)]
        if k in ('ov',):
            return [k, self.other(b), self.sk(b)]
        if k in ('mul', 'div'):
            return [k, self.other(b)]
        if k == 'ovd':          # what the overlap itself answers
            do = []
            while len(do) < 2:
                d = self.ivl_do(b, it)
                if d[0] != 'ovd' and 'odd' not in d:
                    do.append(d)
            return [k, self.other(b), self.sk(b), do]
        if k == 'por':
            return [k, self.other(b), self.duty(), self.sk(b)]
        return [k]

    def ivl_op(self, b, obj=.12, it=1.0):
        op = self.ivl_spec(b, obj)
        op['op'] = 'ivl'
        op['do'] = [self.ivl_do(b, it) for _ in range(self.wpick(
            [(1, 4), (2, 3), (3, 1)]))]
        return op

    def shared(self, b, n_ivl=2, n_ws=2):
        for _ in range(n_ivl):
            self.sc['ivls'].append(self.ivl_spec(b, 0))
        for _ in range(n_ws):
            w = self.ws_op(b, 0)
            if w.get('k') == 'ws':
                w['k'] = 'ts'
            del w['do'], w['op']
            self.sc['wss'].append(w)

    def q_op(self, b, obj=.12, it=1.0):
        """Any query."""
        k = self.bpick('op:', [('ws', 4), ('ivl', 4),
                        ('wsq', 2 if self.sc['wss'] else 0),
                        ('ivlq', 3 if self.sc['ivls'] else 0),
                        ('idx', .4 if self.hk[b] else 0),
                        ('isd', .4 if self.hk[b] else 0), ('defsch', .2),
                        ('df', .25), ('board', .1), ('bad', .3)])
        return self.q_kind(k, b, obj, it)

    def q_kind(self, k, b, obj=.12, it=1.0):
        if k == 'ws':
            return self.ws_op(b, obj)
        if k == 'ivl':
            return self.ivl_op(b, obj, it)
        if k == 'wsq':
            i = self.between(0, len(self.sc['wss']) - 1)
            bb = self.sc['wss'][i]['b']
            return {'op': 'wsq', 'w': 'w%d' % i, 'b': bb,
                    'do': [self.ws_do(bb) for _ in range(self.between(1, 2))]}
        if k == 'ivlq':
            i = self.between(0, len(self.sc['ivls']) - 1)
            bb = self.sc['ivls'][i]['b']
            return {'op': 'ivlq', 'i': 'i%d' % i, 'b': bb,
                    'do': [self.ivl_do(bb, it)
                           for _ in range(self.between(1, 2))]}
        if k == 'idx':
            return {'op': 'idx', 'h': self.pick(self.hk[b])}
        if k == 'isd':
            return {'op': 'isd', 'h': self.pick(self.hk[b]),
                    'pos': self.between(0, self.m[b].n - 1)}
        if k == 'defsch':
            return {'op': 'defsch', 'b': b}
        if k == 'df':
            return self.df_op(b)
        if k == 'bad':
            a, z = sorted(self.posrange(b))
            return {'op': 'bad', 'b': b, 'a': a, 'z': z, 's': self.sk(b),
                    'pos': self.between(0, self.m[b].n - 1),
                    'at': self.time(b),
                    'what': [self.pick(BAD)
                             for _ in range(self.between(1, 3))]}
        return {'op': 'board', 'b': b}

    def df_op(self, b):
        op = {'op': 'df', 'b': b, 'via': self.pick(['tb', 'tb', 'ivl'])}
        own = [i for i, x in enumerate(self.sc['ivls']) if x['b'] == b]
        if own and self.p(.15):
            op['via'] = 'iv'
            op['i'] = 'i%d' % self.pick(own)
            return op
        if self.p(.5):
            a, z = self.posrange(b)
            op['a'], op['z'] = min(a, z), max(a, z)
        if op['via'] == 'ivl':
            op['s'] = self.sk(b, .3)
        return op

    def same_kind(self, op, b, obj=.12, it=1.0):
        """Another operation of the same sort with other arguments."""
        k = op['op']
        if k in ('ws', 'ivl', 'wsq', 'ivlq', 'idx', 'isd'):
            new = self.q_kind(k, b, obj, it)
        else:
            return self.q_op(b, obj, it)
        if 'do' in op and 'do' in new and self.p(.7):
            # same methods, fresh arguments
            for _ in range(30):
                d = self.ws_do(new['b']) if k in ('ws', 'wsq') \
                    else self.ivl_do(new['b'], it)
                if d[0] == op['do'][0][0]:
                    new['do'] = [d]
                    break
            else:
                if new['b'] == op['b']:
                    new['do'] = [list(op['do'][0])]
        if 'i' in op and self.p(.6):
            if new['b'] != op['b']:
                new['do'] = [list(d) for d in op['do']]
            new['i'], new['b'] = op['i'], op['b']
        return new

    def query_tasks(self, b, n_tasks, n_ops, obj=.12, it=1.0, boards=None):
        """Hot-spot style: usually everybody does the same sort of thing."""
        style = self.wpick([('mixed', 3), ('hot', 5), ('twin', 2)])
        tasks = []
        proto = [self.q_op(b, obj, it) for _ in range(n_ops)]
        for t in range(n_tasks):
            ops = []
            for j in range(n_ops):
                bb = self.pick(boards) if boards and self.p(.3) else b
                if style == 'mixed' or bb != b:
                    ops.append(self.q_op(bb, obj, it))
                elif style == 'hot':
                    ops.append(self.same_kind(proto[j % max(
                        1, n_ops // 2)], b, obj, it))
                else:
                    ops.append(_copy(proto[j]) if self.p(.5)
                               else self.same_kind(proto[j], b, obj, it))
            tasks.append(ops)
        return tasks

    # ------------------------------------------------ schedule and faults
    def schedule(self, serial=.06):
        sc = self.sc
        n = len(sc['tasks'])
        sc['first'] = self.r.randrange(max(1, n))
        if self.p(.12):
            sc['gran'] = 'i'
        if n < 2 or self.p(serial):
            return
        scale = self.wpick([(4, 2), (15, 3), (60, 3), (250, 2)])
        if sc['gran'] == 'i':
            scale *= 6
        kinds = self.wpick([(['l'], 4), (['l', 'w'], 1.5), (['w', 'W'], 2),
                            (['l', 'c'], 1.5), (['c'], .7), (['h'], 1.7),
                            (['x', 'X'], 1.7), (['h', 'l'], 1)] if
                           not self.boosted else
                           [(['l'], 2.5), (['l', 'w'], 1), (['w', 'W'], 1),
                            (['l', 'c'], 1), (['c'], .5), (['h'], 2.2),
                            (['x', 'X'], 3.5), (['h', 'l'], 1)])
        m = self.logint(3, 60)
        top = {'l': scale * 2, 'h': scale, 'x': 6, 'X': 6}
        for _ in range(m):
            k = self.pick(kinds)
            q = self.logint(1, top.get(k, 12))
            sc['sched'].append([k, q, self.r.randrange(8)])

    def est(self, op):
        """A rough number of steps the operation takes."""
        o = op['op']
        e = {'ws': 90, 'ivl': 150, 'wsq': 60, 'ivlq': 120, 'add': 24,
             'drop': 5, 'df': 330, 'print': 330, 'build': 900, 'cal': 2500, 'ucal': 1000, 'series': 3000, 'orphan': 800,
             'board': 900, 'bad': 200, 'it_next': 30, 'it_new': 3, 'idx': 15,
             'calam': 800, 'churn': 250, 'tmp': 120,
             'helper': 120}.get(o, 40)
        if 'do' in op:
            for d in op['do']:
                e += {'iter': 250, 'nest': 500, 'zip': 400, 'pairs': 400,
                      'list': 200, 'cp': 1200}.get(d[0], 40)
        return e

    def fault(self, t, j, where=None, kinds=None):
        op = self.sc['tasks'][t][j]
        where = where or self.wpick([('l', 5), ('w', 1.5), ('c', 2.5)])
        if where != 'c' and self.p(.7 if self.boosted else .3):
            where = self.pick(['h', 'x'])
        if where == 'c':
            kind = self.pick(kinds or CB_FAULTS)
            if kind == 'other':
                kind = 'x:' + self.pick(OTHER)
            if LITS['exc'] and self.p(.35):
                kind = 'x:' + self.pick(LITS['exc'])
            n = self.logint(1, 30)
        else:
            kind = self.pick(kinds or LINE_FAULTS)
            if not kinds and LITS['exc'] and self.p(.5):
                kind = self.pick([k for k in LINE_FAULTS if type(
                    FAULT_KINDS[k]()).__name__ in LITS['exc']] or [kind])
            top = max(2, self.est(op))
            if self.sc['gran'] == 'i':
                top *= 8
            n = self.logint(1, {'l': top, 'h': min(top, 60)}.get(where, 12))
            if where == 'l' and self.p(.5):
                n = self.between(1, top)
        self.sc['faults'].append([t, j, where, n, kind])

    def env_ops(self):
        r = self.wpick([('clock', 5), ('tz', 3), ('gc', 1), ('rng', 1),
                        ('gcmode', .7), ('misc', .7)])
        if r == 'misc':
            k = self.pick(['week', 'environ', 'cwd', 'thread',
                           'display', 'npprint'])
            return {'op': 'env', 'what': 'misc', 'k': k,
                    'v': self.between(0, 6)}
        if r == 'clock':
            v = self.pick([0, 946684799, 1483228800 - 1, 1514764799,
                           1709164800, 2147483646, 4102444799, 1500000000,
                           4294967296, 7258118400,
                           self.between(0, 4000000000),
                           self.between(0, 8000000000)])
            return {'op': 'env', 'what': 'clock', 'v': v * NS_S +
                    self.between(0, 999999999)}
        if r == 'tz':
            return {'op': 'env', 'what': 'tz', 'v': self.pick(
                ['UTC', 'America/New_York', 'Asia/Kolkata', 'XYZ-14',
                 'ABC+12', 'Europe/London', 'Pacific/Apia'])}
        if r == 'rng':
            return {'op': 'env', 'what': 'rng', 'v': self.between(0, 10 ** 6)}
        if r == 'gcmode':
            return {'op': 'env', 'what': 'gcmode',
                    'v': self.pick([0, 1, 5, 50])}
        return {'op': 'env', 'what': 'gc'}

    def final_reads(self, boards, n=3):
        for b in boards:
            self.sc['post'].append({'op': 'board', 'b': b})
            self.sc['post'].append({'op': 'names', 'b': b})
            self.sc['post'].append({'op': 'df', 'b': b, 'via': 'tb'})
            for _ in range(n):
                self.sc['post'].append(self.q_op(b, 0))


def _copy(x):
    import copy
    return copy.deepcopy(x)
