"""Judges a recorded history against the reference model."""
import itertools

import pandas as pd

from .model import (MBoard, MErr, World as MWorld, norm, calendar_labels,
                    period_of, selector_fn, us_holidays, uk_holidays,
                    ru_holidays, CAL, ndow, NS_S, _observed)
from .world import BAD
from datetime import datetime, timedelta
from dateutil.easter import easter


class SkipOp(Exception):
    pass


class Unknown(Exception):
    """The model has no opinion."""


def handle_table(sc):
    """handle key -> (board key, schedule name, selector)"""
    tab = {}
    for key, b, name, sel in sc.get('scheds') or []:
        tab[key] = (b, name, sel)

    def walk(op):
        if op['op'] == 'add' and op.get('as'):
            tab[op['as']] = (op['b'], op['name'], op['sel'])
        for e in op.get('re') or []:
            walk(e[1])
    for ops in sc['tasks'] + [sc.get('post') or []]:
        for op in ops:
            walk(op)
    return tab


class Oracle(object):
    def __init__(self, sc, ru_table):
        self.sc = sc
        self.ru = ru_table
        self.mw = MWorld(sc.get('orgs') or [], sc.get('rps') or [])
        self.boards = {}
        self.berr = {}
        self.drawn = {}         # board key -> drawn(k, i) for resolve
        for i, spec in enumerate(sc.get('boards') or []):
            self.make('b%d' % i, spec)
        self.handles = handle_table(sc)

    def make(self, key, spec):
        try:
            self.boards[key] = MBoard(spec, self.mw)
        except MErr as e:
            self.berr[key] = e.cls

    def board(self, key):
        if key in self.berr:
            raise SkipOp()
        if key not in self.boards:
            raise SkipOp()
        b = self.boards[key]
        if b.labels is None:
            raise Unknown()
        return b

    def sch(self, key, b, dflt):
        """(name, selector) of a call's schedule."""
        if key is None:
            return dflt if dflt is not None else (b.defname, b.defsel)
        if key not in self.handles:
            raise SkipOp()
        h = self.handles[key]
        return (h[1], h[2])

    # ------------------------------------------------ locating
    def ws_of(self, op):
        b = self.board(op['b'])
        if op.get('via') == 'ctor':
            s = self.sch(op.get('s'), b, None)
            if not 0 <= op['pos'] < b.n:
                raise MErr('OutOfBoundsError')
            return b, op['pos'], s
        s = self.sch(op.get('s'), b, None)
        if op.get('k') == 'ws':
            i = int(op['w'][1:])
            spec = (self.sc.get('wss') or [])[i]
            try:
                b2, pos, _ = self.ws_of(spec)
            except MErr:
                raise SkipOp()
            at = b2.ref[pos]
        else:
            at = self.at(op['at'], op.get('k'))
        return b, b.locate(at), s

    def at(self, ns, k):
        if k and k.startswith('per:'):
            return period_of(ns, k[4:]).start_time.value
        return ns

    def ivl_of(self, op):
        b = self.board(op['b'])
        s = self.sch(op.get('s'), b, None)
        kind = op['kind']
        if kind == 'pos':
            for x in (op['a'], op['z']):
                if not 0 <= x < b.n:
                    raise MErr('OutOfBoundsError')
            if op['a'] > op['z']:
                raise MErr('VoidIntervalError')
            return b, (op['a'], op['z']), s
        closed = op.get('closed') or '11'
        k = op.get('k')
        if kind == 'all':
            return b, b.interval('pts', None, None, closed=closed), s
        if kind == 'pts':
            a = None if op['a'] is None else self.at(op['a'], k)
            z = None if op['z'] is None else self.at(op['z'], k)
            return b, b.interval('pts', a, z, closed=closed), s
        if kind == 'len':
            return b, b.interval('len', self.at(op['a'], k), length=op['n'],
                                 closed=closed), s
        clip = op['clip'] if op.get('clip') is not None else True
        a = op['a'] if kind == 'pp' else self.at(op['a'], k)
        return b, b.interval('per', a, freq=op['f'], clip=clip,
                             closed=closed), s

    def table_of(self, op):
        """board, first and last row, first line when printed"""
        b = self.board(op['b'])
        via = op.get('via')
        a, z = op.get('a'), op.get('z')
        if via == 'iv':
            try:
                b, (a, z), s = self.ivl_of(self.sc['ivls'][int(op['i'][1:])])
            except MErr:
                raise SkipOp()
            return b, a, z, b.ivl_repr((a, z), s[0])
        if via == 'tb':
            if a is None or op['op'] == 'print':
                a, z = 0, b.n - 1
            return b, a, z, b.tb_repr()
        s = self.sch(op.get('s'), b, None)
        if via == 'ws':
            return b, a, a, b.ws_repr(a, s[0])
        if a is None:
            a, z = 0, b.n - 1
        if not 0 <= a <= z < b.n:
            return b, a, z, None
        return b, a, z, b.ivl_repr((a, z), s[0])

    # ------------------------------------------------ queries
    def ws_do(self, b, i, s, d):
        m = d[0]
        if m == 'read':
            return b.ws(i, s[0])
        if m == 'repr':
            return [b.ws_repr(i, s[0]), b.ws_compact(i)]
        if m == 'str':
            return b.ws_repr(i, s[0])
        if m == 'duty':
            x = self.sch(d[1], b, s)
            on = b.duty_list(x[1])[i]
            return [on, not on]
        if m in ('rf', 'rb'):
            x = self.sch(d[3], b, s)
            j = b.roll(i, d[1], d[2] or 'on', x[1], m == 'rb')
            return b.ws(j, x[0])
        if m == 'add':
            return b.ws(b.roll(i, d[1], 'on', s[1], False), s[0])
        if m == 'sub':
            return b.ws(b.roll(i, d[1], 'on', s[1], True), s[0])
        if m == 'wt':
            x = self.sch(d[2], b, s)
            return b.ws_worktime(i, d[1] or 'on', x[1])
        raise ValueError(d)

    def rd_ivl(self, b, loc, s):
        if loc[0] > loc[1]:
            return ['void', 0, s[0], b.ivl_repr(loc, s[0])]
        return ['ivl', b.start[loc[0]], b.end[loc[1]], loc[1] - loc[0] + 1,
                s[0], b.ivl_repr(loc, s[0])]

    def other(self, b, x):
        if isinstance(x, str):
            try:
                return self.ivl_of(self.sc['ivls'][int(x[1:])])[1]
            except MErr:
                raise SkipOp()
        for y in x:
            if not 0 <= y < b.n:
                raise MErr('OutOfBoundsError')
        if x[0] > x[1]:
            raise MErr('VoidIntervalError')
        return tuple(x)

    def ivl_do(self, b, loc, s, d):
        m = d[0]
        if m == 'read':
            return self.rd_ivl(b, loc, s)
        if m == 'count':
            x = self.sch(d[2], b, s)
            return len(b.members(loc, d[1] or 'on', x[1]))
        if m == 'dur':
            x = self.sch(d[2], b, s)
            return b.total_duration(loc, d[1] or 'on', x[1])
        if m == 'wt':
            x = self.sch(d[2], b, s)
            return b.worktime(loc, d[1] or 'on', x[1])
        if m in ('nth', 'first', 'last'):
            if m == 'nth':
                n, duty, sk = d[1], d[2], d[3]
            else:
                n, duty, sk = (0 if m == 'first' else -1), d[1], d[2]
            x = self.sch(sk, b, s)
            return b.ws(b.nth(loc, n, duty or 'on', x[1]), x[0])
        if m == 'list':
            x = self.sch(d[2], b, s)
            return [[b.start[i], norm(b.labels[i]), x[0]]
                    for i in b.members(loc, d[1] or 'on', x[1])]
        full = list(range(loc[0], loc[1] + 1))
        if m == 'iter':
            return [[b.start[i], norm(b.labels[i]), s[0]] for i in full]
        if m == 'nest':
            allst = [b.start[i] for i in full]
            return [[b.start[i], allst] for i in full[:d[1]]]
        if m in ('zip', 'pairs'):
            return [[b.start[i], b.start[i]] for i in full]
        if m == 'cp':
            x = self.sch(d[3], b, s)
            r = b.count_periods(loc, d[1], d[2] or 'on', x[1])
            return r
        if m in ('ov', 'mul', 'por', 'div'):
            o = self.other(b, d[1])
            if m in ('ov', 'mul'):
                x = self.sch(d[2], b, s) if m == 'ov' else s
                r = (max(loc[0], o[0]), min(loc[1], o[1]))
                if loc[0] > loc[1]:
                    r = loc
                void = r[0] > r[1]
                if m == 'ov':
                    c = 0 if void else r[1] - r[0] + 1
                else:
                    c = 0 if void else len(b.members(r, 'on', x[1]))
                return [self.rd_ivl(b, r, x), c]
            if m == 'por':
                x = self.sch(d[3], b, s)
                return b.portion(loc, o, d[2] or 'on', x[1])
            return b.portion(loc, o, 'on', s[1])
        if m == 'ovd':
            x = self.sch(d[2], b, s)
            o = self.other(b, d[1])
            r = (max(loc[0], o[0]), min(loc[1], o[1]))
            if loc[0] > loc[1]:
                r = loc
            return [self.guard(self.ivl_do, b, r, x, y) for y in d[3]]
        if m == 'len':
            if loc[0] > loc[1]:
                return [0, 0]
            return [loc[1] - loc[0] + 1] * 2
        raise Unknown()

    def guard(self, f, *a):
        try:
            return f(*a)
        except SkipOp:
            return ['skip']
        except Unknown:
            return ['?']
        except MErr as e:
            return ['E', e.cls]

    def rd_board(self, b):
        f = b.duty_list(b.defsel)
        rows = [[b.start[i], b.end[i], b.dur[i], norm(b.labels[i]), b.ref[i],
                 f[i]] for i in range(b.n)]
        on = sum(f)
        return ['board', b.tb_repr(), b.bu_start[0], b.bu_end[-1], b.n, rows,
                on, b.n - on, b.defname]

    def expect(self, rec):
        """('ok', value) | ('exc', class) | None when judged elsewhere."""
        op = rec['op']
        try:
            return ('ok', self.value(op))
        except MErr as e:
            return ('exc', e.cls)

    def value(self, op):
        o = op['op']
        if o == 'ws':
            b, i, s = self.ws_of(op)
            return [self.guard(self.ws_do, b, i, s, d) for d in op['do']]
        if o == 'ivl':
            b, loc, s = self.ivl_of(op)
            return [self.guard(self.ivl_do, b, loc, s, d) for d in op['do']]
        if o == 'wsq':
            try:
                b, i, s = self.ws_of(self.sc['wss'][int(op['w'][1:])])
            except MErr:
                raise SkipOp()
            return [self.guard(self.ws_do, b, i, s, d) for d in op['do']]
        if o == 'ivlq':
            try:
                b, loc, s = self.ivl_of(self.sc['ivls'][int(op['i'][1:])])
            except MErr:
                raise SkipOp()
            return [self.guard(self.ivl_do, b, loc, s, d) for d in op['do']]
        if o == 'idx':
            h = self.handles[op['h']]
            b = self.board(h[0])
            f = b.duty_list(h[2])
            return [[i for i in range(b.n) if f[i]],
                    [i for i in range(b.n) if not f[i]],
                    list(range(b.n)), h[1]]
        if o == 'isd':
            h = self.handles[op['h']]
            b = self.board(h[0])
            if not 0 <= op['pos'] < b.n:
                raise Unknown()
            f = b.duty_list(h[2])[op['pos']]
            return [f, not f, norm(b.labels[op['pos']])]
        if o == 'bad':
            self.board(op['b'])
            return [['E', BAD[x][0]] for x in op['what']]
        if o == 'defsch':
            b = self.board(op['b'])
            f = b.duty_list(b.defsel)
            return [b.defname, [i for i in range(b.n) if f[i]], b.defname]
        if o == 'churn':
            b = self.board(op['b'])
            res = []
            v0 = w0 = None
            try:
                if op.get('i'):
                    v0 = self.ivl_of(self.sc['ivls'][int(op['i'][1:])])[1]
                elif op.get('i') is not None:
                    v0 = (0, b.n - 1)
            except MErr:
                pass
            try:
                if op.get('w'):
                    w0 = self.ws_of(self.sc['wss'][int(op['w'][1:])])[1]
                elif op.get('w') is not None:
                    w0 = 0
            except MErr:
                pass
            for sel in op['sels']:
                f = b.duty_list(sel)
                on = sum(f)
                res.append([on, b.n - on, on,
                            [b.start[i] for i in range(b.n) if f[i]]])
                if v0 is not None:
                    res.append([len(b.members(v0, 'on', sel)),
                                len(b.members(v0, 'off', sel)),
                                b.total_duration(v0, 'off', sel),
                                [[b.start[i] for i in b.members(v0, d, sel)]
                                 for d in ('off', 'on')]])
                if w0 is not None:
                    for d in (op.get('duty') or 'on', 'off'):
                        res.append(self.guard(
                            lambda d: [f[w0], b.start[b.roll(
                                w0, op.get('n') or 0, d, sel, False)]], d))
            return res
        if o == 'build':
            b = MBoard(op['spec'], self.mw)
            if b.labels is None:
                raise Unknown()
            return self.rd_board(b)
        if o == 'series':
            res = []
            for x in op['specs']:
                b = MBoard(x, self.mw)
                if b.labels is None:
                    raise Unknown()
                res.append(self.rd_board(b))
            return res
        if o == 'orphan':
            b = MBoard(op['spec'], self.mw)
            if b.labels is None:
                raise Unknown()
            s = (b.defname, b.defsel) if op.get('sel') is None \
                else ('kept', op['sel'])
            loc = (op['a'], op['z'])
            iv = [self.guard(self.ivl_do, b, loc, s, d) for d in op['ido']]
            wv = [self.guard(self.ws_do, b, op['pos'], s, d)
                  for d in op['wdo']]
            f = b.duty_list(s[1])
            head = [[i for i in range(b.n) if f[i]], s[0]]
            if op.get('drop') == 'ws':
                return iv
            if op.get('drop') == 'vs':
                return wv
            if op.get('drop') == 'w':
                return head + iv
            if op.get('drop') == 'v':
                return head + wv
            return iv + wv + ([[b.start[i] for i in range(
                loc[0] + 1, loc[1] + 1)]] if op.get('it') else [])
        if o == 'board':
            return self.rd_board(self.board(op['b']))
        if o == 'cal':
            return self.cal(op)
        if o == 'ucal':
            return self.ucal(op)
        if o == 'calam':
            return self.calam(op)
        if o == 'helper':
            return self.helper(op)
        if o in ('env', 'mut', 'forget'):
            return None
        raise Unknown()

    # ------------------------------------------------ calendars
    def cal(self, op):
        kw = op['kw']
        kw2 = dict(kw)
        if kw.get('custom_amendments') is not None:
            kw2['custom_amendments'] = {a: b for a, b
                                        in kw['custom_amendments']}
        d0, labels = calendar_labels(
            op['cc'], kw2, self.ru, self.sc['subs'][op['sub']]
            if op.get('sub') is not None else {})
        start = pd.Timestamp(d0).value
        n = len(labels)
        return ['cal', start, start + n * 86400 * NS_S - 1,
                [norm(x) for x in labels],
                sum(1 for x in labels if x),
                norm(sum(x for x in labels if x)), 'labels']

    def ucal(self, op):
        u = self.sc['ucals'][op['u']]
        spec = dict(u['spec'])
        lo, hi = spec['start'], spec['end']
        for k in ('start', 'end'):
            if op.get(k) is not None:
                if not lo <= op[k] <= hi:
                    raise MErr('OutOfBoundsError')
                spec[k] = op[k]
        ca = {a: b for a, b in op.get('ca') or []}
        if op.get('dna'):
            am = {}
        elif op.get('oca'):
            am = ca
        else:
            am = {k: v if op.get('extra') is None else op['extra']
                  for k, v in u['am'] if spec['start'] <= k <= spec['end']}
            am.update(ca)
        spec['amend'] = sorted([k, v] for k, v in am.items())
        b = MBoard(spec, self.mw)
        if b.labels is None:
            raise Unknown()
        return self.rd_board(b)

    def calam(self, op):
        kw = op['kw']
        lo, hi = [pd.Timestamp(x) for x in CAL[op['cc']]]
        hi = hi + pd.Timedelta(hours=23, minutes=59, seconds=59)
        start = pd.Timestamp(kw['custom_start']) \
            if kw.get('custom_start') else lo
        end = pd.Timestamp(kw['custom_end']) if kw.get('custom_end') else hi
        for t in (start, end):
            if not lo <= t <= hi:
                raise MErr('OutOfBoundsError')
        raise Unknown()

    def helper(self, op):
        D = lambda d: pd.Timestamp(d).value
        if op['f'] == 'extend_weekends':
            d = {pd.Timestamp(a).to_pydatetime(): v for a, v in op['d']}
            am = dict(d)
            wend = op.get('weekend') or [5, 6]
            for h in sorted(d):
                if h.weekday() not in wend:
                    continue
                i = wend.index(h.weekday())
                back, on = i + 1, len(wend) - i     # days to a weekday
                step = on
                if op['how'] == 'previous' or (
                        op['how'] == 'nearest' and back < on):
                    step = -back
                x = h + timedelta(days=step)
                while x in am:
                    x += timedelta(days=1 if step > 0 else -1)
                am[x] = d[h] if op.get('label') is None else op['label']
            return sorted([D(k), norm(v)] for k, v in am.items())
        if op['f'] == 'nth':
            res = {}
            for t in op['dates']:
                x = ndow(op['year'], t[0], t[1], t[2])
                if x is not None:
                    x += timedelta(days=t[3] if len(t) > 3 else 0)
                    res[D(x)] = op['label']
                elif op.get('errors') == 'raise':
                    raise MErr('OutOfBoundsError')
            return sorted([k, norm(v)] for k, v in res.items())
        if op['f'] == 'hol':
            if op['cc'] == 'US':
                am = us_holidays(op['y0'], op['y1'], op.get('dno'),
                                 op['long'])
            else:
                am = uk_holidays(op['y0'], op['y1'],
                                 op.get('country') or 'england',
                                 op.get('dno'), op['long'])
            a = datetime(op['y0'], 1, 1)
            z = datetime(op['y1'], 12, 30)
            return sorted([D(t), norm(op['label'])] for t in am
                          if a <= t <= z and t.weekday() < 5 and
                          t != datetime(2018, 12, 26))
        e = easter(op['year'], 3 if op['et'] == 'western' else 2)
        e = datetime(e.year, e.month, e.day)
        return sorted([D(e + timedelta(days=s)), norm(op['label'])]
                      for s in set(op['shifts']))


# ------------------------------------------------------------ comparison
def same(a, b):
    """`a` is observed, `b` expected; ['?'] in `b` matches anything."""
    if isinstance(b, list) and b == ['?']:
        return True
    if isinstance(a, list) and a == ['skip']:
        return True         # the object it needs was never made
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b) and isinstance(a, (bool, int)) and \
            isinstance(b, (bool, int))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))
    return a == b
