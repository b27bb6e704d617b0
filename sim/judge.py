"""Verdicts over the recorded history of one run."""
import json
import os

import pandas as pd

from .model import MBoard, MErr, norm, NS_S
from .oracle import Oracle, SkipOp, Unknown, same

TRANSIENT = '~'
_kf = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(
    __file__))), 'known_findings.json')
KNOWN = json.load(open(_kf))['findings'] if os.path.exists(_kf) else []
REG = ('add', 'drop', 'get', 'names', 'has', 'df', 'print')


def short(x, n=300):
    s = repr(x)
    return s if len(s) <= n else s[:n] + '...'


class Judge(object):
    def __init__(self, sc, world, ru):
        self.sc = sc
        self.w = world
        self.o = Oracle(sc, ru)
        self.bad = []
        self.stats = {'judged': 0, 'unjudged': 0, 'faulted': 0,
                      'faulted_ok': 0, 'linear': 0, 'skipped': 0}

    def v(self, kind, rec, detail):
        self.bad.append({'kind': kind, 'task': rec and rec['t'],
                         'op': rec and rec['op'], 'detail': detail})

    def run(self):
        for i, spec in enumerate(self.sc.get('boards') or []):
            key = 'b%d' % i
            if key not in self.o.handles and key in self.o.boards:
                b = self.o.boards[key]
                self.o.handles['D%d' % i] = (key, b.defname, b.defsel)
        self.setup_boards()
        self.remembering()
        self.named_boards()
        for rec in self.w.history:
            try:
                self.judge(rec)
            except (IndexError, KeyError, TypeError, AttributeError,
                    ValueError) as e:
                self.v('wrong-answer', rec, 'an answer of unexpected form '
                       '(%r): %s' % (e, short(rec['out'])))
        for key in sorted(self.o.boards):
            self.linear(key)
        self.iterators()
        for t in self.w.tampered:
            self.v('input-modified', None, t)
        return self.bad

    # -- boards built in setup
    def setup_boards(self):
        seen = {r[0]: r for r in self.w.setup_records}
        self.seqs = {}      # rp -> [(inv, res, [labels or None], total, ok)]
        for i, spec in enumerate(self.sc.get('boards') or []):
            key = 'b%d' % i
            r = seen.get(key)
            if r is None:
                continue
            want = self.o.berr.get(key, 'ok')
            if r[1] != want:
                self.v('wrong-answer', None, 'building %s gave %s, expected '
                       '%s' % (short(spec), r[1], want))
                continue
            if want != 'ok':
                continue
            b = self.o.boards[key]
            if b.labels is None:
                rows = r[2][5] if r[2] is not None else []
                self.collect(b, rows, -100 + i, -100 + i, True)
                self.settle(b, rows)
            if r[2] is not None and not same(r[2], self.o.rd_board(b)):
                self.v('wrong-answer', None, 'board %s: %s expected %s' % (
                    key, short(r[2], 900), short(self.o.rd_board(b), 900)))
        for r in self.w.setup_records:
            if r[0][0] == 'i':
                try:
                    self.o.ivl_of(self.sc['ivls'][int(r[0][1:])])
                except (MErr, SkipOp, Unknown):
                    continue
                self.v('wrong-answer', None, 'setup interval %s failed: %s'
                       % (r[0], r[1]))

    def collect(self, b, rows, inv, res, ok):
        for k, n in b.plan.draws.items():
            seq = [None] * n
            if ok and len(rows) == b.n:
                for i, s in enumerate(b.sym):
                    if s[0] == 'rp' and s[1] == k and i not in b._amend:
                        seq[s[2]] = rows[i][3]
            self.seqs.setdefault(k, []).append((inv, res, seq, n, ok))

    def settle(self, b, rows):
        if len(rows) != b.n:
            b.resolve(lambda k, i: '?')
            return
        got = {}
        for i, s in enumerate(b.sym):
            if s[0] == 'rp' and i not in b._amend:
                got[(s[1], s[2])] = rows[i][3]
        b.resolve(lambda k, i: got.get((k, i), '?'))

    def remembering(self):
        """Every pattern's labels went out once each and in order."""
        self.rpboards = {}
        for rec in self.w.history:
            op = rec['op']
            if op['op'] == 'rpn':
                ok = rec['out'][0] == 'ok'
                self.seqs.setdefault(op['rp'], []).append(
                    (rec['inv'], rec['res'],
                     [rec['out'][1] if ok else None], 1, ok))
            elif op['op'] == 'build':
                try:
                    b = MBoard(op['spec'], self.o.mw)
                except MErr:
                    continue
                if not b.plan.draws:
                    continue
                ok = rec['out'][0] == 'ok'
                rows = rec['out'][1][5] if ok else []
                self.collect(b, rows, rec['inv'], rec['res'], ok)
                if ok:
                    self.settle(b, rows)
                    self.rpboards[id(rec)] = b
        for k in sorted(self.seqs):
            labels = [norm(x) for x in self.sc['rps'][k]]
            if labels and not shuffle_ok(labels, self.seqs[k]):
                self.v('pattern-order', None, 'pattern %s: draws %s do not '
                       'come from its cycle in order' % (
                           labels, short([s[:4] for s in self.seqs[k]], 900)))

    def named_boards(self):
        for rec in self.w.history:
            op = rec['op']
            if op['op'] == 'build' and op.get('as') and \
                    rec['out'][0] == 'ok':
                b = self.rpboards.get(id(rec))
                if b is None:
                    try:
                        b = MBoard(op['spec'], self.o.mw)
                    except MErr:
                        continue
                self.o.boards[op['as']] = b

    # -- single operations
    def judge(self, rec):
        op, out = rec['op'], rec['out']
        if out[0] == 'skip':
            self.stats['skipped'] += 1
            return
        if out[0] == 'deadlock':
            self.v('deadlock', rec, out[1])
            return
        if rec['fault']:
            self.stats['faulted'] += 1
            if out[0] == 'exc':
                if out[2]:
                    return
                # a nested call may have documented errors of its own
                self.v('masked-fault', rec, 'the injected failure came out '
                       'as %s: %s' % (out[1], out[3]))
                return
            self.stats['faulted_ok'] += 1
            if self.sc['prop'] == 'C06':
                self.v('swallowed-fault', rec, 'the injected failure did not '
                       'come out; the answer was ' + short(out))
                return
        if op['op'] in ('it_new', 'it_next', 'it_close', 'rpn'):
            return
        if op['op'] in REG:
            self.registry_local(rec)
            return
        if op['op'] == 'repr':
            self.stats['judged'] += 1
            if out[0] != 'ok':
                self.v('wrong-error', rec, 'raised %s: %s' % (out[1], out[3]))
            elif out[1][0] != out[1][1]:
                self.v('wrong-answer', rec, 'a board made alike shows itself '
                       'otherwise: ' + diff(out[1][0].split('\n'),
                                            out[1][1].split('\n')))
            return
        if op['op'] == 'tmp':
            try:
                b = self.o.board(op['b'])
            except (SkipOp, Unknown):
                return
            f = b.duty_list(op['sel'])
            on = sum(f)
            want = ('ok', [on, b.n - on, b.n,
                           [b.start[i] for i in range(b.n) if f[i]]])
        else:
            try:
                if id(rec) in self.rpboards:
                    want = ('ok', self.o.rd_board(self.rpboards[id(rec)]))
                else:
                    want = self.o.expect(rec)
            except SkipOp:
                self.stats['unjudged'] += 1
                return
            except Unknown:
                self.stats['unjudged'] += 1
                return
        self.stats['judged'] += 1
        if want[0] == 'exc':
            if out[0] != 'exc' or out[1] != want[1]:
                self.v('wrong-answer', rec, 'gave %s, expected %s' % (
                    short(out), want[1]))
        elif out[0] == 'exc':
            self.v('wrong-error', rec, 'raised %s (%s), expected %s' % (
                out[1], out[3], short(want[1])))
        elif not same(out[1], want[1]):
            if op['op'] == 'cal' and self.known_cal(op, out[1], want[1]):
                return
            self.v('wrong-answer', rec, diff(out[1], want[1]))

    def known_cal(self, op, got, want):
        """Is the difference exactly a listed finding?"""
        for f in KNOWN:
            m = f.get('match') or {}
            if m.get('cc') != op['cc'] or len(got[3]) != len(want[3]):
                continue
            i = (pd.Timestamp(m['date']).value - want[1]) // (86400 * NS_S)
            y0 = pd.Timestamp(want[1]).year
            y1 = pd.Timestamp(want[2]).year
            if not 0 <= i < len(want[3]) or \
                    y0 <= m['unless_window_has_year'] <= y1:
                continue
            alt = list(want)
            alt[3] = list(want[3])
            if want[3][i] != m['expected']:
                continue
            alt[3][i] = m['observed']
            alt[4] = sum(1 for x in alt[3] if x)
            alt[5] = norm(sum(x for x in alt[3] if x))
            if same(got, alt):
                self.stats['known'] = self.stats.get('known', 0) + 1
                return True
        return False

    def registry_local(self, rec):
        op, out = rec['op'], rec['out']
        self.stats['judged'] += 1
        if out[0] == 'skip':
            return
        table = None
        if op['op'] in ('df', 'print'):
            try:
                table = self.o.table_of(op)
            except (SkipOp, Unknown):
                return
        if out[0] == 'exc':
            if table and not 0 <= table[1] <= table[2] < table[0].n:
                return
            if op['op'] == 'add' and out[1] == 'SelError' and \
                    self.bad_sel(op):
                return
            if op['op'] not in ('add', 'drop', 'get') or out[1] != 'KeyError':
                self.v('wrong-error', rec, 'raised %s: %s' % (out[1], out[3]))
            return
        if op['op'] == 'print':
            b, a, z, head = table
            if out[1][3] != z - a + 1:
                self.v('wrong-answer', rec, 'printed %s rows, expected %s: %s'
                       % (out[1][3], z - a + 1, short(out[1])))
            if out[1][1] != head:
                self.v('wrong-answer', rec, 'printed %s, expected %s' % (
                    out[1][1], head))
        if op['op'] == 'df':
            b, a, z, head = table
            if not 0 <= a <= z < b.n:
                self.v('wrong-answer', rec, 'a table of rows outside the '
                       'timeboard')
                return
            want = b.df_rows(a, z)
            if not same(out[1][2], want):
                self.v('wrong-answer', rec, diff(out[1][2], want))
            if out[1][1] != ['ws_ref', 'start', 'duration', 'end', 'label']:
                self.v('wrong-answer', rec, 'columns %s' % out[1][1])
        elif op['op'] in ('add', 'get') and out[1][0] != op['name']:
            self.v('wrong-answer', rec, 'named %r' % out[1][0])
        elif op['op'] == 'add' and self.bad_sel(op):
            self.v('masked-fault', rec, 'a schedule was added although its '
                   'selector fails')

    def bad_sel(self, op):
        """Does the selector fail for some workshift?"""
        if op['sel'][0] != 'bad':
            return False
        try:
            b = self.o.board(op['b'])
        except (SkipOp, Unknown):
            return False
        return any(x == op['sel'][1] for x in b.labels)

    # -- registry
    def linear(self, key):
        evs = []
        i = int(key[1:]) if key[1:].isdigit() and key[0] == 'b' else None
        mb = self.o.boards[key]
        known = []          # (object, uid)
        sels = {}
        init = {}
        if i is not None:
            d = self.w.handles0.get('D%d' % i)
            if d is not None:
                known.append((d, 'D'))
            init[mb.defname] = 'D'
            sels['D'] = mb.defsel
            for hk, b, name, sel in self.sc.get('scheds') or []:
                if b == key and hk in self.w.handles0:
                    known.append((self.w.handles0[hk], hk))
                    init[name] = hk
                    sels[hk] = sel
        else:
            init[mb.defname] = 'D'
            sels['D'] = mb.defsel
        regs = [r for r in self.w.history if r['op']['op'] in REG and
                r['op'].get('b') == key and r['out'][0] not in
                ('skip', 'deadlock') and not str(
                    r['op'].get('name', '')).startswith(TRANSIENT)]
        if not regs:
            return
        for n, r in enumerate(regs):
            if r['op']['op'] == 'add' and r['out'][0] == 'ok':
                if any(r['objs'][0] is o for o, u in known):
                    self.v('not-linearizable', r, 'add returned a schedule '
                           'object that already existed')
                    return
                known.append((r['objs'][0], 'a%d' % n))
                sels['a%d' % n] = r['op']['sel']
            elif r['op']['op'] == 'add':
                sels['f%d' % n] = r['op']['sel']

        def uid(o):
            for x, u in known:
                if x is o:
                    return u
            u = 'u%d' % len(known)
            known.append((o, u))
            return u

        def eq(a, b):
            """state entry `a` is the observed object `b`"""
            if a is None:
                return False
            return a == b or (a[0] == 'f' and b[0] == 'u')

        for n, r in enumerate(regs):
            op, out = r['op'], r['out']
            o = op['op']
            inj = out[0] == 'exc' and out[2]
            e = {'inv': r['inv'], 'res': r['res'], 'o': o, 'n': n, 'r': r}
            if o == 'add':
                e['name'] = op['name']
                e['how'] = 'maybe' if inj else out[0]
                if out[0] == 'exc' and (out[1] == 'SelError' or
                                        self.bad_sel(op)):
                    e['how'] = 'none'       # it cannot have succeeded
                e['u'] = ('f%d' % n) if out[0] == 'exc' else \
                    uid(r['objs'][0])
            elif o == 'drop':
                h = self.o.handles.get(op['h'])
                if not r['objs']:
                    continue
                e['u'] = uid(r['objs'][0])
                e['name'] = h[1] if h else op.get('name')
                e['how'] = 'maybe' if inj else out[0]
            elif inj:
                continue
            elif o == 'get':
                e['name'] = op['name']
                e['how'] = out[0]
                e['u'] = uid(r['objs'][0]) if r['objs'] else None
            elif out[0] != 'ok':
                continue
            elif o == 'names':
                e['names'] = [x for x in out[1]
                              if not x.startswith(TRANSIENT)]
            elif o == 'has':
                e['name'], e['val'] = op['name'], out[1]
            elif o in ('df', 'print'):
                if o == 'print' and out[1][3] < 0:
                    continue
                e['cols'] = [c for c in out[1][3 if o == 'df' else 4]
                             if not c[0].startswith(TRANSIENT)]
                try:
                    e['range'] = self.o.table_of(op)[1:3]
                except (SkipOp, Unknown):
                    continue
            evs.append(e)
        self.stats['linear'] += len(evs)
        cache = {}

        def col(u, rng):
            k = (u, rng)
            if k not in cache:
                cache[k] = mb.df_col(rng[0], rng[1], sels[u]) \
                    if u in sels else None
            return cache[k]

        def steps(e, st):
            """possible next states"""
            o = e['o']
            if o == 'add':
                has = e['name'] in st
                if e['how'] == 'ok':
                    return [] if has else [put(st, e['name'], e['u'])]
                if e['how'] == 'exc':
                    return [st] if has else []
                if e['how'] == 'none':
                    return [st]
                return [st] + ([] if has else [put(st, e['name'], e['u'])])
            if o == 'drop':
                here = eq(st.get(e['name']), e['u'])
                if e['how'] == 'ok':
                    return [put(st, e['name'], None)] if here else []
                if e['how'] == 'exc':
                    return [] if here else [st]
                return [st] + ([put(st, e['name'], None)] if here else [])
            if o == 'get':
                if e['how'] == 'ok':
                    return [st] if eq(st.get(e['name']), e['u']) else []
                return [] if e['name'] in st else [st]
            if o == 'names':
                return [st] if sorted(st) == e['names'] else []
            if o == 'has':
                return [st] if (e['name'] in st) == e['val'] else []
            if o in ('df', 'print'):
                if sorted(st) != sorted(c[0] for c in e['cols']):
                    return []
                for name, vals in e['cols']:
                    want = col(st[name], e['range'])
                    if want is not None and not same(vals, want):
                        return []
                return [st]
            return [st]

        if not search(evs, init, steps):
            self.v('not-linearizable', None, 'board %s, initial schedules %s:'
                   ' no one-at-a-time order explains %s' % (
                       key, sorted(init), short([
                           [e['r']['t'], e['inv'], e['res'], e['o'],
                            e.get('name') or e.get('names') or
                            [c[0] for c in e.get('cols') or []],
                            e['r']['out'][0] if e['r']['out'][0] == 'ok'
                            else e['r']['out'][1],
                            e.get('u')] for e in evs], 1500)))

    # -- iterators
    def iterators(self):
        its = {}
        for rec in self.w.history:
            op, out = rec['op'], rec['out']
            if op['op'] == 'it_new':
                if out[0] != 'ok':
                    if out[0] == 'exc' and not out[2]:
                        self.v('wrong-error', rec, 'raised %s: %s' % (
                            out[1], out[3]))
                    its.pop(op['k'], None)
                    continue
                try:
                    b, loc, s = self.o.ivl_of(
                        self.sc['ivls'][int(op['i'][1:])])
                    if op['kind'] == 'iter':
                        m, x = list(range(loc[0], loc[1] + 1)), s
                    else:
                        x = self.o.sch(op.get('s'), b, s)
                        m = b.members(loc, op.get('duty') or 'on', x[1])
                except (MErr, SkipOp, Unknown):
                    continue
                its[op['k']] = [[[b.start[i], norm(b.labels[i]), x[0]]
                                 for i in m], 0]
            elif op['op'] == 'it_next' and op['k'] in its:
                if out[0] == 'skip':
                    continue
                if rec['fault']:
                    its.pop(op['k'])
                    continue
                st = its[op['k']]
                want = st[0][st[1]:st[1] + op['n']]
                st[1] += op['n']
                if len(want) < op['n']:
                    want = want + ['stop']
                self.stats['judged'] += 1
                if out[0] != 'ok':
                    self.v('wrong-error', rec, 'raised %s: %s' % (
                        out[1], out[3]))
                elif not same(out[1], want):
                    self.v('wrong-answer', rec, diff(out[1], want))
            elif op['op'] == 'it_close':
                if out[0] == 'exc' and not out[2]:
                    self.v('wrong-error', rec, 'raised %s: %s' % (
                        out[1], out[3]))
                its.pop(op['k'], None)


def put(st, name, u):
    st = dict(st)
    if u is None:
        st.pop(name, None)
    else:
        st[name] = u
    return st


def search(evs, init, steps, limit=200000):
    """Wing & Gong: is there a one-at-a-time order consistent with real
    time?  None of the histories is long; at the limit the answer is yes."""
    n = len(evs)
    full = (1 << n) - 1
    seen = set()
    stack = [(0, init)]
    count = 0
    while stack:
        done, st = stack.pop()
        if done == full:
            return True
        key = (done, tuple(sorted(st.items())))
        if key in seen:
            continue
        seen.add(key)
        count += 1
        if count > limit:
            return True
        first = min(evs[i]['res'] for i in range(n) if not done >> i & 1)
        for i in range(n - 1, -1, -1):
            if done >> i & 1 or evs[i]['inv'] > first:
                continue
            for s2 in steps(evs[i], st):
                stack.append((done | 1 << i, s2))
    return False


def shuffle_ok(labels, seqs, limit=300000):
    """Can the draws be merged into the cycle of `labels`, each source in
    order, sources that ended before others began going first?"""
    L = len(labels)
    seqs = sorted(seqs, key=lambda s: s[0])
    n = len(seqs)
    seen = set()
    stack = [(0,) * n]
    count = 0
    while stack:
        pos = stack.pop()
        if pos in seen:
            continue
        seen.add(pos)
        count += 1
        if count > limit:
            return True
        if all(p == s[3] or not s[4] for p, s in zip(pos, seqs)):
            return True
        want = labels[sum(pos) % L]
        # a source may draw only if every source that ended before it
        # began has finished (failed ones may finish anywhere)
        pending = min([s[1] for p, s in zip(pos, seqs)
                       if s[4] and p < s[3]])
        for i in range(n - 1, -1, -1):
            s = seqs[i]
            if pos[i] >= s[3] or s[0] > pending:
                continue
            # a failed source cannot draw after a later one has started
            if not s[4] and any(pos[j] and seqs[j][0] > s[1]
                                for j in range(n)):
                continue
            x = s[2][pos[i]]
            if x is None or x == want:
                stack.append(pos[:i] + (pos[i] + 1,) + pos[i + 1:])
    return False


def diff(a, b, path=''):
    """First difference, for the report."""
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: length %d, expected %d: %s / %s' % (
                path or 'value', len(a), len(b), short(a), short(b))
        for i, (x, y) in enumerate(zip(a, b)):
            if not same(x, y):
                return diff(x, y, '%s[%d]' % (path, i))
    return '%s is %s, expected %s' % (path or 'value', short(a), short(b))
