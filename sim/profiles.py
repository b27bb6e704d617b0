"""What is simulated for each property: workload, interleavings, faults.

A profile fills in the scenario of a Gen object.  Every choice comes from its
generator, so that (property, seed, number) determines the scenario."""
from .gen import (Gen, LINE_FAULTS, CB_FAULTS, SETS, DAY, UNIT, EACHES,
                  _copy)
from .model import CAL, NS_S, MBoard, MErr


def generate(prop, seed, i):
    for k in range(20):
        g = Gen(prop, seed if not k else '%s+%d' % (seed, k), i)
        try:
            PROFILES[prop](g)
            break
        except NameError:
            raise
        except Exception:       # dates beyond what pandas can represent, ...
            if k > 10:
                raise
    if g.p(.4):
        g.sc['selshare'] = True
    sc = g.sc
    for k in ('rps', 'orgs', 'scheds', 'ivls', 'wss', 'post', 'sched',
              'faults'):
        if not sc[k]:
            del sc[k]
    return sc


def trial():
    g = Gen('TRIAL', 0, 0)
    bs = [g.add_board(small=True, size=12) for _ in range(4)]
    ops = []
    for b in bs:
        scheds(g, b, 1, 1)
        g.shared(b, 2, 2)
    for b in bs:
        mine = list(g.hk[b])
        for k in ('ws', 'ivl', 'wsq', 'ivlq', 'idx', 'isd', 'defsch', 'df',
                  'board', 'bad'):
            for _ in range({'ws': 25, 'ivl': 40, 'wsq': 12,
                            'ivlq': 25, 'bad': 12}.get(k, 2)):
                op = g.q_kind(k, b)
                if 'do' in op:
                    op['do'] = op['do'][:1]
                ops.append(op)
        for k in ('add', 'get', 'has', 'names', 'drop'):
            ops.append(reg_op(g, b, ['t' + b], mine, [(k, 1)], 0))
        ops += [churn(g, b), tmp(g, b), table_op(g, b), table_op(g, b),
                build_op(g, g.board(small=True)[0]), helper_op(g)]
    ops += [cal_op(g), cal_op(g)]
    g.sc['tasks'] = [ops]
    return g.sc


# ------------------------------------------------------------- helpers
def boards(g, n=1, **kw):
    return [g.add_board(**kw) for _ in range(n)]


def scheds(g, b, lo, hi):
    n = g.between(lo, hi)
    if n > 1 and g.p(.04):
        n = g.between(9, 40)
    for _ in range(n):
        g.add_sched(b)


def same_spec_twin(g, b):
    """Another board made from the same specification (other selectors)."""
    spec = _copy(g.m[b].spec)
    if g.p(.5):
        spec['sel'] = g.selector(spec['fam'])
    g.sc['boards'].append(spec)
    key = 'b%d' % (len(g.sc['boards']) - 1)
    g.m[key] = MBoard(spec, g.w)
    g.hk[key] = []
    return key


def uniq(g, stem='u'):
    g.n_handle += 1
    return '%s%d' % (stem, g.n_handle)


def fam(g, b):
    return g.m[b].spec['fam']


def churn(g, b):
    op = {'op': 'churn', 'b': b, 'name': '~' + uniq(g, 'c'),
          'gc': g.p(.15),
          'sels': [g.selector(fam(g, b)) for _ in range(g.between(2, 4))]}
    for k, what, stem in (('i', 'ivls', 'i'), ('w', 'wss', 'w')):
        if g.p(.5):     # asked of one object under each of them
            own = ['%s%d' % (stem, j) for j, x in enumerate(g.sc[what])
                   if x['b'] == b]
            op[k] = g.pick(own) if own and g.p(.8) else ''
            op['duty'] = g.pick(['on', 'same', 'alt', 'any'])
            op['n'] = g.between(-2, 3)
    return op


def tmp(g, b):
    return {'op': 'tmp', 'b': b, 'name': '~' + uniq(g, 't'),
            'sel': g.selector(fam(g, b))}


def build_op(g, spec, **kw):
    op = {'op': 'build', 'spec': spec}
    op.update(kw)
    return op


def ops_at(g):
    return [(t, j) for t, ops in enumerate(g.sc['tasks'])
            for j in range(len(ops))]


def busy(g, sel, p=.1):
    """The selector itself changes schedules while it is called."""
    return ['tog', g.pick([1, 1, 1, 2, 3, 7]), sel] if g.p(p) else sel


def busy_scheds(g, b, p):
    for x in g.sc['scheds']:
        if x[1] == b:
            x[3] = busy(g, x[3], p)
    i = int(b[1:])
    if g.sc['boards'][i].get('sel') and g.p(p / 2):
        g.sc['boards'][i]['sel'] = busy(g, g.sc['boards'][i]['sel'], 1)


def series_op(g, pool):
    """Boards with parts of their own, one after the other, over one span;
    each is gone before the next is made."""
    s = g.pick(pool)
    unit = UNIT[s['freq']]
    same = [x for x in range(len(g.sc['orgs']))
            if g.org_freq.get(x) == s['freq']]
    specs = []
    for _ in range(g.between(2, 4)):
        for _ in range(8):
            x = _copy(s)
            if g.p(.3):
                x.pop('amend', None)
            if same and not g.sc['rps']:
                x['layout'] = {'org': g.pick(same), 'fresh': True}
            if g.p(.3):
                x['start'] += unit * g.between(-9, 9)
                x['end'] = max(x['end'], x['start'])
            x['free'] = True
            try:
                m = MBoard(x, g.w)
            except MErr:
                continue
            if m.labels is not None:
                specs.append(x)
            break
    return {'op': 'series', 'specs': specs} if specs else build_op(g, s)


def orphan_op(g, spec=None):
    for _ in range(20):
        if spec is None:
            spec, m = g.board(small=True)
        else:
            m = MBoard(spec, g.w)
        if m.labels is not None:
            break
        spec = None
    spec = dict(_copy(spec), free=True)
    key = 'orphan'
    g.m[key], keep, g.hk[key] = m, None, []
    a, z = sorted(g.posrange(key))
    op = {'op': 'orphan', 'spec': spec, 'a': a, 'z': z,
          'pos': g.between(0, m.n - 1), 'gc': g.p(.6), 'it': g.p(.4),
          'drop': g.pick([None, None, 'w', 'v', 'ws', 'ws', 'vs']), 'ido': [], 'wdo': []}
    if g.p(.5):
        op['sel'] = g.selector(spec['fam'])
        op['dropped'] = g.p(.5)
    while len(op['ido']) < 3:
        d = g.ivl_do(key)
        if d[0] not in ('ov', 'mul', 'por', 'div', 'ovd'):
            op['ido'].append(d)
    op['wdo'] = [g.ws_do(key) for _ in range(3)]
    del g.m[key], g.hk[key]
    return op


CB_OPS = ('add', 'df', 'print', 'build', 'tmp', 'churn', 'series', 'orphan',
          'ucal')


def has_cb(op):
    return op['op'] in CB_OPS or op.get('k') == 'obj' or (
        op['op'] in ('ws', 'wsq') and any(
            d[0] in ('duty', 'rf', 'rb', 'add', 'sub', 'wt')
            for d in op['do']))


def cb_kinds(op):
    """Faults a caller-supplied function may produce there."""
    return CB_FAULTS


def add_faults(g, rate, only=None, callbacks=.3):
    for t, j in ops_at(g):
        op = g.sc['tasks'][t][j]
        if op['op'] in ('env', 'forget', 'mut'):
            continue
        if only and op['op'] not in only:
            continue
        if not g.p(rate):
            continue
        if has_cb(op) and g.p(callbacks + .2):
            g.fault(t, j, 'c', cb_kinds(op))
        else:
            g.fault(t, j, g.wpick([('l', 5), ('w', 1.3)]))


def twin_tasks(g, b, n_tasks, n_ops, **kw):
    return g.query_tasks(b, n_tasks, n_ops, **kw)


def reads(g, bs, n=2, board=.3, df=.15):
    for b in bs:
        if g.p(board):
            g.sc['post'].append({'op': 'board', 'b': b})
        if g.p(df):
            g.sc['post'].append({'op': 'df', 'b': b, 'via': 'tb'})
        for _ in range(n):
            g.sc['post'].append(g.q_op(b, 0))


def shared_reads(g):
    """Every shared interval and workshift, under its own schedule."""
    for i, v in enumerate(g.sc['ivls']):
        g.sc['post'].append({'op': 'ivlq', 'i': 'i%d' % i, 'b': v['b'],
                             'do': [['read'], ['count', 'on', None],
                                    ['dur', 'off', None]] +
                             ([['iter']] if g.p(.4) else [])})
    for i, v in enumerate(g.sc['wss']):
        g.sc['post'].append({'op': 'wsq', 'w': 'w%d' % i, 'b': v['b'],
                             'do': [['read'], ['duty', None],
                                    ['rf', 0, 'on', None]]})


def two_boards(g, p=.35, **kw):
    bs = boards(g, 1, **kw)
    if g.p(p):
        bs.append(same_spec_twin(g, bs[0]) if g.p(.5) and not g.sc['rps']
                  else g.add_board(**kw))
    return bs


# ------------------------------------------------------------- C01
def c01(g):
    g.sc['rdset'] = False
    if g.p(.05):                # a long run over a small world
        b = g.add_board(small=True, size=g.between(5, 25))
        scheds(g, b, 1, 4)
        g.shared(b, 3, 3)
        g.sc['tasks'] = g.query_tasks(b, 2, 45, obj=0, it=.4)
        g.schedule()
        reads(g, [b])
        return
    bs = two_boards(g)
    for b in bs:
        scheds(g, b, 0, 3)
    g.shared(bs[0], g.between(1, 2), g.between(1, 2))
    if len(bs) > 1:
        g.shared(bs[1], 1, 1)
    g.sc['tasks'] = g.query_tasks(bs[0], g.wpick([(2, 6), (3, 3), (4, 1)]),
                                  g.between(1, 5), obj=.08, boards=bs)
    if g.p(.15):
        t = g.pick(g.sc['tasks'])
        t.insert(g.between(0, len(t)), churn(g, g.pick(bs))
                 if g.p(.5) else tmp(g, g.pick(bs)))
    g.schedule()
    reads(g, bs, 2)


# ------------------------------------------------------------- C02
def it_ops(g, ivl, b, key, n):
    """One enumeration, advanced in pieces, maybe left half-way."""
    ops = [{'op': 'it_new', 'i': ivl, 'k': key, 'b': b,
            'kind': g.pick(['iter', 'iter', 'gen'])}]
    if ops[0]['kind'] == 'gen':
        ops[0]['duty'] = g.pick(['on', 'off', 'any', None])
        ops[0]['s'] = g.sk(b)
    for _ in range(n):
        ops.append({'op': 'it_next', 'k': key,
                    'n': g.wpick([(1, 3), (2, 2), (g.between(3, 9), 3),
                                  (400, .8)])})
    if g.p(.3):
        ops.append({'op': 'it_close', 'k': key,
                    'how': g.pick(['close', 'del', 'throw'])})
    return ops


def riffle(g, seqs):
    """Merge the lists, keeping the order of each."""
    seqs = [list(s) for s in seqs if s]
    res = []
    while seqs:
        s = g.pick(seqs)
        res.append(s.pop(0))
        if not s:
            seqs.remove(s)
    return res


def c02(g):
    g.sc['rdset'] = False
    bs = two_boards(g, .2, small=True)
    for b in bs:
        scheds(g, b, 0, 2)
    g.shared(bs[0], g.between(1, 2), 0)
    if len(bs) > 1:
        g.shared(bs[1], 1, 0)
    n = g.wpick([(1, 2), (2, 5), (3, 2)])
    left = []
    for t in range(n):
        seqs = []
        for _ in range(g.wpick([(1, 3), (2, 4), (3, 1)])):
            i = g.between(0, len(g.sc['ivls']) - 1)
            b = g.sc['ivls'][i]['b']
            key = uniq(g, 'e')
            ops = it_ops(g, 'i%d' % i, b, key, g.between(1, 4))
            seqs.append(ops)
            if ops[-1]['op'] != 'it_close':
                left.append(key)
        if g.p(.7):
            b = g.pick(bs)
            qs = []
            for _ in range(g.between(1, 3)):
                if g.p(.6):
                    q = g.q_kind('ivlq', b)
                    q['do'] = [g.pick([['iter'], ['nest', g.between(1, 3)],
                                       ['zip'], ['pairs'],
                                       ['list', g.duty(), g.sk(q['b'])],
                                       ['nth', g.between(-4, 6), g.duty(),
                                        g.sk(q['b'])],
                                       ['count', g.duty(), g.sk(q['b'])]])]
                else:
                    q = g.q_op(b, 0)
                qs.append(q)
            seqs.append(qs)
        g.sc['tasks'].append(riffle(g, seqs))
    if g.p(.35):
        add_faults(g, .25)
    g.schedule()
    # what is left is advanced to its end by another caller
    for key in left:
        if g.p(.6):
            g.sc['post'].append({'op': 'it_next', 'k': key,
                                 'n': g.pick([1, 3, 500])})
    for i in range(len(g.sc['ivls'])):
        g.sc['post'].append({'op': 'ivlq', 'i': 'i%d' % i,
                             'b': g.sc['ivls'][i]['b'],
                             'do': [['iter'], ['list', g.duty(), None]]})


# ------------------------------------------------------------- C03
def reg_names(g, b):
    names = [s[2] for s in g.sc['scheds'] if s[1] == b]
    if len(names) > 6 and g.p(.7):
        names = [g.pick(names) for _ in range(2)]
    return names + g.wpick([(['x'], 3), (['x', 'y'], 3), (['x', 'y', 'z'], 3),
                            (['x', 'X'], .4), (['1', '1.0'], .4),
                            (['None', 'True'], .3), (['x', 'xx'], .2),
                            (['\u00e9', 'e'], .2)])


def reg_op(g, b, names, mine, weights=None, bad=.07):
    """One operation on the set of schedules.  `mine`: handle keys this
    caller may use (it made them, or they were there at the start)."""
    k = g.wpick(weights or [('add', 5), ('drop', 4), ('get', 2), ('has', 1.5),
                            ('names', 2), ('df', .25), ('dropdef', .1)])
    if k == 'add':
        key = uniq(g, 'h')
        op = {'op': 'add', 'b': b, 'name': g.pick(names),
              'sel': g.selector(fam(g, b)), 'as': key}
        if g.p(.12):
            op['nk'] = g.pick(['obj', 'lit', 'lit'])
        if g.p(bad):
            op['sel'] = ['bad', g.pick(SETS[fam(g, b)])]
        else:
            op['sel'] = busy(g, op['sel'], g.busy)
        mine.append(key)
        return op
    if k == 'drop' and g.p(.06):      # of another timeboard
        other = [h for x in sorted(g.hk) if x != b for h in g.hk[x]]
        if other:
            return {'op': 'drop', 'b': b, 'h': g.pick(other)}
    if k == 'drop' and mine:
        return {'op': 'drop', 'b': b, 'h': g.pick(mine)}
    if k == 'dropdef':
        return {'op': 'drop', 'b': b, 'h': 'D' + b[1:]}
    if k == 'get':
        return {'op': 'get', 'b': b, 'name': g.pick(names)}
    if k == 'has':
        return {'op': 'has', 'b': b, 'name': g.pick(names)}
    if k == 'df':
        return g.df_op(b)
    return {'op': 'names', 'b': b}


def c03(g):
    g.sc['rdset'] = False
    bs = two_boards(g, .2, small=True)
    for b in bs:
        scheds(g, b, 0, 2)
    if len(bs) > 1 and g.p(.4):         # namesakes on two timeboards
        for b in bs:
            g.add_sched(b, 'x')
    shared = {b: list(g.hk[b]) for b in bs}
    n = g.wpick([(1, 1), (2, 5), (3, 3)])
    for t in range(n):
        mine = {b: list(shared[b]) for b in bs}
        ops = []
        for _ in range(g.between(2, 5 if n < 3 else 4)):
            b = g.pick(bs) if g.p(.3) else bs[0]
            ops.append(reg_op(g, b, reg_names(g, b), mine[b]))
        if g.p(.25):
            b = bs[0]
            h = mine[b]
            ops.append(g.q_op(b, 0))
        g.sc['tasks'].append(ops)
        for b in bs:        # the others may use them too, if made in time
            if g.p(.5):
                shared[b] += [x for x in mine[b] if x not in shared[b]]
    if g.p(.3):
        add_faults(g, .3, ('add', 'drop', 'get', 'names', 'has'))
    g.schedule(.03)
    if g.p(.25):
        g.sc['gran'] = 'i'
    for b in bs:
        g.sc['post'].append({'op': 'names', 'b': b})
        for name in sorted(set(reg_names(g, b))):
            if g.p(.5):
                g.sc['post'].append({'op': 'get', 'b': b, 'name': name})
        if g.p(.4):
            g.sc['post'].append({'op': 'df', 'b': b, 'via': 'tb'})
        if g.p(.5):
            key = uniq(g, 'h')
            g.sc['post'] += [{'op': 'add', 'b': b, 'name': 'x',
                              'sel': g.selector(fam(g, b)), 'as': key},
                             {'op': 'names', 'b': b},
                             {'op': 'drop', 'b': b, 'h': key},
                             {'op': 'drop', 'b': b, 'h': key},
                             {'op': 'names', 'b': b}]


# ------------------------------------------------------------- C04
def table_op(g, b):
    op = g.df_op(b)
    if g.p(.3):
        op['op'] = 'print'
        if op['via'] == 'tb':
            op.pop('a', None), op.pop('z', None)
        if g.p(.2):
            op = {'op': 'print', 'b': b, 'via': 'ws', 's': g.sk(b, .3),
                  'a': g.between(0, g.m[b].n - 1)}
    return op


def nested(g, op, new, top=12):
    op.setdefault('re', []).append([g.logint(1, top), new])


def c04(g):
    g.sc['rdset'] = False
    bs = two_boards(g, .15, small=True)
    b = bs[0]
    scheds(g, b, 0, 3)
    if g.p(.3):
        g.shared(b, 1, 0)
    if g.p(.25):
        g.busy = .4
        busy_scheds(g, b, .5)
    shared = list(g.hk[b])
    n = g.wpick([(1, 2), (2, 5), (3, 2)])
    names = reg_names(g, b)
    for t in range(n):
        mine = list(shared)
        ops = []
        for _ in range(g.between(1, 4)):
            if g.p(.5 if t else .75):
                op = table_op(g, g.pick(bs) if g.p(.2) else b)
                if g.p(.35):
                    for _ in range(g.between(1, 2)):
                        nested(g, op, reg_op(
                            g, b, names, mine,
                            [('add', 4), ('drop', 4), ('names', .5),
                             ('df', .5)]), 40)
                ops.append(op)
            else:
                ops.append(reg_op(g, b, names, mine, [('add', 5),
                                                      ('drop', 4)]))
        g.sc['tasks'].append(ops)
        if g.p(.6):
            shared += [x for x in mine if x not in shared]
    if g.p(.2):
        add_faults(g, .3)
    g.schedule(.03)
    g.sc['post'].append({'op': 'names', 'b': b})
    g.sc['post'].append(table_op(g, b))
    if g.p(.5):
        g.sc['post'].append({'op': 'df', 'b': b, 'via': 'tb'})


# ------------------------------------------------------------- C05
def c05(g):
    g.sc['rdset'] = False
    b = g.add_board(small=True)
    bs = [b]
    scheds(g, b, 0, 2)
    if g.p(.2):
        bs.append(g.add_board(small=True))
    names = reg_names(g, b)
    n = g.wpick([(1, 5), (2, 2)])
    for t in range(n):
        mine = list(g.hk[b])
        ops = []
        for _ in range(g.between(1, 3)):
            op = reg_op(g, b, names, mine, [('add', 5), ('drop', 3)])
            ops.append(op)
            if g.p(.7):         # look, and try again
                if g.p(.5):
                    ops.append({'op': 'names', 'b': b})
                op = _copy(op)
                if op.get('as') and g.p(.5):
                    op['as'] = uniq(g, 'h')
                    mine.append(op['as'])
                ops.append(op)
            if mine and g.p(.5):
                h = g.pick(mine)
                ops.append(g.pick([
                    {'op': 'idx', 'h': h},
                    {'op': 'ivl', 'b': b, 'kind': 'all', 'via': 'get',
                     'k': 'str', 's': h, 'do': [['count', 'on', None],
                                                ['list', 'off', None]]}]))
        g.sc['tasks'].append(ops)
    for t, j in ops_at(g):
        op = g.sc['tasks'][t][j]
        if op['op'] in ('add', 'drop') and g.p(.6):
            if op['op'] == 'add' and g.p(.45):
                g.fault(t, j, 'c', CB_FAULTS)
            else:
                g.fault(t, j, g.wpick([('l', 4), ('w', 2)]))
    g.schedule()
    if g.p(.3):
        g.sc['gran'] = 'i'
        for f in g.sc['faults']:
            if f[2] == 'l' and g.p(.7):
                f[3] *= 4
    g.sc['post'] += [{'op': 'names', 'b': b}, {'op': 'df', 'b': b,
                                               'via': 'tb'}]
    for name in sorted(set(names)):
        key = uniq(g, 'h')
        if g.p(.5):
            g.sc['post'].append({'op': 'get', 'b': b, 'name': name})
        elif g.p(.5):
            g.sc['post'] += [
                {'op': 'add', 'b': b, 'name': name, 'as': key,
                 'sel': g.selector(fam(g, b))},
                {'op': 'idx', 'h': key}, {'op': 'drop', 'b': b, 'h': key},
                {'op': 'names', 'b': b}]
    reads(g, bs, 1, 0, 0)


# ------------------------------------------------------------- C06, C07
def any_op(g, b, mine, build=.12, cal=.02):
    k = g.bpick('any:', [('q', 8), ('reg', 1.5), ('table', .8),
                         ('build', build * 10), ('churn', .4),
                         ('cal', cal * 10), ('helper', .3),
                         ('orphan', .25)])
    if k == 'orphan':
        return orphan_op(g)
    if k == 'q':
        return g.q_op(b, .3)
    if k == 'reg':
        return reg_op(g, b, ['x', uniq(g, 'n')], mine)
    if k == 'table':
        return table_op(g, b)
    if k == 'churn':
        return churn(g, b) if g.p(.5) else tmp(g, b)
    if k == 'cal':
        return cal_op(g)
    if k == 'helper':
        return helper_op(g)
    spec, m = g.board(small=True, errors=True)
    if g.p(.5) and spec.get('amend'):
        spec['akinds'] = ['obj']
        spec['amap'] = g.p(.5)
    return build_op(g, spec)


def c06(g):
    g.sc['rdset'] = False
    b = g.add_board(small=g.p(.7))
    scheds(g, b, 0, 2)
    g.shared(b, 1, 1)
    n = g.wpick([(1, 7), (2, 2)])
    for t in range(n):
        mine = list(g.hk[b])
        g.sc['tasks'].append([any_op(g, b, mine, .18)
                              for _ in range(g.between(3, 8))])
    add_faults(g, .75, callbacks=.45)
    g.schedule()
    reads(g, [b], 1, .1, .05)


def c07(g):
    g.sc['rdset'] = False
    bs = two_boards(g, .25, small=g.p(.7))
    for b in bs:
        scheds(g, b, 0, 3)
        g.shared(b, 1, 1)
    n = g.wpick([(1, 6), (2, 4)])
    for t in range(n):
        ops = []
        for _ in range(g.between(2, 5)):
            b = g.pick(bs)
            q = g.q_op(b, .2) if g.p(.93) else table_op(g, b)
            if g.p(.15):
                q = churn(g, b)
            ops.append(q)
            g_fault = g.p(.75)
            if g_fault:
                g.sc['tasks'].append(ops)
                j = len(ops) - 1
                if has_cb(q) and g.p(.4):
                    g.fault(len(g.sc['tasks']) - 1, j, 'c', cb_kinds(q))
                else:
                    g.fault(len(g.sc['tasks']) - 1, j,
                            g.wpick([('l', 5), ('w', 2)]))
                g.sc['tasks'].pop()
            r = g.wpick([('same', 4), ('kind', 4), ('both', 3)])
            if r != 'kind':
                ops.append(_copy(q))
            if r != 'same':
                ops.append(g.same_kind(q, b) if q['op'] != 'churn'
                           else churn(g, b))
        g.sc['tasks'].append(ops)
    g.schedule()
    shared_reads(g)
    reads(g, bs, 2, .25, .15)


# ------------------------------------------------------------- C08, C09
def spec_pool(g, rps=()):
    """Organizers to be shared, for one base unit, over several spans."""
    for _ in range(40):
        keep = (len(g.sc['orgs']), len(g.sc['boards']))
        spec, m = g.board(small=True, rps=rps)
        if 'org' not in spec['layout']:
            del g.sc['orgs'][keep[0]:]
            continue
        return spec
    return None


def refreq(g, s):
    """The same dates in other base units, if its organizers allow it."""
    if 'org' not in s['layout']:
        return False
    todo, eaches = [s['layout']['org']], []
    while todo:
        o = g.sc['orgs'][todo.pop()]
        mk = o.get('marker')
        if mk:
            if mk.get('at') and mk.get('how') not in ('from_start_of_each',
                                                      'user'):
                return False
            eaches.append(mk['each'])
        if isinstance(o['structure'], list):
            todo += [e['org'] for e in o['structure'] if 'org' in e]
    try:
        m = MBoard(s, g.w)
    except MErr:
        return False
    a, z = m.start[0], m.end[-1]
    fs = [f for f in ('H', 'D', 'W', 'M', 'Q', '12H', '8H', 'T')
          if f != s['freq'] and (z - a) // UNIT[f] < 400 and
          all(e in EACHES[f] for e in eaches)]
    if not fs:
        return False
    s['freq'] = g.pick(fs)
    s['start'], s['end'] = a, z // NS_S * NS_S
    return True


def vary(g, spec):
    """The same specification over another span, or with other details."""
    unit = UNIT[spec['freq']]
    for _ in range(12):
        s = _copy(spec)
        if g.p(.75):
            n = max(1, (s['end'] - s['start']) // unit + 1)
            shift = g.wpick([(0, 2), (g.between(1, 12), 3),
                             (g.between(-12, -1), 3),
                             (g.between(-400, 400)
                              // (1 + unit // (20 * DAY)), 2)])
            s['start'] += shift * unit
            s['end'] = s['start'] + unit * max(
                0, n - 1 + g.wpick([(0, 3), (g.between(-10, 25), 3)]))
        if g.p(.2) and not refreq(g, s):
            continue
        if g.p(.35):
            s['deflabel'] = g.pick(SETS[s['fam']])
        if g.p(.3):
            s['sel'] = g.selector(s['fam'])
        if g.p(.3):
            s['wsref'] = g.pick(['start', 'end'])
        if g.p(.3) and 'org' in s['layout'] and not g.sc['rps']:
            s['layout'] = dict(s['layout'], fresh=True)
        if g.p(.3):
            s.pop('amend', None)
        if g.p(.15):
            other = [x for x in range(len(g.sc['orgs']))
                     if g.org_freq.get(x) == s['freq']]
            if other:
                s['layout'] = {'org': g.pick(other)}
        try:
            MBoard(s, g.w)
        except MErr:
            continue
        return s
    return _copy(spec)


def c08(g):
    g.at_rate = g.pick([.45, .9])
    pool = [spec_pool(g) for _ in range(g.between(1, 2))]
    pool = [s for s in pool if s]
    if not pool:
        pool = [g.board(small=True)[0]]
    if g.p(.5):
        s = g.pick(pool)
        g.sc['boards'].append(s)
        g.m['b0'] = MBoard(s, g.w)
        g.hk['b0'] = []
    n = g.wpick([(1, 4), (2, 5), (3, 1)])
    names = []
    for t in range(n):
        ops = []
        for _ in range(g.between(1, 4)):
            s = vary(g, g.pick(pool)) if g.p(.85) else _copy(g.pick(pool))
            op = build_op(g, s)
            if g.p(.25):
                op['as'] = uniq(g, 'n')
                names.append(op['as'])
            else:
                s['free'] = True
            ops.append(op)
            if g.p(.3):
                ops.append(series_op(g, pool))
            elif g.p(.1):
                ops.append(orphan_op(g, _copy(g.pick(pool))))
            if g.p(.08):
                ops.append({'op': 'env', 'what': 'gc'})
        g.sc['tasks'].append(ops)
    if g.p(.35):
        add_faults(g, .4, ('build', 'series', 'orphan'))
    g.schedule()
    for s in pool:
        g.sc['post'].append(build_op(g, _copy(s)))
        if g.p(.5):
            g.sc['post'].append(build_op(g, vary(g, s)))
    for name in names[:2]:
        g.sc['post'].append({'op': 'board', 'b': name})
    if 'b0' in g.m:
        reads(g, ['b0'], 1, .5, 0)


def c09(g, rate=.4):
    f = g.pick(['int', 'str', 'flt'])
    nr = g.wpick([(1, 6), (2, 3)])
    for _ in range(nr):
        # in a long cycle one can tell where it stands
        n = g.wpick([(1, .5), (2, 2), (3, 2.5), (5, 2), (7, 2), (97, 2.5)])
        s = list(SETS[f])
        g.r.shuffle(s)
        g.sc['rps'].append((s * 3)[:n] if n < 9 and g.p(.3) else
                           ['%s%d' % (f[0], k) for k in range(n)]
                           if f == 'str' else [k + 1 for k in range(n)])
    rps = list(range(nr))
    pool = []
    for _ in range(12):
        s = spec_pool(g, rps)
        if s is None:
            continue
        m = MBoard(s, g.w)
        if m.plan.draws:
            pool.append(s)
        if len(pool) >= 2 or (pool and g.p(.4)):
            break
    if not pool:
        o = {'marker': {'each': 'W'}, 'structure': [{'rp': 0}]}
        g.sc['orgs'].append(o)
        pool = [{'freq': 'D', 'start': 17200 * DAY, 'end': 17220 * DAY,
                 'fam': f, 'layout': {'org': len(g.sc['orgs']) - 1},
                 'pkind': 'ts'}]
    if g.p(.4):
        g.sc['boards'].append(_copy(pool[0]))
    n = g.wpick([(1, 3), (2, 6), (3, 1)])
    for t in range(n):
        ops = []
        for _ in range(g.between(1, 3 if n > 1 else 5)):
            if g.p(.35):
                for _ in range(g.between(1, 3)):
                    ops.append({'op': 'rpn', 'rp': g.pick(rps)})
            else:
                ops.append(build_op(g, vary(g, g.pick(pool))))
        g.sc['tasks'].append(ops)
    if g.p(.8 if g.boosted else rate):
        add_faults(g, .5, ('build', 'rpn'), g.pick([-.2, .3]))
    g.schedule()
    for k in rps:
        for _ in range(g.between(1, min(8, len(g.sc['rps'][k]) + 1))):
            g.sc['post'].append({'op': 'rpn', 'rp': k})
    if g.p(.5):
        g.sc['post'].append(build_op(g, _copy(pool[0])))
        g.sc['post'].append({'op': 'rpn', 'rp': rps[0]})


# ------------------------------------------------------------- C10
def c10(g):
    bs = two_boards(g, .5, small=True)
    for b in bs:
        scheds(g, b, 0, 2)
    g.shared(bs[0], 1, 1)
    cc = g.pick(['US', 'UK', 'RU'])
    ucals(g, g.wpick([(0, 3), (1, 1)]), True)
    n = g.wpick([(1, 5), (2, 3)])
    names = []
    for i, s in enumerate(g.sc['boards']):
        k = 'b%d' % i
        if 'pat' in s['layout'] and not s['layout'].get('user'):
            names.append('layout:' + k)
        if s.get('amend'):
            names.append('amend:' + k)
    # organizers are reusable specifications: their own parts stay live
    # until the last board made from them is built
    for i, o in enumerate(g.sc['orgs']):
        if o.get('marker') and o['marker'].get('at'):
            names.append('at%d' % i)
        if not isinstance(o['structure'], dict):
            names.append('structure%d' % i)
            if any('pat' in e and not e.get('tuple') and not e.get('user')
                   for e in o['structure']):
                names.append('pats%d' % i)
        if o.get('marks'):
            names.append('marks%d' % i)
    for t in range(n):
        ops = []
        for _ in range(g.between(2, 5)):
            b = g.pick(bs)
            w = g.wpick([('input', 4 if names else 0), ('df', 1.5),
                         ('idx', 2), ('params', .5), ('calam', .6),
                         ('q', 3), ('cal', .5), ('helper', .5),
                         ('own', 2 if g.sc['ucals'] else 0),
                         ('build', .6)])
            if w == 'input':
                ops.append({'op': 'mut', 'what': 'input',
                            'name': g.pick(names),
                            'how': g.pick(['replace', 'clear', 'reverse'])})
            elif w == 'df':
                ops.append({'op': 'mut', 'what': 'df', 'b': b})
            elif w == 'idx':
                op = {'op': 'mut', 'what': 'idx', 'b': b}
                if g.hk[b] and g.p(.6):
                    op['h'] = g.pick(g.hk[b])
                ops.append(op)
            elif w == 'params':
                ops.append({'op': 'mut', 'what': 'params', 'cc': cc})
            elif w == 'calam':
                ops.append({'op': 'mut', 'what': 'calam', 'cc': cc,
                            'kw': am_kw(cal_kw(g, cc))})
            elif w == 'cal':
                ops.append(cal_op(g, cc))
            elif w == 'own':
                ops.append(ucal_op(g))
            elif w == 'helper':
                ops.append(helper_op(g))
            elif w == 'build':
                m = g.pick([x for x in g.sc['boards']])
                if 'pat' in m['layout']:
                    ops.append(build_op(g, _copy(m)))
                else:
                    ops.append(g.q_op(b, 0))
            else:
                ops.append(g.q_op(b, 0))
        g.sc['tasks'].append(ops)
    g.schedule()
    for b in bs:
        if g.p(.6):
            g.sc['post'].append({'op': 'repr', 'b': b})
        g.sc['post'].append({'op': 'board', 'b': b})
        g.sc['post'].append({'op': 'df', 'b': b, 'via': 'tb'})
        for h in g.hk[b]:
            g.sc['post'].append({'op': 'idx', 'h': h})
        if g.hk[b] or g.p(.3):
            key = uniq(g, 'h')
            g.sc['post'] += [{'op': 'add', 'b': b, 'name': 'late', 'as': key,
                              'sel': g.selector(fam(g, b))},
                             {'op': 'idx', 'h': key}]
        for _ in range(2):
            g.sc['post'].append(g.q_op(b, 0))
    if g.p(.35):
        g.sc['post'].append(cal_op(g, cc))


# ------------------------------------------------------------- C11
def c11(g):
    g.sc['rdset'] = False
    bs = two_boards(g, .2, small=True)
    b = bs[0]
    scheds(g, b, 1, 3)
    g.shared(b, 2, 2)
    names = [s[2] for s in g.sc['scheds'] if s[1] == b]
    n = g.wpick([(1, 6), (2, 4)])
    shared = list(g.hk[b])
    for t in range(n):
        mine = list(shared)
        ops = []
        for _ in range(g.between(3, 7)):
            k = g.wpick([('q', 5), ('drop', 2), ('add', 2.5), ('defsch', .7),
                         ('churn', .6), ('get', .5), ('dropdef', .15)])
            keep, g.hk[b] = g.hk[b], list(mine)
            if k == 'q':
                op = g.q_op(b, 0)
                if op['op'] in ('ws', 'ivl') and g.p(.6):
                    op['s'] = g.pick(mine)
                ops.append(op)
            elif k == 'defsch':
                ops.append(orphan_op(g) if g.p(.4) else
                           {'op': 'defsch', 'b': b})
            elif k == 'churn':
                ops.append(churn(g, b))
            elif k == 'drop':
                h = g.pick(mine)
                ops.append({'op': 'drop', 'b': b, 'h': h})
                if g.p(.6):     # ... and another of the same name
                    nm = [s[2] for s in g.sc['scheds'] if s[0] == h]
                    key = uniq(g, 'h')
                    ops.append({'op': 'add', 'b': b, 'as': key,
                                'name': nm[0] if nm else 'x',
                                'sel': g.selector(fam(g, b))})
                    mine.append(key)
            elif k == 'dropdef':
                ops.append({'op': 'drop', 'b': b, 'h': 'D' + b[1:]})
                if g.p(.7):
                    key = uniq(g, 'h')
                    mine.append(key)
                    ops.append({'op': 'add', 'b': b, 'as': key,
                                'name': g.m[b].defname,
                                'sel': g.selector(fam(g, b))})
            elif k == 'get':
                ops.append({'op': 'get', 'b': b, 'name': g.pick(names)})
            else:
                key = uniq(g, 'h')
                ops.append({'op': 'add', 'b': b, 'as': key,
                            'name': g.pick(names + ['x', 'y']),
                            'sel': g.selector(fam(g, b))})
                mine.append(key)
            g.hk[b] = keep
        g.sc['tasks'].append(ops)
    if g.p(.15):
        add_faults(g, .2)
    g.schedule()
    g.hk[b] = sorted(set(g.hk[b] + mine))
    for h in g.hk[b][:4]:
        g.sc['post'].append({'op': 'idx', 'h': h})
    g.sc['post'].append({'op': 'defsch', 'b': b})
    for i in range(len(g.sc['ivls'])):
        g.sc['post'].append({'op': 'ivlq', 'i': 'i%d' % i,
                             'b': g.sc['ivls'][i]['b'],
                             'do': [g.ivl_do(b), ['read'],
                                    ['count', 'on', None]]})
    for i in range(len(g.sc['wss'])):
        g.sc['post'].append({'op': 'wsq', 'w': 'w%d' % i,
                             'b': g.sc['wss'][i]['b'],
                             'do': [['duty', None], g.ws_do(b)]})
    g.sc['post'].append(g.q_op(b, 0))


# ------------------------------------------------------------- C12
def c12(g):
    g.sc['clock0'] = g.between(0, g.pick([4, 8]) * 1000000000) * NS_S
    g.at_rate = g.pick([.45, .9])
    if g.p(.6):
        g.sc['tz'] = g.env_ops_tz() if hasattr(g, 'env_ops_tz') else g.pick(
            ['UTC', 'America/New_York', 'Asia/Kolkata', 'XYZ-14', 'ABC+12'])
    bs = two_boards(g, .25, small=True)
    b = bs[0]
    scheds(g, b, 0, 2)
    g.shared(b, 1, 1)
    n = g.wpick([(1, 4), (2, 4), (3, 1)])
    for t in range(n):
        mine = list(g.hk[b])
        ops = []
        for _ in range(g.between(2, 5)):
            if g.p(.35):
                ops.append(g.env_ops())
            op = any_op(g, g.pick(bs), mine, .25, .05) if g.p(.6) \
                else g.q_op(g.pick(bs), .3)
            if op['op'] == 'drop' or (op['op'] == 'add' and g.p(.5)):
                op = g.q_op(b, .2)
            if g.p(.07):
                op = orphan_op(g)
            if has_cb(op) and g.p(.4):
                for _ in range(g.between(1, 2)):
                    nested(g, op, g.env_ops())
            ops.append(op)
            if g.p(.3):         # the same again under other conditions
                ops.append(g.env_ops())
                again = _copy(op)
                if again['op'] not in ('add', 'drop', 'build'):
                    ops.append(again)
        g.sc['tasks'].append(ops)
    if n > 1 and g.p(.4):       # somebody who does nothing but meddle
        g.sc['tasks'].append([g.env_ops() for _ in range(6)])
    g.schedule()
    reads(g, bs, 2, .4, .2)


# ------------------------------------------------------------- C13
def c13(g):
    g.sc['rdset'] = False
    if g.p(.15):                # drawing from remembering patterns
        c09(g, .85)
        return
    bs = two_boards(g, .2, small=True)
    b = bs[0]
    scheds(g, b, 0, 2)
    g.shared(b, 1, 1)
    if g.p(.25):
        g.busy = .5
        busy_scheds(g, b, .6)
    n = g.wpick([(1, 1), (2, 4), (3, 3), (4, 1)])
    for t in range(n):
        mine = list(g.hk[b])
        ops = [any_op(g, g.pick(bs), mine, .15, .03)
               for _ in range(g.between(2, 5))]
        for op in ops:
            if has_cb(op) and g.p(.15):
                nested(g, op, any_op(g, b, mine, .1, 0))
        g.sc['tasks'].append(ops)
    if g.p(.75):
        add_faults(g, g.pick([.15, .4, .7]))
    g.schedule(.03)
    reads(g, bs, 2, .3, .3)


# ------------------------------------------------------------- C14
def own_code(g, i, deep=4):
    """The caller's code in every place of organizer `i` which takes it."""
    if i is None or not deep:
        return
    o = g.sc['orgs'][i]
    mk = o.get('marker') or {}
    if mk.get('at') and mk.get('how', 'from_start_of_each') == \
            'from_start_of_each':
        mk['how'] = 'user'
        if len(mk['at']) < 2 and g.p(.6):
            mk['at'] = mk['at'] + [dict(mk['at'][0])]
    if o.get('mkinds') and g.p(.7):
        o['mkinds'] = ['obj' for _ in o['mkinds']]
    if isinstance(o['structure'], list):
        for e in o['structure']:
            own_code(g, e.get('org'), deep - 1)


def marked(g):
    """A specification with marks placed by the caller's own function."""
    g.at_rate = 1
    for _ in range(12):
        keep = len(g.sc['orgs'])
        spec = g.board(small=True)[0]
        if any((o.get('marker') or {}).get('at')
               for o in g.sc['orgs'][keep:]):
            break
        del g.sc['orgs'][keep:]
        spec = None
    g.at_rate = .45
    if spec is None:
        return g.board(small=True)[0]
    own_code(g, spec['layout'].get('org'))
    return spec


def c14(g):
    g.sc['rdset'] = False
    bs = two_boards(g, .3, small=True)
    b = bs[0]
    for x in bs:
        scheds(g, x, 0, 2)
    g.shared(b, 1, 1)
    if g.p(.3):
        g.busy = .4
        busy_scheds(g, b, .5)
    n = g.wpick([(1, 7), (2, 3)])
    for t in range(n):
        mine = list(g.hk[b])
        ops = []
        for _ in range(g.between(1, 4)):
            k = g.wpick([('add', 4), ('df', 1.5), ('q', 4), ('build', 3),
                         ('churn', 1), ('tmp', 1)])
            if k == 'add':
                op = reg_op(g, b, ['x', 'y', uniq(g, 'n')], mine,
                            [('add', 1)])
            elif k == 'df':
                op = table_op(g, b)
            elif k == 'q':
                op = g.q_op(b, 0)
                for _ in range(9):
                    if op['op'] in ('ws', 'ivl'):
                        break
                    op = g.q_op(b, 0)
                if 'k' in op and op.get('k') != 'ws':
                    op['k'] = 'obj'
            elif k == 'build':
                spec = marked(g) if g.p(.5) else g.board(small=True)[0]
                if spec.get('amend') and g.p(.7):
                    spec['akinds'] = ['obj']
                    spec['amap'] = True
                spec['sel'] = spec.get('sel') or g.selector(spec['fam'])
                op = build_op(g, spec)
                if g.p(.6):
                    own_code(g, spec['layout'].get('org'))
            elif k == 'churn':
                op = churn(g, b)
            else:
                op = tmp(g, b)
            if g.p(.85):
                for _ in range(g.between(1, 3)):
                    x = g.pick(bs)
                    j = g.wpick([('q', 5), ('reg', 3),
                                 ('build', 7 if op['op'] == 'build' else 2),
                                 ('df', .7), ('same', 2), ('churn', .5)])
                    if j == 'q':
                        new = g.q_op(x, .1)
                    elif j == 'reg':
                        new = reg_op(g, x, ['x', 'y'], mine if x == b
                                     else list(g.hk[x]))
                    elif j == 'build':
                        if op['op'] == 'build' and g.p(.7):
                            new = build_op(g, vary(g, op['spec'])
                                           if g.sc['orgs'] else
                                           _copy(op['spec']))
                            if g.p(.4):
                                if g.p(.6):
                                    new['spec']['layout'].pop('fresh', 0)
                                nested(g, op, new, 4)
                                continue
                        else:
                            new = build_op(g, g.board(small=True)[0])
                    elif j == 'df':
                        new = table_op(g, x)
                    elif j == 'same' and op['op'] in ('ws', 'ivl'):
                        new = g.same_kind(op, b, .3)
                    elif j == 'same' and op['op'] == 'add':
                        new = reg_op(g, b, [op['name']], mine, [('add', 1)])
                    else:
                        new = churn(g, x)
                    nested(g, op, new, g.pick([2, 12, 40]))
            ops.append(op)
        g.sc['tasks'].append(ops)
    if g.p(.12):
        add_faults(g, .2)
    g.schedule()
    reads(g, bs, 2, .3, .2)


# ------------------------------------------------------------- C15
HOLS = {
    'US': ['new_year', 'mlk', 'presidents', 'memorial', 'independence',
           'labor', 'columbus', 'veterans', 'thanksgiving', 'black_friday',
           'christmas', 'xmas_additional_day', 'one_off'],
    'UK': ['new_year', 'new_year2', 'st_patricks', 'good_friday',
           'easter_monday', 'early_may', 'spring', 'orangemens', 'summer',
           'st_andrews', 'christmas', 'boxing', 'royal'],
    'RU': [],
}


def _date(d):
    import datetime
    return datetime.date(1970, 1, 1) + datetime.timedelta(days=d)


def _days(y):
    import datetime
    return (datetime.date(y, 1, 1) - datetime.date(1970, 1, 1)).days


def cal_kw(g, cc, span=None):
    kw = {}
    lo, hi = {'US': (2000, 2020), 'UK': (2000, 2020),
              'RU': (2005, 2021)}[cc]
    y = g.between(lo, hi)
    near = None
    if g.day is not None:
        near = _date(g.day)
        if lo <= near.year <= hi:
            y = near.year
        else:
            near = None
    long = span == 'long' or (span is None and g.p(.12))
    if not long:
        y1 = min(hi, y + g.wpick([(0, 5), (1, 3), (2, 1)]))

        def day(y):
            if near is not None and g.p(.4):
                return str(_date(g.day + g.between(-4, 4)))
            if near is not None and g.p(.5):
                return str(_date(max(_days(y), min(
                    _days(y + 1) - 1, g.day + g.between(-60, 60)))))
            return '%04d-%02d-%02d' % (
                y, *g.wpick([((1, 1), 2), ((12, 31), 2),
                             ((g.between(1, 12), g.between(1, 28)), 3)]))
        if g.p(.93):
            kw['custom_start'] = day(y)
        if g.p(.93) or 'custom_start' not in kw:
            kw['custom_end'] = day(y1)
        if 'custom_start' in kw and 'custom_end' in kw and g.p(.97) and \
                kw['custom_start'] > kw['custom_end']:
            kw['custom_start'], kw['custom_end'] = \
                kw['custom_end'], kw['custom_start']
        if 'custom_start' not in kw and y1 > lo + 4 and g.p(.8):
            kw['custom_start'] = '%04d-01-01' % y1
        if 'custom_end' not in kw and y < hi - 4 and g.p(.8):
            kw['custom_end'] = '%04d-12-31' % y
    if g.p(.02):
        kw['custom_start'] = g.pick(['1999-12-31', '2030-01-01'])
    if g.p(.25):
        kw['bkind'] = g.pick(['ts', 'dt', 'date', 'per', 'np'])
    if g.p(.15):
        for k in ('custom_start', 'custom_end'):
            if k in kw and not (k == 'custom_start' and
                                kw.get('custom_end') == kw[k]):
                kw[k] += g.pick([' 00:00:01', ' 13:45', ' 23:59:59'])
    r = g.between(0, 19)
    if r == 0:
        kw['do_not_amend'] = True
    if r in (1, 2):
        kw['only_custom_amendments'] = True
        kw['custom_amendments'] = []
    if g.p(.3) or 'custom_amendments' in kw:
        a, z = 10957 + 365 * (lo - 2000), 10957 + 365 * (hi - 2000)
        if 'custom_start' in kw:
            a = 10957 + 365 * (int(kw['custom_start'][:4]) - 2000)
            z = a + 400
        import datetime
        seen = {}
        for _ in range(g.between(0, 4)):
            d = datetime.date(1970, 1, 1) + datetime.timedelta(
                days=g.between(a, max(a, z)))
            seen[str(d)] = g.pick([0, 8, 7, 4])
        seen = {d + g.wpick([('', 6), (' 08:30', 1), (' 23:59:59', 1)]): v
                for d, v in sorted(seen.items())}
        if g.p(.3):
            kw['akind'] = g.pick(['ts', 'dt', 'date', 'per', 'np'])
        kw['custom_amendments'] = [[k, v] for k, v in sorted(seen.items())]
    if cc in ('US', 'UK'):
        if g.p(.45):
            kw['do_not_observe'] = sorted(set(
                g.pick(HOLS[cc]) for _ in range(g.between(1, 4))))
            kw['dno_kind'] = g.pick(['set', 'list', 'tuple'])
        if g.p(.35):
            kw['long_weekends'] = g.p(.5)
    if cc == 'UK' and g.p(.7):
        kw['country'] = g.pick(['england', 'scotland', 'northern_ireland'])
    if cc == 'RU':
        if g.p(.5):
            kw['work_on_dec31'] = g.p(.5)
        if g.p(.5):
            kw['short_eves'] = g.p(.5)
    return kw


def am_kw(kw):
    """Arguments of the `amendments` method."""
    return {k: v for k, v in kw.items()
            if k not in ('do_not_amend', 'only_custom_amendments')}


def cal_op(g, cc=None, span=None):
    cc = cc or g.pick(['US', 'UK', 'RU'])
    return {'op': 'cal', 'cc': cc, 'kw': cal_kw(g, cc, span)}


def ucals(g, n, pat=False):
    """Calendar classes of the caller's own."""
    g.sc['ucals'] = []
    for _ in range(n):
        for _ in range(20):
            spec, m = g.board(small=True)
            if m.labels is not None and not spec['layout'].get('user') and \
                    ('pat' in spec['layout'] or not pat):
                break
        else:
            continue
        spec = _copy(spec)
        am = {k: v for k, v in spec.pop('amend', [])}
        for k in ('akinds', 'amap'):
            spec.pop(k, None)
        unit = UNIT[spec['freq']]
        if spec['start'] > spec['end']:
            continue
        for _ in range(g.between(0, 5)):
            am[g.between(spec['start'] - unit, spec['end'] + unit)
               // (60 * NS_S) * 60 * NS_S] = g.pick(SETS[spec['fam']])
        g.sc['ucals'].append({
            'spec': spec, 'am': [[k, v] for k, v in sorted(am.items())],
            'share': g.p(.4), 'pk': g.pick(['ts', 'ts', 'str', 'dt'])})


def ucal_op(g):
    i = g.between(0, len(g.sc['ucals']) - 1)
    u = g.sc['ucals'][i]
    s = u['spec']
    lo, hi = s['start'], s['end']

    def some(oob=0.):
        if g.p(oob):
            return g.pick([lo - NS_S, hi + NS_S, lo - 3 * DAY])
        return g.wpick([(g.between(lo, hi) // NS_S * NS_S, 5),
                        (lo, 1), (hi // NS_S * NS_S, 1)])
    op = {'op': 'ucal', 'u': i, 'k': g.kind(.1)}
    if g.p(.6):
        op['start'] = some(.06)
    if g.p(.6):
        op['end'] = some(.06)
    if op.get('start') and op.get('end') and op['start'] > op['end'] and \
            g.p(.95):
        op['start'], op['end'] = op['end'], op['start']
    for k, v in (('start', lo), ('end', hi)):
        if k in op and op[k] < lo and v == lo:
            op[k] = max(op[k], lo) if g.p(.9) else op[k]
    if g.p(.1):
        op['dna'] = g.p(.8)
    if g.p(.15):
        op['oca'] = g.p(.8)
    if g.p(.4):
        op['ca'] = [[some(), g.pick(SETS[s['fam']])]
                    for _ in range(g.between(0, 3))]
    if g.p(.3):
        op['extra'] = g.pick(SETS[s['fam']])
    return op


def helper_op(g):
    """One of the functions calendars are made of, often asked much the same
    as before."""
    last = getattr(g, 'last_helper', None)
    op = new_helper_op(g)
    if last is not None and g.p(.45):
        for _ in range(20):
            if op['f'] == last['f'] and op.get('cc') == last.get('cc'):
                break
            op = new_helper_op(g)
        else:
            return op
        keep = [k for k in sorted(set(op) | set(last))
                if k not in ('op', 'f', 'cc')]
        n = g.wpick([(0, 1), (1, 5), (2, 2)])
        new = set(g.pick(keep) for _ in range(n))
        for k in keep:
            if k not in new:
                op.pop(k, None)
                if k in last:
                    op[k] = _copy(last[k])
        if op['f'] == 'hol' and op['y0'] > op['y1']:
            op['y1'] = op['y0']
    g.last_helper = op
    return _copy(op)


def new_helper_op(g):
    f = g.wpick([('extend_weekends', 3), ('nth', 3), ('from_easter', 3),
                 ('hol', 2)])
    op = {'op': 'helper', 'f': f, 'scribble': g.p(.4)}
    year = g.between(2000, 2021)
    if g.day is not None and g.p(.6) and \
            2000 <= _date(g.day).year <= 2021:
        year = _date(g.day).year
    if f == 'hol':
        op['cc'] = g.pick(['US', 'UK'])
        op['y0'] = year
        op['y1'] = year + g.wpick([(0, 3), (1, 2), (2, 1)])
        op['label'] = g.pick([0, 0, 5, 'x'])
        op['long'] = g.p(.6)
        if g.p(.5):
            op['dno'] = sorted(set(g.pick(HOLS[op['cc']])
                                   for _ in range(g.between(1, 4))))
        if op['cc'] == 'UK' and g.p(.7):
            op['country'] = g.pick(['england', 'scotland',
                                    'northern_ireland'])
    elif f == 'extend_weekends':
        base = g.between(11000, 18000)
        d = {}
        for _ in range(g.between(1, 5)):
            d[(base + g.between(0, 9)) * DAY] = g.pick([0, 4])
        op['d'] = [[k, v] for k, v in sorted(d.items())]
        op['how'] = g.pick(['previous', 'next', 'nearest'])
        if g.p(.3):
            op['label'] = g.pick([0, 5, 'x'])
        if g.p(.35):
            a, n = g.between(0, 6), g.between(1, 4)
            op['weekend'] = [(a + i) % 7 for i in range(n)]
    elif f == 'nth':
        op['year'] = year
        op['label'] = g.pick([0, 5])
        op['dates'] = []
        if g.p(.2):
            op['errors'] = g.pick(['raise', 'raise', 'ignore'])
        for _ in range(g.between(1, 4)):
            t = [g.between(1, 12), g.between(1, 7),
                 g.pick([1, 2, 3, 4, -1, -2, 5, -5])]
            if g.p(.3):
                t.append(g.between(-5, 5))
            op['dates'].append(t)
    else:
        op['year'] = year
        op['label'] = g.pick([0, 5])
        op['et'] = g.pick(['western', 'orthodox'])
        op['shifts'] = [g.between(-40, 40) for _ in range(g.between(1, 3))]
        if g.p(.35):        # as the calendar of the UK does
            op['et'] = 'western'
            op['shifts'] = g.pick([[-2, 1], [-2]])
    return op


def mixed_kw(g, cc, kw):
    """Another calendar over the same dates with other options."""
    new = cal_kw(g, cc)
    for k in ('custom_start', 'custom_end'):
        new.pop(k, None)
        if k in kw:
            new[k] = kw[k]
    return new


def subs(g, cc):
    """Classes derived from a shipped calendar."""
    import datetime
    g.sc['subs'] = []
    span = [datetime.date.fromisoformat(x)
            for x in CAL[cc]]
    for _ in range(g.wpick([(0, 5), (1, 4), (2, 2)])):
        u = {'cc': cc}
        a, z = span
        days = lambda lo, hi: str(lo + datetime.timedelta(
            days=g.between(0, (hi - lo).days)))
        if g.p(.7):
            x, y = days(a, z), days(a, z)
            u['lo'], u['hi'] = min(x, y), max(x, y)
        if g.p(.7):
            a, z = [datetime.date.fromisoformat(x)
                    for x in (u.get('lo', str(a)), u.get('hi', str(z)))]
            u['am'] = [[days(a, z), g.pick([0, 8, 5])]
                       for _ in range(g.between(0, 4))]
        g.sc['subs'].append(u)


def derived(g, op):
    if not g.sc['subs'] or not g.p(.4):
        return
    op['sub'] = g.between(0, len(g.sc['subs']) - 1)
    u = g.sc['subs'][op['sub']]
    for k in ('custom_start', 'custom_end'):
        x = op['kw'].get(k)
        if x and u.get('lo') and not u['lo'] <= x[:10] <= u['hi'] and \
                g.p(.9):
            op['kw'][k] = g.pick([u['lo'], u['hi']])
    if op['kw'].get('custom_start') and op['kw'].get('custom_end') and \
            op['kw']['custom_start'][:10] > op['kw']['custom_end'][:10]:
        del op['kw'][g.pick(['custom_start', 'custom_end'])]


def c15(g):
    n = g.wpick([(1, 5), (2, 5)])
    cc0 = g.pick(['US', 'UK', 'RU'])
    kw0 = cal_kw(g, cc0)
    ucals(g, g.wpick([(0, 4), (1, 4), (2, 1)]))
    subs(g, cc0)
    for t in range(n):
        ops = []
        for _ in range(g.between(1, 3)):
            k = g.wpick([('near', 5), ('any', 3), ('helper', 1.5),
                         ('mut', .7), ('own', 4 if g.sc['ucals'] else 0)])
            if k == 'near':
                ops.append({'op': 'cal', 'cc': cc0,
                            'kw': mixed_kw(g, cc0, kw0) if g.p(.7)
                            else cal_kw(g, cc0)})
                derived(g, ops[-1])
            elif k == 'any':
                ops.append(cal_op(g))
            elif k == 'own':
                ops.append(ucal_op(g))
            elif k == 'helper':
                ops.append(helper_op(g))
            else:
                ops.append(g.pick([
                    {'op': 'mut', 'what': 'params', 'cc': cc0},
                    {'op': 'mut', 'what': 'calam', 'cc': cc0,
                     'kw': am_kw(mixed_kw(g, cc0, kw0))}]))
        g.sc['tasks'].append(ops)
    if g.p(.35):
        add_faults(g, .4, ('cal', 'ucal'))
    g.schedule()
    g.sc['post'].append({'op': 'cal', 'cc': cc0, 'kw': kw0})
    if g.sc['subs'] and g.p(.6):
        op = {'op': 'cal', 'cc': cc0, 'kw': mixed_kw(g, cc0, kw0)}
        derived(g, op)
        g.sc['post'].append(op)
    if g.sc['ucals']:
        g.sc['post'].append(ucal_op(g))
        g.sc['post'].append({'op': 'ucal', 'u': 0})
    if g.p(.3):
        g.sc['post'].append(cal_op(g))


PROFILES = {'C%02d' % i: f for i, f in enumerate(
    [c01, c02, c03, c04, c05, c06, c07, c08, c09, c10, c11, c12, c13, c14,
     c15], 1)}
