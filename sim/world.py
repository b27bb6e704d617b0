"""Runs a scenario against the real library: builds the objects, executes the
operations of each task under the kernel, records the history."""
import ast
import calendar
import collections.abc
import copy
import ctypes
import gc
import os
import random
import re
import sys
import threading
import time

import numpy as np
import pandas as pd

from . import kernel as kern
from .model import norm, selector_fn, NS_S

tb = None       # the library, set by load()
_clk = None


def load():
    global tb, _clk
    kern.patch_threading()
    import timeboard
    import timeboard.calendars.US
    import timeboard.calendars.UK
    import timeboard.calendars.RU
    import timeboard.calendars.calendarbase
    tb = timeboard
    kern.install(os.path.dirname(os.path.abspath(timeboard.__file__)) + os.sep)
    kern.LIB_ERRORS[:] = [tb.OutOfBoundsError, tb.VoidIntervalError]
    lib = ctypes.CDLL(None)
    try:
        lib.simclock_set.argtypes = [ctypes.c_longlong]
        lib.simclock_reads.restype = ctypes.c_ulonglong
        _clk = lib
    except AttributeError:
        _clk = None
    pd.set_option('display.width', 100000)
    pd.set_option('display.max_columns', None)
    pd.set_option('display.max_rows', None)
    warm()


def warm():
    """Let dependencies finish their lazy initialisation before forking, so
    that it is no part of any run.  Uses dependencies only."""
    s = pd.Series([1, 2, 3], index=pd.period_range('2017-01-01', periods=3,
                                                   freq='D'))
    s.apply(bool)
    pd.DataFrame({'a': [1]}, columns=['a']).set_index('a')
    str(pd.DataFrame({'a': [1.0]}))
    for f in ('H', 'D', 'W', 'M', 'Q', 'A', 'T', 'S'):
        pd.Period('2017-01-05', freq=f).start_time
    pd.Timestamp('05 Jan 2017 10:00')
    pd.Timestamp('2016-01-01') + pd.DateOffset(days=1, months=1)
    pd.date_range('2017-01-01', periods=2)


def set_clock(ns):
    if _clk is not None:
        _clk.simclock_set(int(ns))


def clock_reads():
    return int(_clk.simclock_reads()) if _clk is not None else 0


def ts_str(ns):
    return pd.Timestamp(ns).strftime('%d %b %Y %H:%M:%S')


class Skip(Exception):
    pass


# Calls with wrong arguments: what they are documented to raise.
BAD = {
    'iv-int': ('TypeError', lambda b, w, v, t: tb.Interval(b, 5)),
    'iv-one': ('IndexError', lambda b, w, v, t: tb.Interval(b, (1,))),
    'iv-str': ('TypeError', lambda b, w, v, t: tb.Interval(b, (0, 'a'))),
    'iv-oob': ('OutOfBoundsError',
               lambda b, w, v, t: tb.Interval(b, (0, 10 ** 6))),
    'iv-neg': ('OutOfBoundsError', lambda b, w, v, t: tb.Interval(b, (-1, 0))),
    'iv-sch': ('TypeError', lambda b, w, v, t: tb.Interval(b, (0, 0), 'x')),
    'ws-str': ('TypeError', lambda b, w, v, t: tb.Workshift(b, 'a')),
    'ws-oob': ('OutOfBoundsError',
               lambda b, w, v, t: tb.Workshift(b, 10 ** 6)),
    'ws-sch': ('TypeError', lambda b, w, v, t: tb.Workshift(b, 0, 'x')),
    'gi-closed': ('ValueError',
                  lambda b, w, v, t: b.get_interval(closed='2x')),
    'gi-both': ('TypeError', lambda b, w, v, t: b.get_interval(
        t, length=2, period='W')),
    'gi-flt': ('TypeError', lambda b, w, v, t: b.get_interval(t, length=1.5)),
    'gi-two': ('TypeError', lambda b, w, v, t: b.get_interval(t, t)),
    'gi-zero': ('VoidIntervalError', lambda b, w, v, t: b.get_interval(
        t, length=0)),
    'gi-int': ('TypeError', lambda b, w, v, t: b.get_interval(5)),
    'gi-word': ('TypeError', lambda b, w, v, t: b.get_interval('garbage')),
    'gi-words': ('ValueError', lambda b, w, v, t: b.get_interval(
        ('garbage', t))),
    'gi-freq': ('ValueError', lambda b, w, v, t: b.get_interval(
        t, period='ZZ')),
    'gi-one': ('TypeError', lambda b, w, v, t: b.get_interval((t,))),
    'gi-sch': ('TypeError', lambda b, w, v, t: b.get_interval(schedule='x')),
    'call-word': ('TypeError', lambda b, w, v, t: b('garbage')),
    'call-obj': ('TypeError', lambda b, w, v, t: b(object())),
    'call-both': ('TypeError', lambda b, w, v, t: b(t, length=2, period='W')),
    'call-one': ('TypeError', lambda b, w, v, t: b([t])),
    'gw-word': ('ValueError', lambda b, w, v, t: b.get_workshift('garbage')),
    'gw-obj': ('TypeError', lambda b, w, v, t: b.get_workshift(object())),
    'gw-sch': ('TypeError', lambda b, w, v, t: b.get_workshift(
        w.start_time, schedule='x')),
    'w-add': ('TypeError', lambda b, w, v, t: w + 'a'),
    'w-sub': ('TypeError', lambda b, w, v, t: w - w),
    'w-far': ('OutOfBoundsError', lambda b, w, v, t: w.rollforward(
        10 ** 6, duty='any')),
    'w-back': ('OutOfBoundsError', lambda b, w, v, t: w.rollback(
        10 ** 6, duty='any')),
    'w-rf': ('ValueError', lambda b, w, v, t: w.rollforward(1, duty='zz')),
    'w-rb': ('ValueError', lambda b, w, v, t: w.rollback(0, duty='zz')),
    'w-wt': ('ValueError', lambda b, w, v, t: w.worktime(duty='zz')),
    'v-nth': ('OutOfBoundsError', lambda b, w, v, t: v.nth(10 ** 6, 'any')),
    'v-nthn': ('OutOfBoundsError', lambda b, w, v, t: v.nth(-10 ** 6, 'any')),
    'v-count': ('ValueError', lambda b, w, v, t: v.count('zz')),
    'v-list': ('ValueError', lambda b, w, v, t: list(v.workshifts('zz'))),
    'v-dur': ('ValueError', lambda b, w, v, t: v.total_duration('zz')),
    'v-wt': ('ValueError', lambda b, w, v, t: v.worktime('zz')),
    'v-cp': ('UnacceptablePeriodError',
             lambda b, w, v, t: v.count_periods('ZZ')),
    'tb-lay': ('TypeError', lambda b, w, v, t: tb.Timeboard(
        'D', t, t, layout=5)),
    'tb-am': ('TypeError', lambda b, w, v, t: tb.Timeboard(
        'D', t, t, layout=[1], amendments=5)),
    'tb-wt': ('ValueError', lambda b, w, v, t: tb.Timeboard(
        'D', t, t, layout=[1], worktime_source='zz')),
    'tb-rev': ('VoidIntervalError', lambda b, w, v, t: tb.Timeboard(
        'D', t, t - pd.Timedelta(days=2), layout=[1])),
    'tb-amb': ('UnacceptablePeriodError', lambda b, w, v, t: tb.Timeboard(
        'W', t, t + pd.Timedelta(days=90),
        layout=tb.Organizer(marker='M', structure=[[1]]))),
    'og-both': ('ValueError', lambda b, w, v, t: tb.Organizer(
        marker='W', marks=[t], structure=[[1]])),
    'og-none': ('ValueError', lambda b, w, v, t: tb.Organizer(
        structure=[[1]])),
    'og-int': ('TypeError', lambda b, w, v, t: tb.Organizer(
        marker='W', structure=5)),
}


def day_kind(s, kind):
    """A date (as a string) in another form."""
    if kind == 'ts':
        return pd.Timestamp(s)
    if kind == 'dt':
        return pd.Timestamp(s).to_pydatetime()
    if kind == 'date':
        return pd.Timestamp(s).date()
    if kind == 'per':
        return pd.Period(s, freq='D')
    if kind == 'np':
        return np.datetime64(s.replace(' ', 'T'))
    return s


class Named(object):
    """Something that is not a string but has a name."""

    def __init__(self, name):
        self.name = name

    def __str__(self):
        return self.name


def name_kind(name, kind):
    if kind == 'obj':
        return Named(name)
    if kind == 'lit':
        try:
            return ast.literal_eval(name)
        except (ValueError, SyntaxError):
            return name
    return name


class World(object):
    def __init__(self, sc):
        self.sc = sc
        self.k = kern.Kernel(sc)
        self.history = []
        self.watched = []       # (what, object, deep copy)
        self.lists = []         # (what, list, its elements)
        self.kept = []          # (dictionary, copy, what)
        self.ucals = []
        self.rps = []
        self.orgs = []
        self.inputs = {}        # names of mutable inputs
        self.boards = {}
        self.handles = {}       # key -> (schedule object, selector spec)
        self.ivls = {}
        self.wss = {}
        self.its = {}
        self.cur = threading.local()
        self.objs = []          # schedule identities seen: (uid, object)
        self.clock = int(sc.get('clock0') or 1500000000 * NS_S)
        self.clock_moved = 0
        self.cbcount = {}
        self.sels = {}

    # ------------------------------------------------ callbacks
    def on_callback(self, kind):
        self.cbcount[kind] = self.cbcount.get(kind, 0) + 1
        k = self.k
        k.callback_point(kind)
        if not k.active:
            return
        t = k.current
        re = getattr(self.cur, 're', None)
        if re:
            for e in list(re):
                if t.cev >= e[0]:
                    re.remove(e)
                    saved, self.cur.re = self.cur.re, None
                    try:
                        self.run_op(t, e[1], nested=True)
                    finally:
                        self.cur.re = saved

    def sel(self, spec, b=None):
        """A selector function; callers may use one function many times."""
        if not self.sc.get('selshare'):
            return self.new_sel(spec, b)
        key = repr((spec, b if spec[0] == 'tog' else None))
        if key not in self.sels:
            self.sels[key] = self.new_sel(spec, b)
        return self.sels[key]

    def new_sel(self, spec, b=None):
        f = selector_fn(spec)
        w = self
        if spec[0] == 'tog':
            n = [0]

            def busy_selector(x):
                w.on_callback('selector')
                n[0] += 1
                if n[0] % spec[1] == 0:
                    w.toggle(b)
                return f(x)
            return busy_selector

        def selector(x):
            w.on_callback('selector')
            return f(x)
        return selector

    def toggle(self, b):
        """What a selector does which changes the schedules all the time."""
        b = self.boards.get(b)
        if b is None or not self.k.active:
            return
        name = '~tog'
        try:
            if name in b.schedules:
                b.drop_schedule(b.schedules[name])
            else:
                b.add_schedule(name, bool)
        except KeyError as e:       # another caller was faster
            t = self.k.current
            if t is not None and e is t.injected:
                raise

    def point(self, ns, kind):
        if kind == 'ts':
            return pd.Timestamp(ns)
        if kind == 'dt':
            return pd.Timestamp(ns).to_pydatetime()
        if kind == 'obj':
            return Point(self, ns)
        if kind and kind.startswith('per:'):
            return pd.Period(pd.Timestamp(ns), freq=kind[4:])
        return ts_str(ns)

    def user_how(self, pi, normalize_by=None, **kw):
        self.on_callback('how')
        only = kw.pop('only', None)
        off = pd.DateOffset(**kw)
        t0 = pd.Timestamp('2004-01-01')
        if t0 + off < t0:
            return pd.DatetimeIndex([])
        res = []
        for p in pd.PeriodIndex(pi):
            if only is not None and p.start_time.month not in only:
                continue
            t = p.start_time + off
            if normalize_by is not None:
                t = pd.Period(t, freq=normalize_by).start_time
            if t <= p.end_time:
                res.append(t)
        return pd.DatetimeIndex(res)

    # ------------------------------------------------ setup
    def watch(self, what, obj):
        self.watched.append((what, obj, copy.deepcopy(obj)))
        return obj

    def make_org(self, spec, idx, orgs=None):
        """`idx` is None for an organizer made for one build only."""
        if orgs is None:
            orgs = self.orgs
        keep = self.inputs if idx is not None else {}
        st = spec['structure']
        if isinstance(st, dict):
            structure = self.rps[st['rp']]
        else:
            structure = []
            for e in st:
                if 'pat' in e:
                    p = list(e['pat'])
                    if e.get('tuple'):
                        p = tuple(p)
                    elif e.get('user'):
                        p = Pattern(self, p)
                    else:
                        keep.setdefault('pats%s' % idx, []).append(p)
                        self.lists.append(('pattern', p, p[:]))
                    structure.append(p)
                elif 'rp' in e:
                    structure.append(self.rps[e['rp']])
                elif 'org' in e:
                    structure.append(orgs[e['org']])
                else:
                    structure.append(e['label'])
            if spec.get('st_of') is not None and idx is not None:
                structure = orgs[spec['st_of']].structure
            keep['structure%s' % idx] = structure
            if isinstance(structure, list):
                self.lists.append(('structure', structure, structure[:]))
        if spec.get('marker'):
            mk = spec['marker']
            if spec.get('mk_of') is not None and idx is not None:
                return tb.Organizer(marker=orgs[spec['mk_of']].marker,
                                    structure=structure)
            at = copy.deepcopy(mk.get('at'))
            if at is not None:
                if idx is not None:
                    self.watch('at list of organizer %s' % idx, at)
                keep['at%s' % idx] = at
            how = mk.get('how') or 'from_start_of_each'
            if how == 'user':
                how = self.user_how
            if at is None and mk.get('plain'):
                m = mk['each']
            else:
                m = tb.Marker(each=mk['each'], at=at, how=how)
            return tb.Organizer(marker=m, structure=structure)
        marks = [self.point(m, k) for m, k in zip(
            spec['marks'], spec.get('mkinds') or ['str'] * 99)]
        keep['marks%s' % idx] = marks
        self.lists.append(('marks', marks, marks[:]))
        return tb.Organizer(marks=marks, structure=structure)

    def fresh_org(self, i):
        """A new organizer object like number `i`, all parts new too."""
        spec = self.sc['orgs'][i]
        sub = dict(enumerate(self.orgs))
        st = spec['structure']
        if not isinstance(st, dict):
            for e in st:
                if 'org' in e:
                    sub[e['org']] = self.fresh_org(e['org'])
        return self.make_org(spec, None, sub)

    def build(self, spec, name=None):
        """A real board from its spec."""
        lay = spec['layout']
        if 'pat' in lay:
            layout = list(lay['pat'])
            if lay.get('user'):
                layout = Pattern(self, layout)
            elif name is not None or not spec.get('free'):
                self.watch('layout', layout)
        elif lay.get('fresh'):
            layout = self.fresh_org(lay['org'])
        else:
            layout = self.orgs[lay['org']]
        kw = {}
        am = spec.get('amend')
        if am is not None:
            d = {}
            for i, (key, v) in enumerate(am):
                d[self.point(key, (spec.get('akinds') or ['str'])[
                    i % len(spec.get('akinds') or ['str'])])] = v
            if spec.get('amap'):
                kw['amendments'] = Items(self, d)
            else:
                kw['amendments'] = d
                if (name is not None or not spec.get('free')) and \
                        not any(isinstance(x, Point) for x in d):
                    self.watch('amendments', d)
            if name is not None:
                self.inputs['amend:' + name] = d
        if name is not None and isinstance(layout, list):
            self.inputs['layout:' + name] = layout
        if spec.get('sel') is not None:
            kw['default_selector'] = self.sel(spec['sel'], name)
        for a, b in (('defname', 'default_name'), ('wsref', 'workshift_ref'),
                     ('deflabel', 'default_label'),
                     ('wtsrc', 'worktime_source')):
            if spec.get(a) is not None:
                kw[b] = spec[a]
        pk = spec.get('pkind') or 'str'
        return tb.Timeboard(spec['freq'], self.point(spec['start'], pk),
                            self.point(spec['end'], pk), layout, **kw)

    def make_ucal(self, i, u):
        """The caller's own calendar class."""
        me = self

        def made():
            pk = u.get('pk') or 'ts'
            spec = u['spec']
            lay = spec['layout']
            p = {'base_unit_freq': spec['freq'],
                 'start': me.point(spec['start'], pk),
                 'end': me.point(spec['end'], pk),
                 'layout': list(lay['pat']) if 'pat' in lay
                 else me.orgs[lay['org']]}
            for a, b in (('defname', 'default_name'),
                         ('wsref', 'workshift_ref'),
                         ('deflabel', 'default_label'),
                         ('wtsrc', 'worktime_source')):
                if spec.get(a) is not None:
                    p[b] = spec[a]
            if spec.get('sel') is not None:
                p['default_selector'] = me.sel(spec['sel'])
            return p
        kept = made() if u.get('share') else None
        if kept is not None:
            self.kept.append((kept, dict(kept),
                              'parameters of calendar %d' % i))

        class Own(tb.calendars.calendarbase.CalendarBase):
            @classmethod
            def parameters(cls):
                me.on_callback('params')
                return made() if kept is None else kept

            @classmethod
            def amendments(cls, custom_start=None, custom_end=None,
                           custom_amendments=None, extra=None):
                me.on_callback('calam')
                r = {}
                for k, v in u['am']:
                    k = pd.Timestamp(k)
                    if custom_start <= k <= custom_end:
                        r[k] = v if extra is None else extra
                r.update(custom_amendments or {})
                return r
        return Own

    def ucal(self, op):
        kw = {}
        for a, b in (('start', 'custom_start'), ('end', 'custom_end')):
            if op.get(a) is not None:
                kw[b] = self.point(op[a], op.get('k'))
        for a, b in (('dna', 'do_not_amend'),
                     ('oca', 'only_custom_amendments')):
            if op.get(a) is not None:
                kw[b] = op[a]
        if op.get('ca') is not None:
            kw['custom_amendments'] = {pd.Timestamp(a): b
                                       for a, b in op['ca']}
            self.watch('custom_amendments', kw['custom_amendments'])
        if op.get('extra') is not None:
            kw['extra'] = op['extra']
        return self.ucals[op['u']](**kw)

    def setup(self):
        sc = self.sc
        random.seed(sc.get('seed', 0))
        np.random.seed(sc.get('seed', 0) % (2 ** 32))
        set_clock(self.clock)
        if sc.get('tz'):
            os.environ['TZ'] = sc['tz']
            time.tzset()
        for labels in sc.get('rps') or []:
            self.rps.append(tb.RememberingPattern(list(labels)))
        for i, o in enumerate(sc.get('orgs') or []):
            self.orgs.append(self.make_org(o, i))
        for i, u in enumerate(sc.get('ucals') or []):
            self.ucals.append(self.make_ucal(i, u))
        self.subs = [self.make_sub(u) for u in sc.get('subs') or []]
        self.setup_records = []
        for i, b in enumerate(sc.get('boards') or []):
            key = 'b%d' % i
            if b.get('late'):
                continue
            try:
                x = self.build(b, key)
                self.boards[key] = x
                self.setup_records.append(
                    [key, 'ok', self.rd_board(x) if sc.get('rdset', True)
                     else None])
            except Exception as e:
                self.setup_records.append([key, type(e).__name__])
        for key, b in sorted(self.boards.items()):
            self.handles['D' + key[1:]] = b.default_schedule
        for key, b, name, sel in sc.get('scheds') or []:
            if b in self.boards:
                s = self.boards[b].add_schedule(name, self.sel(sel, b))
                self.handles[key] = s
        self.handles0 = dict(self.handles)
        for i, v in enumerate(sc.get('ivls') or []):
            try:
                self.ivls['i%d' % i] = self.get_ivl(v)
            except Exception as e:
                self.setup_records.append(['i%d' % i, type(e).__name__])
        for i, v in enumerate(sc.get('wss') or []):
            try:
                self.wss['w%d' % i] = self.get_ws(v)
            except Exception as e:
                self.setup_records.append(['w%d' % i, type(e).__name__])

    # ------------------------------------------------ reading values
    def board(self, key):
        if key not in self.boards:
            raise Skip()
        return self.boards[key]

    def sch(self, key):
        if key is None:
            return None
        if key == 'def':
            raise Skip()
        if key not in self.handles:
            raise Skip()
        return self.handles[key]

    def rd_ws(self, w):
        return ['ws', w.start_time.value, w.end_time.value, norm(w.duration),
                norm(w.label), w.to_timestamp().value, w.schedule.name]

    def rd_ivl(self, v):
        s, e = v.start_time, v.end_time
        if s is pd.NaT:
            return ['void', len(v), v.schedule.name, repr(v)]
        return ['ivl', s.value, e.value, v.length, v.schedule.name, repr(v)]

    def get_ws(self, op):
        b = self.board(op['b'])
        via = op.get('via') or 'get'
        s = self.sch(op.get('s'))
        if via == 'ctor':
            return tb.Workshift(b, op['pos'], s)
        if op.get('k') == 'ws':
            p = self.wss.get(op['w'])
            if p is None:
                raise Skip()
        else:
            p = self.point(op['at'], op.get('k'))
        if via == 'call' and s is None:
            return b(p)
        return b.get_workshift(p, schedule=s) if s is not None \
            else b.get_workshift(p)

    def get_ivl(self, op):
        b = self.board(op['b'])
        kind = op['kind']
        s = self.sch(op.get('s'))
        if kind == 'pos':
            loc = (op['a'], op['z'])
            if op.get('wb') or op.get('lst'):
                loc = [tb.Workshift(b, x) if op.get('wb') else x for x in loc]
            v = tb.Interval(b, loc, s)
            if op.get('lst'):       # the caller uses the list for another one
                loc[:] = [0, 0]
            return v
        k = op.get('k')
        kw = {}
        if op.get('closed'):
            kw['closed'] = op['closed']
        if s is not None:
            kw['schedule'] = s
        f = b if op.get('via') == 'call' else b.get_interval
        if kind == 'all':
            return f(**kw)
        if kind == 'pts':
            ref = (None if op['a'] is None else self.point(op['a'], k),
                   None if op['z'] is None else self.point(op['z'], k))
            return f(ref, **kw)
        if kind == 'len':
            return f(self.point(op['a'], k), length=op['n'], **kw)
        if op.get('clip') is not None:
            kw['clip_period'] = op['clip']
        if kind == 'pp':
            return b.get_interval(pd.Period(pd.Timestamp(op['a']),
                                            freq=op['f']), **kw)
        return f(self.point(op['a'], k), period=op['f'], **kw)

    def kw(self, duty, s):
        kw = {}
        if duty is not None:
            kw['duty'] = duty
        s = self.sch(s)
        if s is not None:
            kw['schedule'] = s
        return kw

    def ws_do(self, w, d):
        m = d[0]
        if m == 'read':
            return self.rd_ws(w)
        if m == 'repr':
            return [repr(w), w.compact_str]
        if m == 'str':
            return str(w).split('\n')[0]
        if m == 'duty':
            kw = self.kw(None, d[1])
            return [bool(w.is_on_duty(**kw)), bool(w.is_off_duty(**kw))]
        if m == 'rf':
            return self.rd_ws(w.rollforward(d[1], **self.kw(d[2], d[3])))
        if m == 'rb':
            return self.rd_ws(w.rollback(d[1], **self.kw(d[2], d[3])))
        if m == 'add':
            return self.rd_ws(w + d[1])
        if m == 'sub':
            return self.rd_ws(w - d[1])
        if m == 'wt':
            return norm(w.worktime(**self.kw(d[1], d[2])))
        raise ValueError(d)

    def other(self, op, x):
        if isinstance(x, str):
            if self.ivls.get(x) is None:
                raise Skip()
            return self.ivls[x]
        return tb.Interval(self.board(op['b']), tuple(x))

    def ivl_do(self, v, d, op):
        m = d[0]
        if m == 'read':
            return self.rd_ivl(v)
        if m == 'count':
            return norm(v.count(**self.kw(d[1], d[2])))
        if m == 'dur':
            return norm(v.total_duration(**self.kw(d[1], d[2])))
        if m == 'wt':
            return norm(v.worktime(**self.kw(d[1], d[2])))
        if m == 'nth':
            return self.rd_ws(v.nth(d[1], **self.kw(d[2], d[3])))
        if m == 'first':
            return self.rd_ws(v.first(**self.kw(d[1], d[2])))
        if m == 'last':
            return self.rd_ws(v.last(**self.kw(d[1], d[2])))
        if m == 'list':
            return [[w.start_time.value, norm(w.label), w.schedule.name]
                    for w in v.workshifts(**self.kw(d[1], d[2]))]
        if m == 'iter':
            return [[w.start_time.value, norm(w.label), w.schedule.name]
                    for w in v]
        if m == 'nest':         # nested loops over one interval
            res = []
            for n, x in enumerate(v):
                if n >= d[1]:
                    break
                res.append([x.start_time.value,
                            [y.start_time.value for y in v]])
            return res
        if m == 'zip':
            return [[x.start_time.value, y.start_time.value]
                    for x, y in zip(v, v.workshifts(duty='any'))]
        if m == 'pairs':
            return [[x.start_time.value, y.start_time.value]
                    for x, y in zip(v, v)]
        if m == 'cp':
            return norm(v.count_periods(d[1], **self.kw(d[2], d[3])))
        if m == 'ov':
            r = v.overlap(self.other(op, d[1]),
                          **({} if d[2] is None
                             else {'schedule': self.sch(d[2])}))
            return [self.rd_ivl(r), norm(r.count('any'))]
        if m == 'ovd':
            r = v.overlap(self.other(op, d[1]),
                          **({} if d[2] is None
                             else {'schedule': self.sch(d[2])}))
            return [self.sub(self.ivl_do, r, x, op) for x in d[3]]
        if m == 'mul':
            r = v * self.other(op, d[1])
            return [self.rd_ivl(r), norm(r.count())]
        if m == 'por':
            return norm(v.what_portion_of(self.other(op, d[1]),
                                          **self.kw(d[2], d[3])))
        if m == 'div':
            return norm(v / self.other(op, d[1]))
        if m == 'len':
            return [len(v), v.length]
        if m == 'df':
            return self.rd_df(v.to_dataframe())
        if m == 'str':
            return self.rd_print(str(v))
        raise ValueError(d)

    def rd_df(self, df):
        base = ['ws_ref', 'start', 'duration', 'end', 'label']
        cols = list(df.columns)
        rows = [[int(i), r[0].value, r[1].value, norm(r[2]), r[3].value,
                 norm(r[4])] for i, r in zip(
                     df.index, zip(*[df[c] for c in base]))]
        # column by position: names need not be unique in a broken table
        extra = [[str(c), [norm(x) for x in df.iloc[:, i]]]
                 for i, c in enumerate(cols) if c not in base]
        return ['df', cols[:5], rows, extra]

    def rd_print(self, s):
        """First line, the schedules' columns, the number of rows."""
        lines = s.split('\n')
        body = [l.split() for l in lines[1:] if l.strip()]
        base = ['ws_ref', 'start', 'duration', 'end', 'label']
        if len(body) < 2 or body[0][:5] != base or body[1] != ['loc']:
            return ['print', lines[0], None, -1, s[:300]]
        names = body[0][5:]
        rows = [l for l in body[2:] if not l[0].startswith('[')]
        m = len(names)
        word = {'True': True, 'False': False, '1': True, '0': False}
        extra = [[x, [word.get(l[len(l) - m + i]) for l in rows]]
                 for i, x in enumerate(names)]
        return ['print', lines[0], None, len(rows), extra]

    # ------------------------------------------------ operations
    def run_op(self, t, op, nested=False):
        k = self.k
        rec = {'t': t.tid if t else 'post', 'o': t.op if t else None,
               'op': op, 'inv': k.stamp(), 'nested': nested}
        self.history.append(rec)
        objs = rec['objs'] = []
        hot = k.hot
        try:
            try:
                val = self.perform(op, t, objs)
                out = ['ok', val]
            finally:
                rec['res'] = k.stamp()
                rec['hot'] = k.hot - hot
        except Skip:
            out = ['skip']
        except kern.SimDeadlock as e:
            out = ['deadlock', str(e)]
        except BaseException as e:
            inj = t is not None and e is t.injected
            out = ['exc', type(e).__name__, inj,
                   '' if inj else str(e)[:160]]
            if nested and inj:
                rec['out'] = out
                rec['fault'] = True
                raise
        rec['out'] = out
        rec['fault'] = t is not None and t.injected is not None
        if k.active:
            k.note('op', rec['t'], rec['o'], out[:2])

    def once(self, name):
        """A name for one use (an interrupted user may leave it behind)."""
        self.n_once = getattr(self, 'n_once', 0) + 1
        return '%s.%d' % (name, self.n_once)

    def uid(self, obj):
        for u, o in self.objs:
            if o is obj:
                return u
        u = 'x%d' % len(self.objs)
        self.objs.append((u, obj))
        return u

    def perform(self, op, t, objs):
        o = op['op']
        if o == 'ws':
            w = self.get_ws(op)
            return [self.sub(self.ws_do, w, d) for d in op['do']]
        if o == 'ivl':
            v = self.get_ivl(op)
            return [self.sub(self.ivl_do, v, d, op) for d in op['do']]
        if o == 'wsq':
            w = self.wss.get(op['w'])
            if w is None:
                raise Skip()
            return [self.sub(self.ws_do, w, d) for d in op['do']]
        if o == 'ivlq':
            v = self.ivls.get(op['i'])
            if v is None:
                raise Skip()
            return [self.sub(self.ivl_do, v, d, op) for d in op['do']]
        if o == 'add':
            s = self.board(op['b']).add_schedule(
                name_kind(op['name'], op.get('nk')),
                self.sel(op['sel'], op['b']))
            if op.get('as'):
                self.handles[op['as']] = s
            objs.append(s)
            return [s.name]
        if o == 'drop':
            b = self.board(op['b'])
            h = self.sch(op['h'])
            objs.append(h)
            b.drop_schedule(h)
            return None
        if o == 'get':
            s = self.board(op['b']).schedules[op['name']]
            objs.append(s)
            if op.get('as'):
                self.handles[op['as']] = s
            return [s.name]
        if o == 'names':
            d = self.board(op['b']).schedules
            return sorted(list(d))
        if o == 'has':
            return op['name'] in self.board(op['b']).schedules
        if o == 'df':
            x = self.table_src(op)
            if op.get('via') == 'tb' and op.get('a') is not None:
                return self.rd_df(x.to_dataframe(op['a'], op['z']))
            return self.rd_df(x.to_dataframe())
        if o == 'print':
            return self.rd_print(str(self.table_src(op)))
        if o == 'idx':
            s = self.sch(op['h'])
            return [[int(x) for x in s.on_duty_index],
                    [int(x) for x in s.off_duty_index],
                    [int(x) for x in s.index], s.name]
        if o == 'isd':
            s = self.sch(op['h'])
            return [bool(s.is_on_duty(op['pos'])),
                    bool(s.is_off_duty(op['pos'])), norm(s.label(op['pos']))]
        if o == 'bad':
            b = self.board(op['b'])
            w = tb.Workshift(b, op['pos'], self.sch(op.get('s')))
            v = tb.Interval(b, (op['a'], op['z']), self.sch(op.get('s')))
            at = pd.Timestamp(op['at'])
            return [self.sub(BAD[x][1], b, w, v, at) for x in op['what']]
        if o == 'defsch':
            b = self.board(op['b'])
            return [b.default_schedule.name,
                    [int(x) for x in b.default_schedule.on_duty_index],
                    b.get_interval().schedule.name]
        if o == 'tmp':          # a schedule that lives for one call
            b = self.board(op['b'])
            s = b.add_schedule(self.once(op['name']), self.sel(op['sel']))
            objs.append(s)
            r = [norm(b.get_interval(schedule=s).count(duty))
                 for duty in ('on', 'off', 'any')]
            r.append([w.start_time.value
                      for w in b.get_interval().workshifts('on', s)])
            b.drop_schedule(s)
            return r
        if o == 'churn':        # short-lived schedules, queried, then freed
            b = self.board(op['b'])
            res = []
            v0 = w0 = None
            if op.get('i') is not None:
                v0 = self.ivls.get(op['i']) if op['i'] else b.get_interval()
            if op.get('w') is not None:
                w0 = self.wss.get(op['w']) if op['w'] else tb.Workshift(b, 0)
            for i, sel in enumerate(op['sels']):
                s = b.add_schedule(self.once(op['name']), self.sel(sel))
                v = b.get_interval(schedule=s)
                res.append([norm(v.count()), norm(v.count('off')),
                            norm(b.get_interval().count(schedule=s)),
                            [w.start_time.value for w in v.workshifts()]])
                if v0 is not None:
                    res.append(self.sub(self.churned, v0, s))
                if w0 is not None:
                    for d in (op.get('duty') or 'on', 'off'):
                        res.append(self.sub(self.churned_ws, w0, s, d,
                                            op.get('n') or 0))
                b.drop_schedule(s)
                del s, v
                if op.get('gc'):
                    gc.collect()
            return res
        if o == 'build':
            name = op.get('as')
            b = self.build(op['spec'], name)
            r = self.rd_board(b)
            if name:
                self.boards[name] = b
            return r
        if o == 'board':
            return self.rd_board(self.board(op['b']))
        if o == 'series':       # built and dropped one after the other
            return [self.rd_board(self.build(x)) for x in op['specs']]
        if o == 'orphan':
            return self.orphan(op)
        if o == 'repr':
            return self.rd_repr(op['b'])
        if o == 'rpn':
            return norm(next(self.rps[op['rp']]))
        if o == 'cal':
            return self.rd_cal(op)
        if o == 'ucal':
            return self.rd_board(self.ucal(op))
        if o == 'calam':
            m = getattr(tb.calendars, op['cc']).Weekly8x5
            kw = self.cal_kw(op['kw'])
            r = m.amendments(**kw)
            return sorted([pd.Timestamp(a).value, norm(v)]
                          for a, v in r.items())
        if o == 'it_new':
            v = self.ivls.get(op['i'])
            if v is None:
                raise Skip()
            if op['kind'] == 'iter':
                it = iter(v)
            else:
                it = v.workshifts(**self.kw(op.get('duty'), op.get('s')))
            self.its[op['k']] = it
            return None
        if o == 'it_next':
            it = self.its.get(op['k'])
            if it is None:
                raise Skip()
            r = []
            for _ in range(op['n']):
                try:
                    w = next(it)
                except StopIteration:
                    r.append('stop')
                    break
                r.append([w.start_time.value, norm(w.label),
                          w.schedule.name])
            return r
        if o == 'it_close':
            it = self.its.get(op['k'])
            if it is None:
                raise Skip()
            if op.get('how') == 'del':
                del it
                del self.its[op['k']]
            elif op.get('how') == 'throw' and hasattr(it, 'throw'):
                self.its.pop(op['k'])
                try:
                    it.throw(kern.SimCancel('thrown'))
                except kern.SimCancel:
                    pass
                except StopIteration:
                    pass
            else:
                self.its.pop(op['k'])
                if hasattr(it, 'close'):
                    it.close()
            return None
        if o == 'env':
            return self.env(op)
        if o == 'mut':
            return self.mutate(op)
        if o == 'helper':
            return self.helper(op)
        if o == 'forget':
            self.handles.pop(op['h'], None)
            if op.get('gc'):
                gc.collect()
            return None
        raise ValueError(op)

    def table_src(self, op):
        b = self.board(op['b'])
        via, a = op.get('via'), op.get('a')
        if via == 'iv':
            if self.ivls.get(op['i']) is None:
                raise Skip()
            return self.ivls[op['i']]
        s = self.sch(op.get('s'))
        if via == 'ws':
            return tb.Workshift(b, a, s)
        if via == 'ivl':
            if a is not None:
                return tb.Interval(b, (a, op['z']), s)
            return b.get_interval() if s is None \
                else b.get_interval(schedule=s)
        return b

    def sub(self, f, *a):
        """One query of several: a documented error is a result."""
        try:
            return f(*a)
        except Skip:
            return ['skip']
        except Exception as e:
            t = self.k.current if self.k.active else None
            if t is not None and e is t.injected:
                raise
            return ['E', type(e).__name__]

    def rd_board(self, b):
        v = b.get_interval()
        rows = [[w.start_time.value, w.end_time.value, norm(w.duration),
                 norm(w.label), w.to_timestamp().value, bool(w.is_on_duty())]
                for w in v]
        return ['board', b.compact_str, b.start_time.value, b.end_time.value,
                v.length, rows, norm(v.count()), norm(v.count('off')),
                b.default_schedule.name]

    def churned(self, v, s):
        return [norm(v.count(schedule=s)), norm(v.count('off', s)),
                norm(v.total_duration('off', s)),
                [[w.start_time.value for w in v.workshifts(d, s)]
                 for d in ('off', 'on')]]

    def churned_ws(self, w, s, duty, n):
        return [bool(w.is_on_duty(s)),
                w.rollforward(n, duty, s).start_time.value]

    def orphan(self, op):
        """Parts of a board which nobody else holds any more."""
        b = self.build(op['spec'])
        s = None
        if op.get('sel') is not None:
            s = b.add_schedule('kept', self.sel(op['sel']))
        w = tb.Workshift(b, op['pos'], s)
        v = tb.Interval(b, (op['a'], op['z']), s)
        if s is None:
            s = b.default_schedule
        if op.get('it') and op.get('drop') not in ('ws', 'vs'):
            it = iter(v)
            next(it)
        if op.get('dropped'):
            b.drop_schedule(s)
        del b
        if op.get('drop') == 'ws':
            del w, s
        elif op.get('drop') == 'vs':
            del v, s
        if op.get('gc'):
            gc.collect()
        if op.get('drop') == 'ws':
            return [self.sub(self.ivl_do, v, d, op) for d in op['ido']]
        if op.get('drop') == 'vs':
            return [self.sub(self.ws_do, w, d) for d in op['wdo']]
        if op.get('drop') == 'w':
            del w
            return [[int(x) for x in s.on_duty_index], s.name] + \
                [self.sub(self.ivl_do, v, d, op) for d in op['ido']]
        if op.get('drop') == 'v':
            del v
            return [[int(x) for x in s.on_duty_index], s.name] + \
                [self.sub(self.ws_do, w, d) for d in op['wdo']]
        del s
        return [self.sub(self.ivl_do, v, d, op) for d in op['ido']] + \
            [self.sub(self.ws_do, w, d) for d in op['wdo']] + \
            ([[x.start_time.value for x in it]] if op.get('it') else [])

    def rd_repr(self, key):
        """Its repr, and that of another board made like it."""
        b = self.board(key)
        if self.k.active or self.sc.get('rps'):
            raise Skip()
        orgs = []
        for o in self.sc.get('orgs') or []:
            orgs.append(self.make_org(o, None, orgs))
        keep, self.orgs = self.orgs, orgs
        try:
            twin = self.build(dict(self.sc['boards'][int(key[1:])],
                                   free=True))
        finally:
            self.orgs = keep
        return [canon(repr(b)), canon(repr(twin))]

    # ------------------------------------------------ calendars
    def cal_kw(self, kw):
        kw = copy.deepcopy(kw)
        kind = kw.pop('bkind', None)
        for k in ('custom_start', 'custom_end'):
            if kw.get(k) is not None:
                kw[k] = day_kind(kw[k], kind)
        kind = kw.pop('akind', None)
        if kw.get('custom_amendments') is not None:
            kw['custom_amendments'] = {day_kind(a, kind): b for a, b
                                       in kw['custom_amendments']}
            self.watch('custom_amendments', kw['custom_amendments'])
        if isinstance(kw.get('do_not_observe'), list):
            how = kw.pop('dno_kind', None) or 'list'
            kw['do_not_observe'] = {'list': list, 'tuple': tuple,
                                    'set': set}[how](kw['do_not_observe'])
            self.watch('do_not_observe', kw['do_not_observe'])
        else:
            kw.pop('dno_kind', None)
        return kw

    def make_sub(self, u):
        """A calendar class of the caller's derived from a shipped one."""
        base = getattr(tb.calendars, u['cc']).Weekly8x5

        class Sub(base):
            pass
        if u.get('lo'):
            def parameters(cls):
                p = super(Sub, cls).parameters()
                p['start'] = pd.Timestamp(u['lo'])
                p['end'] = pd.Timestamp(u['hi'] + ' 23:59:59')
                return p
            Sub.parameters = classmethod(parameters)
        if u.get('am') is not None:
            def amendments(cls, custom_start=None, custom_end=None,
                           custom_amendments=None, **kw):
                r = super(Sub, cls).amendments(
                    custom_start=custom_start, custom_end=custom_end,
                    custom_amendments=custom_amendments, **kw)
                r.update({pd.Timestamp(d): v for d, v in u['am']})
                return r
            Sub.amendments = classmethod(amendments)
        return Sub

    def rd_cal(self, op):
        m = self.subs[op['sub']] if op.get('sub') is not None \
            else getattr(tb.calendars, op['cc']).Weekly8x5
        b = m(**self.cal_kw(op['kw']))
        if op.get('as'):
            self.boards[op['as']] = b
        d = b.to_dataframe()
        labels = [norm(x) for x in d['label']]
        v = b.get_interval()
        return ['cal', b.start_time.value, b.end_time.value, labels,
                norm(v.count()), norm(v.worktime()), b.worktime_source]

    # ------------------------------------------------ surroundings
    def env(self, op):
        w = op['what']
        if w == 'clock':
            self.clock_moved += abs(op['v'] - self.clock)
            self.clock = op['v']
            set_clock(self.clock)
        elif w == 'tz':
            os.environ['TZ'] = op['v']
            time.tzset()
        elif w == 'gc':
            gc.collect()
        elif w == 'rng':
            random.seed(op['v'])
            np.random.seed(op['v'] % (2 ** 32))
        elif w == 'gcmode':
            if op['v']:
                gc.enable()
                gc.set_threshold(op['v'])
            else:
                gc.disable()
        elif w == 'misc':
            v = op['v']
            if op['k'] == 'week':
                calendar.setfirstweekday(v)
            elif op['k'] == 'environ':
                os.environ[['LANG', 'LC_ALL', 'LC_TIME', 'HOME', 'DEBUG',
                            'PYTHONHASHSEED', 'USER'][v]] = 'de_DE.UTF-8'
            elif op['k'] == 'cwd':
                os.chdir('/' if v % 2 else '/usr')
            elif op['k'] == 'thread':
                threading.current_thread().name = 'T%d' % v
            elif op['k'] == 'display':
                pd.set_option('display.precision', v)
                pd.set_option('display.max_colwidth', 60 + v)
            elif op['k'] == 'npprint':
                np.set_printoptions(precision=v, threshold=5 + v)
        return None

    def mutate(self, op):
        """Scribble over an object that was passed in or handed out."""
        w = op['what']
        if w == 'input':
            x = self.inputs.get(op['name'])
            if x is None:
                raise Skip()
            self.watched = [e for e in self.watched if e[1] is not x]
            mine = [x] + [y for y in x if isinstance(y, list)]
            self.lists = [e for e in self.lists
                          if not any(e[1] is y for y in mine)]
            scribble(x, op.get('how') or 'replace')
            return None
        if w == 'df':
            b = self.board(op['b'])
            df = b.to_dataframe()
            for i, c in enumerate(list(df.columns)):
                try:
                    df[c].values[:] = df[c].values[::-1].copy()
                except (ValueError, TypeError):
                    pass
                try:
                    df.iloc[:, i] = None
                except (ValueError, TypeError):
                    pass
            return None
        if w == 'idx':
            s = self.sch(op['h']) if op.get('h') else \
                self.board(op['b']).default_schedule
            for a in (s.on_duty_index, s.off_duty_index, s.index):
                try:
                    a[:] = 0
                except (ValueError, TypeError):
                    pass
                try:
                    a.sort()
                    a.fill(0)
                except (ValueError, TypeError, AttributeError):
                    pass
            return None
        if w == 'params':
            m = getattr(tb.calendars, op['cc']).Weekly8x5
            p = m.parameters()
            lay = p.get('layout')
            try:
                lay.structure[0][:] = [1] * 7
            except (TypeError, AttributeError, ValueError):
                pass
            p.clear()
            p['base_unit_freq'] = 'M'
            return None
        if w == 'calam':
            m = getattr(tb.calendars, op['cc']).Weekly8x5
            try:
                d = m.amendments(**self.cal_kw(op.get('kw') or {}))
            except tb.OutOfBoundsError:
                return None
            for key in list(d):
                d[key] = 99
            d.clear()
            return None
        raise ValueError(op)

    def helper(self, op):
        cb = tb.calendars.calendarbase
        if op['f'] == 'extend_weekends':
            d = {ts_str(a): v for a, v in op['d']}
            self.watch('extend_weekends input', d)
            kw = {}
            if op.get('label') is not None:
                kw['label'] = op['label']
            if op.get('weekend') is not None:
                kw['weekend'] = list(op['weekend'])
                self.watch('extend_weekends weekend', kw['weekend'])
            r = cb.extend_weekends(d, how=op['how'], **kw)
        elif op['f'] == 'nth':
            dates = [tuple(x) for x in op['dates']]
            self.watch('nth_weekday input', dates)
            kw = {'errors': op['errors']} if op.get('errors') else {}
            r = cb.nth_weekday_of_month(op['year'], dates, label=op['label'],
                                        **kw)
        elif op['f'] == 'hol':
            kw = {'label': op['label'], 'long_weekends': op['long']}
            if op.get('dno') is not None:
                kw['do_not_observe'] = set(op['dno'])
            if op.get('country'):
                kw['country'] = op['country']
            f = getattr(getattr(tb.calendars, op['cc']), {
                'US': 'fed_holidays', 'UK': 'bank_holidays'}[op['cc']])
            r = f(op['y0'], op['y1'], **kw)
            a = pd.Timestamp('%04d-01-01' % op['y0'])
            z = pd.Timestamp('%04d-12-30' % op['y1'])
            res = sorted([t.value, norm(v)] for t, v in r.items()
                         if a <= t <= z and t.weekday() < 5 and
                         t != pd.Timestamp('2018-12-26'))
            if op.get('scribble'):
                r.clear()
            return res
        else:
            sh = list(op['shifts'])
            self.watch('from_easter input', sh)
            r = cb.from_easter(op['year'], sh, op['et'], label=op['label'])
        res = sorted([pd.Timestamp(a).value, norm(v)] for a, v in r.items())
        if op.get('scribble'):
            r.clear()
        return res

    # ------------------------------------------------ run
    def body(self, ops):
        def run(t):
            self.cur.re = None
            for i, op in enumerate(ops):
                self.k.begin_op(i)
                self.cur.re = [list(e) for e in op.get('re') or []] or None
                self.run_op(t, op)
                self.cur.re = None
                self.k.end_op()
                self.clock += 37 * NS_S
                self.clock_moved += 37 * NS_S
                set_clock(self.clock)
        return run

    def run(self):
        self.setup()
        self.k.run([self.body(ops) for ops in self.sc['tasks']],
                   self.sc.get('faults') or [])
        self.post()

    def post(self):
        for op in self.sc.get('post') or []:
            self.run_op(None, op)
        self.tampered = []
        for what, obj, was in self.watched:
            if plain(obj) != plain(was):
                self.tampered.append('%s: %r -> %r' % (what, was, obj))
        for what, obj, was in self.lists:
            if len(obj) != len(was) or any(
                    x is not y for x, y in zip(obj, was)):
                self.tampered.append('%s: %r -> %r' % (what, was, obj))
        for obj, was, what in self.kept:
            if set(obj) != set(was) or any(obj[k] is not was[k] for k in was):
                self.tampered.append('%s: %r -> %r' % (what, was, obj))


def canon(text):
    """A repr without the names and addresses made from identities."""
    seen = {}

    def name(m):
        return seen.setdefault(m.group(0), '%s_#%d' % (m.group(1), len(seen)))
    return re.sub('0x[0-9a-f]+', '0x',
                  re.sub(r'\b(org|mrk|rp)_\d+', name, text))


def plain(x):
    """The whole content of an input, comparable and printable."""
    if isinstance(x, (set, frozenset)):
        return type(x).__name__ + repr(sorted(plain(y) for y in x))
    if isinstance(x, dict):
        return '{%s}' % ', '.join('%s: %s' % (plain(k), plain(v))
                                  for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return '%s(%s)' % (type(x).__name__, ', '.join(plain(y) for y in x))
    return repr(x)


class Point(object):
    """A caller's own time-point class."""
    def __init__(self, world, ns):
        self.w = world
        self.ns = ns

    def to_timestamp(self):
        self.w.on_callback('to_timestamp')
        return pd.Timestamp(self.ns)

    def __hash__(self):
        return hash(self.ns)

    def __eq__(self, o):
        return isinstance(o, Point) and o.ns == self.ns

    def __repr__(self):
        return 'Point(%d)' % self.ns


class Pattern(collections.abc.Sequence):
    """A caller's own iterable of labels."""
    def __init__(self, world, labels):
        self.w = world
        self.labels = labels

    def __len__(self):
        self.w.on_callback('pattern')
        return len(self.labels)

    def __iter__(self):
        for x in self.labels:
            self.w.on_callback('pattern')
            yield x

    def __getitem__(self, i):
        return self.labels[i]

    def __repr__(self):
        return 'Pattern(%r)' % self.labels


class Items(collections.abc.Mapping):
    """A caller's own mapping of amendments."""
    def __init__(self, world, d):
        self.w = world
        self.d = d

    def __len__(self):
        return len(self.d)

    def __getitem__(self, k):
        return self.d[k]

    def __iter__(self):
        self.w.on_callback('items')
        for k in self.d:
            self.w.on_callback('item')
            yield k

    def items(self):
        self.w.on_callback('items')
        for k, v in self.d.items():
            self.w.on_callback('item')
            yield k, v


def scribble(x, how):
    if isinstance(x, dict):
        if how == 'clear':
            x.clear()
        else:
            for k in list(x):
                x[k] = 77
    elif isinstance(x, list):
        if how == 'clear':
            del x[:]
        elif how == 'reverse':
            x.reverse()
        else:
            for i in range(len(x)):
                if isinstance(x[i], list):
                    scribble(x[i], how)
                elif isinstance(x[i], dict):
                    scribble(x[i], how)
                else:
                    x[i] = 77
