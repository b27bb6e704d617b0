"""One run: scenario in, verdict out.  Called in a process forked for it."""
import gc
import json
import os
import sys
import time
import zlib

from . import kernel as kern
from . import world as W
from .judge import Judge

HERE = os.path.dirname(os.path.abspath(__file__))
RU = json.load(open(os.path.join(HERE, 'ru_table.json'))) \
    if os.path.exists(os.path.join(HERE, 'ru_table.json')) else {}


class Fatal(Exception):
    pass


def _quiet(*a, **k):
    pass


def kinds(history):
    n = {}
    for r in history:
        o = r['op']['op']
        n[o] = n.get(o, 0) + 1
    return n


def script(sc):
    return {'tasks': [[json.dumps(op)[:160] for op in ops[:6]]
                      for ops in sc['tasks']],
            'sched': (sc.get('sched') or [])[:12],
            'faults': sc.get('faults') or [], 'granularity': sc.get('gran')}


def trial(emit):
    """One operation of every sort, to see which reach changed code."""
    from .profiles import trial as make
    sc = make()
    w = W.World(sc)

    def fatal(kind, detail):
        emit([[r['op'], r['hot']] for r in w.history])
        os._exit(0)
    w.k.fatal_report = fatal
    sys.unraisablehook = _quiet
    try:
        w.run()
    except kern.SimDeadlock:
        pass
    emit([[r['op'], r['hot']] for r in w.history])


def execute(sc, emit):
    """Run `sc` and hand the result to `emit` (which may not return)."""
    gc.disable()
    sys.unraisablehook = _quiet
    import warnings
    warnings.simplefilter('ignore')
    w = W.World(sc)
    k = w.k
    t0 = time.perf_counter()

    def result(bad, stats):
        sw = k.switches
        h = 0
        for s in sw:
            h = zlib.crc32(repr(s[1:]).encode(), h)
        return {'i': sc.get('i'), 'bad': bad, 'stats': stats,
                'crc': '%08x' % k.crc, 'events': k.events, 'hot': k.hot,
                'switches': len(sw), 'path': '%08x' % h,
                'sw': sw[:400] if bad else [],
                'fired': k.fired, 'ops': len(w.history),
                'planned': len(sc.get('faults') or []),
                'clock': w.clock_moved // 1000000000,
                'reads': W.clock_reads(), 'cb': w.cbcount,
                'maxop': k.max_op_events, 'kinds': kinds(w.history),
                'script': script(sc) if (sc.get('i') or 0) < 9 else None}

    def fatal(kind, detail):
        bad = [{'kind': kind, 'task': k.current and k.current.tid,
                'op': None, 'detail': detail}]
        emit(result(bad, {}))
        os._exit(0)
    k.fatal_report = fatal
    try:
        w.run()
        j = Judge(sc, w, RU)
        bad = j.run()
    except kern.SimDeadlock as e:
        emit(result([{'kind': 'deadlock', 'task': None, 'op': None,
                      'detail': str(e)}], {}))
        return
    except BaseException as e:
        import traceback
        # a failure of the library outside any judged operation is a
        # verdict on the library; anything else is an error of the harness
        tb, lib = e.__traceback__, False
        while tb is not None:
            lib = lib or tb.tb_frame.f_code.co_filename.startswith(
                kern.LIB_DIR)
            tb = tb.tb_next
        emit(result([{'kind': 'wrong-error' if lib else 'harness',
                      'task': None, 'op': None,
                      'detail': traceback.format_exc()[-1500:]}], {}))
        return
    res = result(bad, j.stats)
    # final outcome of every operation is part of the trace
    crc = k.crc
    for r in w.history:
        crc = zlib.crc32(repr((r['t'], r['o'], r.get('out'))).encode(), crc)
    res['crc'] = '%08x' % crc
    emit(res)


def forked(fn, timeout=None):
    """Run fn(emit) in a forked child; its emitted JSON text or None."""
    r, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            def emit(obj):
                data = json.dumps(obj).encode()
                while data:
                    n = os.write(wfd, data)
                    data = data[n:]
            fn(emit)
        except BaseException:
            import traceback
            sys.stderr.write(traceback.format_exc())
            code = 3
        finally:
            os._exit(code)
    os.close(wfd)
    import select
    chunks = []
    end = time.monotonic() + timeout if timeout else None
    hung = False
    while True:
        if end is not None:
            left = end - time.monotonic()
            if left <= 0 or not select.select([r], [], [], left)[0]:
                hung = True
                break
        b = os.read(r, 1 << 16)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hung:
        os.kill(pid, 9)
    _, st = os.waitpid(pid, 0)
    if hung:
        return 'hang'
    return b''.join(chunks) or None
