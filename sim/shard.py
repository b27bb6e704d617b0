"""A worker process.  It imports the library once and then only forks: one
child generates a batch of scenarios, one child runs each scenario.  Commands
arrive on stdin, one per line:

    gen <path> <prop> <seed> <i0> <i1> <step>   write scenarios to <path>
    run <path> <offset> <length>                run the scenario stored there

and one JSON line per command is written to the result pipe."""
import ctypes
import gc
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    out = os.dup(1)
    os.dup2(2, 1)
    repo = os.environ['SIM_REPO']
    sys.path.insert(0, repo)
    from sim import run1, profiles, world, kernel, gen, hot
    world.load()
    lib = os.path.realpath(os.path.dirname(world.tb.__file__))
    if not lib.startswith(os.path.realpath(repo) + os.sep):
        raise SystemExit('imported the library from ' + lib)
    gen.aim_at(hot.LITS)
    if kernel.CHANGED:
        r = run1.forked(run1.trial, 60)
        if r not in (None, 'hang'):
            gen.learn(json.loads(r))
    gc.collect()
    gc.freeze()

    def send(b):
        b = b + b'\n'
        while b:
            b = b[os.write(out, b):]
    send(b'"ready"')
    while True:
        line = sys.stdin.readline()
        if not line:
            break
        cmd = line.split()
        if cmd[0] == 'gen':
            path, prop, seed = cmd[1:4]
            i0, i1, step = [int(x) for x in cmd[4:7]]

            def g(emit):
                idx, pos = [], 0
                with open(path, 'wb') as f:
                    for i in range(i0, i1, step):
                        sc = profiles.generate(prop, seed, i)
                        b = json.dumps(sc).encode()
                        f.write(b)
                        idx.append([i, pos, len(b)])
                        pos += len(b)
                emit(idx)
            r = run1.forked(g, 600)
        else:
            path, off, n = cmd[1], int(cmd[2]), int(cmd[3])

            def x(emit):
                fd = os.open(path, os.O_RDONLY)
                b = os.pread(fd, n, off)
                os.close(fd)
                run1.execute(json.loads(b), emit)
            r = run1.forked(x, float(cmd[4]))
        if r is None:
            r = b'"died"'
        elif r == 'hang':
            r = b'"hang"'
        send(r)


main()
