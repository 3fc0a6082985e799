"""Runs one contract harness: python3-vt worker.py DUMP HARNESS OUT.json [budget] [opts json]"""
import sys, json, time, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512 * 1024 * 1024)

def main():
    import prog, execu, solve
    dump, harness, out = sys.argv[1:4]
    opts = json.loads(sys.argv[4]) if len(sys.argv) > 4 else {}
    t0 = time.time()
    p = prog.Program(dump)
    e = execu.Engine(p, opts)
    err = None
    try:
        e.setup()
        e.run_ctors()
        e.reset()
        e.runharness(harness)
    except prog.Unsupported as x:
        err = 'unsupported: %s' % x
    except RecursionError as x:
        err = 'recursion limit'
    except Exception as x:
        err = 'internal: ' + traceback.format_exc()[-1500:]
    res = {'harness': harness, 'error': err, 'obligations': [
        {'label': o.label, 'where': o.where, 'verdict': o.verdict, 'backend': o.backend, 't': round(o.t, 3), 'detail': o.detail, 'model': o.model} for o in e.obligations],
        'covers': e.covers, 'bounded': sorted(set(e.bounded))[:20], 'paths': e.paths, 'steps': e.steps, 'wall': time.time() - t0,
        'assumptions': sorted(e.assumptions), 'stubs': sorted(p.demangled(x) for x in e.stubuse), 'invs': sorted(e.inv_used),
        'functions': sorted(set(p.demangled(n) for n in e.calls_seen if p.isrepo(n))),
        'solver': {'seconds': solve.STATS.t, 'discharged': solve.STATS.n, 'queries': solve.STATS.queries}}
    json.dump(res, open(out, 'w'))

t = threading.Thread(target=main)
t.start()
t.join()
