"""tools/dbg.py CHECK TASK : show the path conditions of a task."""
import sys, os, time
sys.path.insert(0, '/verif'); sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.setrecursionlimit(20000)
import tempfile
from symx import patch
patch.boot(tempfile.mkdtemp())
import ocbpy
import importlib
from symx import harness, core
m = importlib.import_module('checks.' + sys.argv[1].lower())
for b, c, o, n in m.tasks('thorough') + m.tasks('quick'):
    if sys.argv[2] in n:
        e = harness.Engine(b, c, dict(o))
        orig = e.run_path
        def rp(prefix):
            t = time.time()
            r = orig(prefix)
            print('PATH', r[1], '%.1fs' % (time.time() - t), e.err or '')
            for p in e.w.path: print('    ', ' '.join(str(p.z()).split())[:400])
            return r
        e.run_path = rp
        ow = e.obligation
        def ob(cond, label):
            t = time.time(); n0 = len(e.cands)
            ow(cond, label)
            dtm = time.time() - t
            if dtm > .5 or len(e.cands) > n0: print('   obl %-40s %.1fs %s' % (label, dtm, '' if len(e.cands) == n0 else 'CAND'), ' '.join(str(cond.z() if hasattr(cond,'z') else cond).split())[:600])
        e.obligation = ob
        oq = e.w.solve
        def sv(cons, timeout, nl, hi):
            t = time.time(); r = oq(cons, timeout, nl, hi)
            if time.time() - t > 1: print('   query %.1fs %s ncons %d' % (time.time() - t, r[0], len(cons)))
            return r
        e.w.solve = sv
        core.set_world(e.w)
        r = e.explore()
        [print(a.idx, a.name, a.kind, a.sgn, str([(core.mul, ) and "*".join("%s^%d" % (core.W.atoms[i].name + str(i), e2) for i, e2 in mm) + ":" + str(k) for mm, k in a.sq.t.items()]) if a.sq is not None else "") for a in e.w.atoms]
        print(n, {k: v for k, v in r.items() if k not in ('functions', 'labels')})
        break
