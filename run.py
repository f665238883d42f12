#!/opt/venv/bin/python
"""Run one check:  run.py C01 [--tier quick|thorough] [--task NAME] [-v]

Exit 0: the property held on everything explored.  Exit 1 (with a VIOLATION
line): a counterexample was found and reproduced on the unpatched code.
Exit 2: nothing could be decided.  Parts that could not be explored are listed
as INCOMPLETE and in the evidence; --strict turns them into exit 2.
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if '/repo' != os.environ.get('VERIF_REPO', '/repo'):
    sys.path.insert(0, os.environ['VERIF_REPO'])
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.jsonl')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith('#'):
                out.append(json.loads(ln))
    return out


def worker(i, tx, tasks, home, memory):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (memory, memory))
    from symx import harness
    body, cfg, opts, name = tasks[i]
    try:
        import ocbpy
        ocbpy.logger.handlers = []
    except Exception:
        pass
    r = harness.run_task((body, cfg, opts, name))
    r['functions'] = sorted(r['functions'])
    r['labels'] = sorted(r['labels'])
    r['index'] = i
    tx.send(json.dumps(r, default=str))
    tx.close()
    sys.stdout.flush()
    os._exit(0)


def run_all(tasks, home, jobs, verbose, wall, known=()):
    """Run every task in its own process, `jobs` at a time."""
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = list(range(len(tasks)))
    # long ones first
    todo.sort(key=lambda i: -tasks[i][2].get('weight', 1))
    live, out = {}, []
    t0 = time.time()
    nviol = 0

    def failed(i, msg, ts):
        out.append(dict(
            name=tasks[i][3], index=i, violations=[], unknown=[],
            mismatches=[], errors=['worker ' + msg], paths=0, obligations=0,
            discharged=0, by_rewriting=0, witnesses=0, validated=0,
            boundary=0, nowitness=0, infeasible=0, functions=[], labels=[],
            stat={}, seconds=time.time() - ts, inputs={}, maxdepth=0,
            aborted=0))

    while (todo or live) and nviol < 3:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            rx, tx = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(i, tx, tasks, home, 6 << 30))
            p.start()
            tx.close()
            live[rx] = (i, p, time.time())
        for rx in wait(list(live), timeout=0.5):
            i, p, ts = live.pop(rx)
            try:
                r = json.loads(rx.recv())
            except EOFError:
                failed(i, 'ended without an answer', ts)
                r = None
            rx.close()
            p.join(2)
            if p.is_alive():
                p.kill()
            if r is None:
                continue
            out.append(r)
            nviol += sum(match_known(known, r['name'], v) is None
                         for v in r['violations'])
            if verbose:
                print('  %-44s %6.1fs paths %d obl %d/%d wit %d/%d viol %d '
                      'unk %d mism %d err %d' % (
                          r['name'], r['seconds'], r['paths'],
                          r['discharged'], r['obligations'], r['validated'],
                          r['witnesses'], len(r['violations']),
                          len(r['unknown']), len(r['mismatches']),
                          len(r['errors'])), flush=True)
        for rx, (i, p, ts) in list(live.items()):
            if (time.time() - ts > tasks[i][2].get('budget', 240) * 2 + 60
                    or time.time() - t0 > wall):
                p.kill()
                live.pop(rx)
                failed(i, 'ran out of time', ts)
    for rx, (i, p, ts) in live.items():
        p.kill()
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--task', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true')
    a = ap.parse_args()
    home = tempfile.mkdtemp(prefix='ocbverif-')
    try:
        rc = run(a, home)
    finally:
        shutil.rmtree(home, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(a, home):
    t0 = time.time()
    from symx import patch
    patch.boot(home)
    os.chdir(home)
    try:
        import contextlib
        import io
        with patch.quiet(), contextlib.redirect_stdout(io.StringIO()):
            import ocbpy
            import ocbpy.boundaries.dmsp_ssj_files  # noqa F401
            import ocbpy.instruments.pysat_instruments  # noqa F401
    except Exception as e:
        print('cannot import the code under test: %s' % e)
        return 2
    mod = importlib.import_module('checks.' + a.prop.lower())
    if a.replay:
        return replay(a, mod)
    tasks = []
    for t in mod.tasks(a.tier):
        body, cfg, opts, name = t
        tasks.append((body, cfg, opts, name))
    if a.task:
        tasks = [t for t in tasks if a.task in t[3]]
    names = [t[3] for t in tasks]
    assert len(set(names)) == len(names), 'duplicate task names'
    wall = 800 if a.tier == 'quick' else 6 * 3600
    known = [k for k in load_known()
             if k['property'] == a.prop and k.get('status') == 'known']
    res = run_all(tasks, home, a.j, a.v, wall, known)
    return report(a, mod, tasks, res, time.time() - t0)


def replay(a, mod):
    from symx import harness, patch
    d = json.load(open(a.replay))
    for body, cfg, opts, name in mod.tasks('thorough') + mod.tasks('quick'):
        if name == d['task']:
            h = harness.engine(body, cfg, opts).run_concrete(d['inputs'])
            if h is None:
                print('inputs do not satisfy the assumptions')
                return 2
            for f in h.fails:
                print('FAILS:', f[0], f[1])
            return 1 if h.fails else 0
    print('no such task')
    return 2


def report(a, mod, tasks, res, wall):
    viol, unk, mism, errs = [], [], [], []
    known = [k for k in load_known()
             if k['property'] == a.prop and k.get('status') == 'known']
    khit = {}
    for r in res:
        for v in r['violations']:
            k = match_known(known, r['name'], v)
            if k is not None:
                khit[k['id']] = k
            else:
                viol.append((r['name'], v))
        for u in r['unknown']:
            unk.append((r['name'], u))
        for m in r['mismatches']:
            mism.append((r['name'], m))
        for e in r['errors']:
            errs.append((r['name'], e))
        if r['paths'] and not r['witnesses'] and not r['violations'] and \
                not r['errors']:
            errs.append((r['name'], 'no path has a witness: vacuous'))
        if r['obligations'] == 0 and not r['violations'] and \
                not r['errors']:
            errs.append((r['name'], 'no obligation was reached: vacuous'))
    rdir = os.path.join(HERE, 'replays')
    lines = []
    for i, (n, v) in enumerate(viol):
        os.makedirs(rdir, exist_ok=True)
        p = os.path.join(rdir, '%s-%d.json' % (a.prop, i))
        json.dump(dict(property=a.prop, task=n, label=v['label'],
                       fail=v['fail'], inputs=v['inputs'], cfg=v['cfg'],
                       found=v['how']), open(p, 'w'), indent=1, default=str)
        lines.append('VIOLATION property=%s replay=%s' % (a.prop, p))
        print('%s: %s fails: %s  inputs %s' % (
            n, v['label'], v['fail'], json.dumps(v['inputs'])[:600]))
    for k in known:
        if k['id'] in khit or not a.task:
            print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    stale = [k for k in known if k['id'] not in khit]
    for n, u in unk[:8]:
        print('UNKNOWN %s: %s' % (n, json.dumps(u, default=str)[:400]))
    for n, m in mism[:8]:
        print('ENCODING MISMATCH %s: %s' % (n, json.dumps(m)[:600]))
    for n, e in errs[:8]:
        print('ERROR %s: %s' % (n, str(e)[-900:]))
    tot = lambda k: sum(r.get(k, 0) for r in res)
    stat = {}
    for r in res:
        for k, v in (r.get('stat') or {}).items():
            if isinstance(v, (int, float)):
                stat[k] = stat.get(k, 0) + v
    fns = sorted(set(f for r in res for f in r['functions']))
    labels = sorted(set(x for r in res for x in r['labels']))
    ev = dict(
        property=a.prop, tier='thorough' if a.tier == 'thorough' else 'quick',
        seed=int(os.environ.get('VERIF_SEED', '1') or 1),
        level='model_checking',
        coverage=dict(
            states=tot('paths'), transitions=stat.get('decisions', 0),
            traces_validated_against_impl=tot('validated'),
            samples=[dict(task=r['name'], paths=r['paths'],
                          obligations=r['obligations'],
                          discharged=r['discharged'],
                          witnesses=r['witnesses'],
                          replayed_and_equal=r['validated'],
                          seconds=round(r['seconds'], 1)) for r in res][:60],
            functions_encoded=fns,
            obligations=tot('obligations'), discharged=tot('discharged'),
            discharged_by_normal_form=tot('by_rewriting'),
            paths_explored=tot('paths'), infeasible_paths=tot('infeasible'),
            witnesses=tot('witnesses'), boundary_witnesses=tot('boundary'),
            solver=stat, tasks=len(tasks), labels=labels[:200],
            bounds=getattr(mod, 'BOUNDS', '') + (
                ' Thorough tier: ' + mod.THOROUGH
                if a.tier == 'thorough' and hasattr(mod, 'THOROUGH') else ''),
            outside=getattr(mod, 'OUTSIDE', ''),
            inputs={r['name']: r['inputs'] for r in res[:12]}),
        not_explored=[dict(task=n, why=str(w)[-300:])
                      for n, w in (unk + mism + errs)[:40]],
        assumptions=COMMON + list(getattr(mod, 'ASSUMPTIONS', [])),
        wall_s=round(wall, 2), violations=[
            dict(task=n, label=v['label'], inputs=v['inputs'])
            for n, v in viol])
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w'),
              indent=1, default=str, sort_keys=True)
    print('%s %s: %d tasks, %d paths, %d/%d obligations discharged, %d '
          'witnesses replayed equal, %.1f s' % (
              a.prop, a.tier, len(res), tot('paths'), tot('discharged'),
              tot('obligations'), tot('validated'), wall))
    if lines:
        for ln in lines:
            print(ln)
        return 1
    if unk or mism or errs or len(res) < len(tasks):
        bad = set(n for n, _ in unk + mism + errs)
        print('INCOMPLETE: %d of %d tasks were not fully explored (%d undecided'
              ' obligations, %d encoding mismatches, %d errors)' % (
                  len(bad) + len(tasks) - len(res), len(tasks), len(unk),
                  len(mism), len(errs)))
        if a.strict or tot('discharged') == 0 or len(bad) == len(tasks):
            return 2
    if stale and not a.task:
        for k in stale:
            print('note: known finding %s was not reproduced' % k['id'])
    return 0


COMMON = [
    'Floats are encoded as real numbers; rounding is outside the symbolic '
    'claim unless a task is marked FP. Every counterexample is replayed with '
    'IEEE floats on the unpatched code before it is reported.',
    'aacgmv2 is replaced by uninterpreted conversions of the same call shape '
    '(same arguments give the same unconstrained values).',
    'Logging is disabled.',
]


def match_known(known, task, v):
    for k in known:
        if k['label'] == v['label'] and k['task'] == task:
            return k
    return None


if __name__ == '__main__':
    main()
