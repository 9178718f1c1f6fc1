"""extract /repo's current sources, generate and discharge the obligations of a contract module"""
import importlib.util, json, multiprocessing as mp, multiprocessing.connection, os, subprocess, sys, time, traceback
import z3
from . import core, engine, folds
from .core import TU, Unsupported, MissingAnchor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '_build')


def load_module(name):
    p = os.path.join(VERIF, 'contracts', name + '.py')
    spec = importlib.util.spec_from_file_location('contracts_' + name, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def ensure_tool():
    exe = os.path.join(BUILD, 'cppvc-extract')
    src = os.path.join(VERIF, 'tool', 'extract.cpp')
    if not os.path.exists(exe) or os.path.getmtime(exe) < os.path.getmtime(src):
        subprocess.check_call(['bash', os.path.join(VERIF, 'tool', 'build.sh')], stdout=subprocess.DEVNULL)
    return exe


MODULES = ['AlexandriaKernel', 'Configuration', 'FilePool', 'GridContainer', 'Histogram', 'KdTree', 'MathUtils', 'NdArray',
           'PhysicsUtils', 'SOM', 'SourceCatalog', 'Table', 'XYDataset']


def flags():
    fl = ['-std=c++14', '-DNDEBUG', '-w', '-I' + REPO]
    fl += ['-I%s/%s' % (REPO, m) for m in MODULES]
    fl += ['-I' + os.path.join(VERIF, 'stubs')]
    return fl


def extract(mod):
    exe = ensure_tool()
    out = os.path.join(BUILD, '%s.%d.json' % (mod.NAME, os.getpid()))
    cmd = [exe, getattr(mod, 'ROOTS', REPO + ',' + VERIF + '/drivers'), out, os.path.join(VERIF, mod.DRIVER), '--'] + flags() + \
        getattr(mod, 'FLAGS', []) + ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise MissingAnchor('extraction of %s failed: %s' % (mod.NAME, (p.stderr or p.stdout)[-2000:]))
    try:
        return TU(out)
    finally:
        os.unlink(out)


def mkengine(tu, mod):
    return engine.Engine(tu, mod.CONTRACTS, getattr(mod, 'GHOSTS', None), getattr(mod, 'CONFIG', None))


def fmt_model(m, limit=40):
    if m is None:
        return None
    out = {}
    try:
        for d in m.decls():
            n = d.name()
            if '!' in n and len(out) > limit:
                continue
            s = str(m[d]).replace('\n', ' ')
            out[n] = s[:200]
            if len(out) > 80:
                break
    except Exception as e:
        out['?'] = str(e)
    return out


_G = {}


def _task(i):
    kind, payload = _G['tasks'][i]
    t0 = time.time()
    core.STATS.update(queries=0, z3=0.0, cvc5=0.0)
    dl = _G.get('deadline')
    if dl and t0 > dl:
        nm = 'lemma ' + payload.name if kind == 'lemma' else label(_G['tu'].functions[payload[0]], payload[1])
        return {'func': nm, 'loc': '', 'obls': [], 'undecided': 'time budget of the run used up', 'time': 0, 'stats': dict(core.STATS)}
    if kind == 'lemma':
        res = {'func': 'lemma ' + payload.name, 'loc': '', 'obls': [], 'error': None, 'undecided': None}
        obs = folds.prove_lemmas([payload]) if not getattr(payload, 'using_all', False) else folds.prove_lemmas([payload])
        for o in obs:
            res['obls'].append({'name': o.name, 'kind': 'lemma', 'loc': '', 'status': o.status, 'backend': o.backend})
    else:
        m, c = payload
        f = _G['tu'].functions[m]
        res = {'func': label(f, c), 'loc': '/'.join(f.get('l', '').split('/')[-3:]), 'obls': [], 'undecided': None, 'contract': c.label}
        E = mkengine(_G['tu'], _G['mod'])
        saved = dict(core.CONF)
        try:
            core.CONF.update(getattr(c, 'conf', None) or {})
            obs = E.verify(f, c, budget=_G['budget'])
            for o in obs:
                t = time.time()
                model = None
                if o.status is None:
                    if time.time() - t0 > _G['budget'] * 1.5 or (dl and time.time() > dl + 60):
                        o.status = 'unknown'
                        o.backend = 'budget'
                    else:
                        o.status, o.backend, model = core.valid(o.pc, o.goal, fuel=c.fuel)
                cross = None
                if core.CONF.get('cross') and o.status == 'proved' and o.backend and o.backend.startswith('z3') and o.pc:
                    fs = list(o.pc) + [core.neg_goal(o.goal)]
                    cross = core._cvc5_check(fs + core.unfold(fs, c.fuel or core.CONF['fuel']), 4000)
                d = {'name': o.name, 'cross': cross, 'kind': o.kind, 'loc': '/'.join(o.loc.split('/')[-2:]), 'status': o.status, 'backend': o.backend,
                     'time': round(time.time() - t, 3)}
                if o.status not in ('proved',):
                    d['model'] = fmt_model(model)
                    d['goal'] = str(z3.simplify(o.goal))[:1500]
                res['obls'].append(d)
            res['paths'] = [E.nreturn, E.nthrow] if hasattr(E, 'nreturn') else None
            # vacuity: some outcome must be reachable
            if hasattr(E, 'nreturn') and E.nreturn + E.nthrow == 0:
                res['undecided'] = 'no reachable outcome (vacuous)'
        except Unsupported as ex:
            res['undecided'] = 'outside the verifier: %s' % ex
        except MissingAnchor as ex:
            res['undecided'] = 'anchor missing: %s' % ex
        except (z3.Z3Exception, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError, AssertionError) as ex:
            res['undecided'] = 'verifier error: %s: %s' % (type(ex).__name__, ex)
            res['trace'] = traceback.format_exc()[-1500:]
        finally:
            core.CONF.clear()
            core.CONF.update(saved)
        res['loops'] = E.loopinfo
        res['inlined'] = sorted(E.inlined)
        res['assumed'] = sorted(E.assumed)
        res['callees'] = sorted(E.called_contracts)
        from . import stdlib
        res['std'] = sorted(stdlib.USED)
    res['time'] = round(time.time() - t0, 2)
    res['stats'] = dict(core.STATS)
    return res


def _child(i, conn):
    try:
        conn.send(_task(i))
    finally:
        conn.close()


def run_tasks(n, jobs, budget):
    """one forked process per task; a task that crashes the solver or overruns is undecided, never waited for"""
    ctx = mp.get_context('fork')
    res, todo, live = [None] * n, list(range(n)), {}
    while todo or live:
        while todo and len(live) < jobs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(i, b))
            p.start()
            b.close()
            live[i] = (p, a, time.time())
        mp.connection.wait([a for _, a, _ in live.values()], timeout=5)
        for i, (p, a, t) in list(live.items()):
            why = None
            if a.poll():
                try:
                    res[i] = a.recv()
                except EOFError:
                    why = 'the proof process ended without a result'
            elif time.time() - t > budget + 120:
                why = 'time budget of the proof used up'
            elif not p.is_alive() and not a.poll():
                why = 'the proof process ended without a result'
            if res[i] is None and why is None:
                continue
            if res[i] is None:
                kind, payload = _G['tasks'][i]
                nm = 'lemma ' + payload.name if kind == 'lemma' else label(_G['tu'].functions[payload[0]], payload[1])
                res[i] = {'func': nm, 'contract': nm, 'loc': '', 'obls': [], 'undecided': why, 'time': round(time.time() - t, 1), 'stats': {'queries': 0, 'z3': 0, 'cvc5': 0}}
            p.kill()
            p.join()
            a.close()
            del live[i]
    return res


def label(f, c):
    tu = _G['tu']
    l = c.label
    if 'cls' in f:
        import re
        cs = tu.types[f['cls']]['s']
        m = re.search(r'Iterator<(true|false)>', cs)
        if m:
            l += '<%s>' % m.group(1)
    return l


def verify_module(mod, want=None, props=None, budget=150, jobs=8, with_lemmas=True):
    """-> list of per-function results"""
    tu = extract(mod)
    tasks, missing = [], []
    seen = set()
    E = mkengine(tu, mod)
    for c in mod.CONTRACTS:
        if c.trusted or not c.prove:
            continue
        if props is not None and not (set(c.props or ()) & set(props)):
            continue
        if want and not any(w in c.label for w in want):
            continue
        fs = [m for m, f in tu.functions.items() if E.cmap.get(m) is c and 'body' in f]
        if not fs:
            missing.append({'func': c.label, 'contract': c.label, 'loc': '', 'obls': [], 'undecided': 'anchor missing: function not found', 'time': 0,
                            'stats': {'queries': 0, 'z3': 0, 'cvc5': 0}})
        for m in fs:
            tasks.append(('fn', (m, c)))
    if with_lemmas:
        ls = []
        for l in getattr(mod, 'LEMMAS', []):
            if props is None or not getattr(l, 'props', None) or set(l.props) & set(props):
                ls.append(l)
        for f in getattr(mod, 'FOLDS', []):
            ls += f.lemmas()
        for l in ls:
            if not want or any(w in 'lemma ' + l.name for w in want):
                tasks.append(('lemma', l))
    _G.update(tu=tu, mod=mod, tasks=tasks, budget=budget)
    if jobs <= 1 or len(tasks) <= 1:
        rs = [_task(i) for i in range(len(tasks))]
    else:
        rs = run_tasks(len(tasks), jobs, budget)
    return missing + rs


def verify_closure(mod, props, budget=150, jobs=8, deadline=None, tu=None):
    """functions of the properties plus, transitively, every contract their proofs relied on"""
    tu = tu or extract(mod)
    E = mkengine(tu, mod)
    bylabel = {}
    for c in mod.CONTRACTS:
        if not c.trusted and c.prove:
            bylabel.setdefault(c.label, c)
    done, results = set(), []
    todo = [c for c in mod.CONTRACTS if not c.trusted and c.prove and set(c.props or ()) & set(props)]
    first = True
    while todo or first:
        tasks = []
        for c in todo:
            done.add(c.label)
            fs = [m for m, f in tu.functions.items() if E.cmap.get(m) is c and 'body' in f]
            if not fs:
                results.append({'func': c.label, 'contract': c.label, 'loc': '', 'obls': [], 'undecided': 'anchor missing: function not found', 'time': 0,
                                'stats': {'queries': 0, 'z3': 0, 'cvc5': 0}})
            tasks += [('fn', (m, c)) for m in fs]
        if first:
            for l in getattr(mod, 'LEMMAS', []):
                if not getattr(l, 'props', None) or set(l.props) & set(props):
                    tasks.append(('lemma', l))
            for f in getattr(mod, 'FOLDS', []):
                tasks += [('lemma', l) for l in f.lemmas()]
        first = False
        _G.update(tu=tu, mod=mod, tasks=tasks, budget=budget, deadline=deadline)
        if tasks:
            rs = run_tasks(len(tasks), jobs, budget)
        else:
            rs = []
        results += rs
        want = {c for r in rs for c in r.get('callees', ())}
        todo = [bylabel[l] for l in sorted(want) if l in bylabel and l not in done]
    return results, tu


def main():
    mod = load_module(sys.argv[1])
    want = sys.argv[2:] or None
    t = time.time()
    rs = verify_module(mod, want, jobs=8)
    tot = ok = 0
    for r in rs:
        n = len(r['obls'])
        p = sum(o['status'] == 'proved' for o in r['obls'])
        tot += n
        ok += p
        print('%-70s %3d/%-3d %6.1fs %s' % (r['func'], p, n, r['time'], r['undecided'] or ''))
        if r.get('trace') and want:
            print(r['trace'])
        for o in r['obls']:
            if o['status'] != 'proved':
                print('      %s %s %s %s' % (o['status'], o['name'], o['loc'], o.get('backend')))
                if want:
                    print('         goal', o.get('goal'))
                    print('         model', json.dumps(o.get('model'))[:1500])
        if want:
            for l in r.get('loops', []):
                print('      loop', l['loc'], 'kept', l['kept'], 'DROPPED', l['dropped_required'])
    print('total %d/%d in %.1fs' % (ok, tot, time.time() - t))


if __name__ == '__main__':
    main()
