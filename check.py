#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Decides one property: extracts the functions it depends on from /repo's current sources, generates the
obligations of their contracts, discharges them, and runs the replay harness on the real code.
exit 0: held; exit 1 + "VIOLATION property=... replay=..." otherwise."""
import argparse, glob, json, os, re, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
from cppvc import core, engine, runner   # noqa: E402
from props import PROPS, HARNESS, ASSUMPTIONS   # noqa: E402

BUILD = runner.BUILD
REPO = runner.REPO


def load_findings(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding: property=(\S+) tag=(\S+) obligation=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid:
                out.append({'tag': m.group(2), 'obl': m.group(3), 'what': m.group(4), 'seen': False})
    return out


# -------------------------------------------------------------------- harness
def compile_harness(name):
    h = HARNESS[name]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'h_%s.%d' % (name, os.getpid()))
    src = [os.path.join(VERIF, 'harness', name + '.cpp')] + [os.path.join(REPO, s) for s in h.get('src', [])]
    objs, procs = [], []
    base = ['g++', '-std=c++14', '-O1', '-g0', '-w', '-D_GLIBCXX_ASSERTIONS', '-DNDEBUG'] + (['-fsanitize=address'] if h.get('asan', True) else []) + \
        [f for f in runner.flags() if f.startswith('-I')] + ['-I' + os.path.join(VERIF, 'harness')] + h.get('flags', [])
    err = ''
    for i, s in enumerate(src):
        o = exe + '.%d.o' % i
        objs.append(o)
        procs.append((s, subprocess.Popen(base + ['-c', s, '-o', o], stderr=subprocess.PIPE, text=True)))
    ok = True
    for s, p in procs:
        _, e = p.communicate()
        if p.returncode:
            ok = False
            err += '%s: %s\n' % (s, e[-1500:])
    if ok:
        p = subprocess.run(base + objs + ['-o', exe] + h.get('libs', []), capture_output=True, text=True)
        if p.returncode:
            ok, err = False, p.stderr[-2000:]
    for o in objs:
        if os.path.exists(o):
            os.unlink(o)
    return (exe if ok else None), err


def run_harness(name, pid, tier, seed, pool, limit):
    exe, err = compile_harness(name)
    if exe is None:
        return {'harness': name, 'status': 'not-built', 'detail': err}
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:print_legend=0:allocator_may_return_null=1', VPOOL_INT=' '.join(map(str, pool['ints'])),
               VPOOL_REAL=' '.join(map(repr, pool['reals'])), VPOOL_STR='\x1f'.join(pool['strs']), TZ='UTC', LC_ALL='C')
    scratch = os.path.join(BUILD, 'scratch.%d' % os.getpid())
    os.makedirs(scratch, exist_ok=True)
    env['VSCRATCH'] = scratch
    t = time.time()
    try:
        p = subprocess.run([exe, pid, tier, str(seed)], capture_output=True, env=env, timeout=limit, cwd=scratch)
        out, rc = p.stdout.decode('utf8', 'replace'), p.returncode
        errs = p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as ex:
        out = (ex.stdout or b'').decode('utf8', 'replace')
        errs, rc = '', None
    finally:
        if os.path.exists(exe):
            os.unlink(exe)
        subprocess.run(['rm', '-rf', '--', scratch])
    r = {'harness': name, 'status': 'passed', 'time': round(time.time() - t, 2), 'known': []}
    for line in out.splitlines():
        try:
            if line.startswith('FAIL '):
                r['status'] = 'failed'
                r['fail'] = json.loads(line[5:])
            elif line.startswith('KNOWN '):
                r['known'].append(json.loads(line[6:]))
            elif line.startswith('COVER '):
                r['cover'] = json.loads(line[6:])
        except ValueError:
            r['status'], r['fail'] = 'failed', {'input': '?', 'what': line[:500]}
    if r['status'] == 'passed' and 'cover' not in r:
        if rc is None:
            r['status'] = 'timeout'
        else:
            r['status'], r['fail'] = 'failed', {'input': 'harness %s %s %s %s' % (name, pid, tier, seed), 'what': 'the real code ended the process (exit %s): %s' % (rc, errs[:1500])}
    return r


def mine(tus, results):
    """literals of the code under check and of the solver's models: inputs worth replaying"""
    ints, reals, strs = set(), set(), set()

    def walk(n):
        if isinstance(n, dict):
            k = n.get('k')
            try:
                if k == 'Int':
                    ints.add(int(n['v']))
                elif k == 'Float':
                    reals.add(float(n['v']))
                elif k == 'Str' and len(str(n.get('v', ''))) < 60:
                    strs.add(str(n.get('v', '')))
            except (ValueError, KeyError, TypeError):
                pass
            for v in n.values():
                if isinstance(v, (dict, list)):
                    walk(v)
        elif isinstance(n, list):
            for v in n:
                walk(v)
    for tu in tus:
        for f in tu.functions.values():
            if f.get('l', '').startswith(REPO):
                walk(f.get('body'))
                walk(f.get('inits'))
    for r in results:
        for o in r['obls']:
            if o['status'] != 'proved':
                for v in (o.get('model') or {}).values():
                    for m in re.findall(r'-?\d+', v):
                        if len(m) < 7:
                            ints.add(int(m))
    ints = sorted((i for i in ints if abs(i) < 10 ** 7), key=abs)[:300]
    return {'ints': ints, 'reals': sorted(reals)[:200], 'strs': sorted(strs)[:200]}


# ----------------------------------------------------------------------- main
def baseline():
    try:
        return json.load(open(os.path.join(VERIF, 'baseline.json')))
    except (OSError, ValueError):
        return {}


def norm(t):
    return re.sub(r'\d+', '#', t)


def loop_shape(r):
    """how many contract-given invariants every loop kept (order-independent)"""
    return sorted(l.get('kept_required', 0) for l in r.get('loops', []))


def decide(pid, tier, seed, args):
    t0 = time.time()
    P = PROPS[pid]
    findings = load_findings(pid)
    results, tus, notes = [], [], []
    budget = 150 if tier == 'quick' else 400
    deadline = t0 + (430 if tier == 'quick' else 2400)
    lemma_results = []
    if tier == 'thorough':
        core.CONF.update(z3_ms=10000, cvc5_ms=40000, z3_long_ms=60000, cross=True)
    for mn in P['modules']:
        try:
            mod = runner.load_module(mn)
            rs, tu = runner.verify_closure(mod, [pid], budget=budget, jobs=8, deadline=deadline)
            results += rs
            tus.append(tu)
        except Exception as ex:   # extraction impossible: nothing is decided deductively
            notes.append('module %s: %s: %s' % (mn, type(ex).__name__, str(ex)[:1500]))
            if args.debug:
                traceback.print_exc()
    pool = mine(tus, results)
    hres = []
    for h in P.get('harness', []):
        hres.append(run_harness(h, pid, tier, seed, pool, 200 if tier == 'quick' else 1500))
    base = baseline()
    # ---- classify
    failed, undecided, known = [], [], []
    for r in results:
        if r['undecided']:
            undecided.append((r['func'], r['undecided']))
        exact = loop_shape(r) == base.get(r['func'], {}).get('loops', loop_shape(r)) and not r['undecided']
        for o in r['obls']:
            if o['status'] == 'proved':
                continue
            hit = [f for f in findings if re.search(f['obl'], o['name'])]
            if hit:
                hit[0]['seen'] = True
                known.append((hit[0], o))
            elif o['status'] in ('refuted', 'not-proved') and exact:
                failed.append((r, o))
            elif o['status'] == 'refuted' and o.get('kind') == 'lemma':
                failed.append((r, o))
            else:
                undecided.append((r['func'], '%s: %s' % (o['name'], o['status'])))
    violation = None
    hfail = None
    for h in hres:
        if h['status'] == 'failed' and hfail is None:
            hfail = h
        for k in h.get('known', []):
            hit = [f for f in findings if f['tag'] == k['tag']]
            if hit:
                hit[0]['seen'] = True
                known.append((hit[0], k))
            elif hfail is None:
                hfail = {'harness': h['harness'], 'fail': {'input': k['input'], 'what': '%s (%s)' % (k['what'], k['tag'])}}
    os.makedirs(os.path.join(BUILD, 'replay'), exist_ok=True)
    rp = os.path.join(BUILD, 'replay', '%s.txt' % pid)
    if hfail or failed:
        with open(rp, 'w') as f:
            f.write('property %s\n\n' % pid)
            if hfail:
                f.write('failing input, replayed against the code in %s:\n  input: %s\n  what: %s\n  re-run: python3-vt %s/check.py %s --tier %s (harness %s, seed %d)\n\n' % (
                    REPO, hfail['fail']['input'], hfail['fail']['what'], VERIF, pid, tier, hfail['harness'], seed))
            for r, o in failed:
                f.write('failed obligation: %s\n  function: %s (%s)\n  at: %s\n  verifier: %s (%s)\n  goal: %s\n  model: %s\n\n' % (
                    o['name'], r['func'], r['loc'], o['loc'], o['status'], o.get('backend'), o.get('goal'), json.dumps(o.get('model'))))
            for u in undecided:
                f.write('undecided: %s: %s\n' % u)
        violation = 'VIOLATION property=%s replay=%s%s' % (pid, rp, '' if hfail else ' no-failing-input-found')
    # ---- evidence
    fns = [r for r in results if not r['func'].startswith('lemma ')]
    lem = [r for r in results if r['func'].startswith('lemma ')]
    nob = sum(len(r['obls']) for r in results)
    ndis = sum(o['status'] == 'proved' for r in results for o in r['obls'])
    backends = {}
    for r in results:
        for o in r['obls']:
            if o['status'] == 'proved':
                b = o.get('backend') or '?'
                backends[b] = backends.get(b, 0) + 1
    trusted = ['clang 18 front end (parsing and template instantiation) and tool/extract.cpp', 'cppvc (verification-condition generator, standard-library models in cppvc/stdlib.py)',
               'z3 %s and cvc5 1.1.2' % core.z3.get_version_string()]
    assumed = set(ASSUMPTIONS) | set(P.get('assumptions', []))
    std = set()
    for r in fns:
        assumed |= set(r.get('assumed', []))
        std |= set(r.get('std', []))
    for mn in P['modules']:
        try:
            for c in runner.load_module(mn).CONTRACTS:
                if c.trusted:
                    assumed.add('trusted contract: %s (%s)' % (c.label, c.trusted))
        except Exception:
            pass
    cov = {'obligations': nob, 'discharged': ndis, 'checker_cmd': 'python3-vt /verif/check.py %s --tier %s' % (pid, tier), 'trusted_base': trusted,
           'functions_under_contract': [{'function': r['func'], 'at': r['loc'], 'obligations': len(r['obls']), 'discharged': sum(o['status'] == 'proved' for o in r['obls']),
                                         'loops_cut_at_invariants': len(r.get('loops', [])), 'inlined': r.get('inlined', []), 'time_s': r['time'],
                                         'undecided': r['undecided']} for r in fns],
           'lemmas': [r['func'][6:] for r in lem], 'back_ends': backends,
           'solver_time_s': {'z3': round(sum(r['stats']['z3'] for r in results), 1), 'cvc5': round(sum(r['stats']['cvc5'] for r in results), 1)},
           'solver_queries': sum(r['stats']['queries'] for r in results),
           'cross_checked_by_cvc5': sum(o.get('cross') == 'unsat' for r in results for o in r['obls']),
           'std_models_used': sorted(std), 'undecided': ['%s: %s' % u for u in undecided] + notes,
           'bounded_stand_in': [dict({k: h.get(k) for k in ('harness', 'status', 'time', 'cover')}, label='bounded, never counted as proved',
                                     functions=P.get('bounded', '')) for h in hres],
           'known_findings': sorted({k[0]['what'] for k in known})}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': sorted(assumed),
          'wall_s': round(time.time() - t0, 1), 'violations': 1 if violation else 0}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for f in findings:
        if f['seen']:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
    print('%s: %d/%d obligations discharged over %d functions and %d lemmas; harness %s; %.0f s' % (
        pid, ndis, nob, len(fns), len(lem), ', '.join('%s %s' % (h['harness'], h['status']) for h in hres) or 'none', time.time() - t0))
    for u in undecided:
        print('undecided (bounded stand-in decides): %s: %s' % u)
    for n in notes:
        print('note: ' + n[:600])
    for h in hres:
        if h['status'] in ('not-built', 'timeout'):
            print('note: harness %s %s %s' % (h['harness'], h['status'], h.get('detail', '')[:1500]))
    if args.baseline:
        b = baseline()
        for r in fns:
            b[r['func']] = {'loops': loop_shape(r)}
        with open(os.path.join(VERIF, 'baseline.json'), 'w') as f:
            json.dump(b, f, indent=0, sort_keys=True)
    if violation:
        for r, o in failed:
            print('failed obligation: %s (%s)' % (o['name'], o['status']))
        if hfail:
            print('failing input: %s -> %s' % (hfail['fail']['input'][:600], hfail['fail']['what'][:600]))
        print(violation)
        return 1
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--baseline', action='store_true')
    ap.add_argument('--debug', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    try:
        rc = decide(a.property, a.tier, seed, a)
    except Exception as ex:   # a fault of the machinery is no verdict on the code
        traceback.print_exc()
        print('note: internal error, nothing decided: %s' % ex)
        rc = 0
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
