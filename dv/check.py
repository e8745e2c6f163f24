"""Check of one property: extract, verify, replay, report.

usage: check.py <property id>      (environment: VERIF_TIER=quick|thorough, VERIF_SEED)
exit 0 held, 1 VIOLATION printed, 2 the check could not decide anything
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))

import build  # noqa: E402


def verify_entry(bc, name, spec, tier, out):
    """runs in a child process; writes a JSON result"""
    import z3
    import engine
    import llvmc
    import models
    import intz
    import smt
    import term as t
    res = {'entry': name, 'status': 'error'}
    t0 = time.time()
    en = None
    try:
        m = llvmc.Module(bc)
        opts = {'overflow': False, 'time': 150 if tier == 'quick' else 1200}
        opts.update(spec.get('opts', {}))
        en = engine.Engine(m, opts)
        models.install(en)
        if spec.get('setup'):
            spec['setup'](en)
        st = engine.State()
        try:
            run_ctors(en, st)
            r = en.call(st, 'dv_entry_' + name, [])
            res['status'] = 'ok'
            res['paths'] = len(r)
        except engine.Infeasible:
            res['status'] = 'ok'
            res['paths'] = 0
        except (engine.Unsupported, engine.Bound, engine.Budget) as e:
            res['status'] = 'unsupported'
            res['why'] = '%s: %s [%s]' % (type(e).__name__, e, ' > '.join(x[0][:60] for x in en.stack[-4:]))
        res['exec_s'] = round(time.time() - t0, 2)
        t1 = time.time()
        ms = spec.get('ms', 20000 if tier == 'quick' else 120000)
        if en.obls:
            smt.discharge(en, ms, jobs=spec.get('jobs', 4), budget=spec.get('budget', 200 if tier == 'quick' else 2000))
        res['solve_s'] = round(time.time() - t1, 2)
        res['solver_cpu_s'] = round(sum(o.secs for o in en.obls) + en.feas_time, 2)
        res['obligations'] = len(en.obls) + en.trivial
        res['nontrivial'] = len(en.obls)
        res['simplified'] = en.trivial
        res['discharged'] = en.trivial + sum(o.status == 'unsat' for o in en.obls)
        be = {}
        for o in en.obls:
            if o.status == 'unsat':
                be[o.backend] = be.get(o.backend, 0) + 1
        res['backend'] = be
        kinds = {}
        for o in en.obls:
            kinds[o.kind] = kinds.get(o.kind, 0) + 1
        res['kinds'] = kinds
        fails = {}
        unk = []
        for o in en.obls:
            if o.status == 'sat':
                fails.setdefault((o.kind, o.label, o.loc), []).append(o)
            elif o.status != 'unsat':
                unk.append(o.name() + ' ' + str(o.stack))
        res['fails'] = [{'kind': k[0], 'label': k[1], 'loc': k[2], 'n': len(l), 'stack': l[0].stack, 'havoc': all(o.havoc for o in l),
                         'models': [o.model for o in l[:3] if o.model]} for k, l in fails.items()][:30]
        res['unknown'] = unk[:20]
        res['n_unknown'] = len(unk)
        # reachability of the marked points behind the preconditions
        cov = {}
        for lab, pcs in en.covers.items():
            ok = False
            for pc in pcs[:6]:
                if intz.check(pc.list() if pc else [], 500, True, True)[:2] == (z3.sat, True):
                    ok = True
                    break
                s = z3.Solver()
                s.set('timeout', 10000)
                for c in (pc.list() if pc else []):
                    s.add(t.z(c))
                if s.check() == z3.sat:
                    ok = True
                    break
            cov[lab] = ok
        res['covers'] = cov
        if tier == 'thorough' and res['status'] == 'ok':
            res['cvc5'] = cross_check(en, spec)
    except Exception as e:
        res['status'] = 'error'
        res['why'] = repr(e) + '\n' + traceback.format_exc()[-1500:]
    if en is not None:
        res['instructions'] = en.ninst
        res['functions'] = repo_functions(en)
        res['models'] = sorted(k for k in en.modelled if not k.startswith('dv_') and not k.startswith('llvm.'))[:200]
        res['assumed'] = sorted(en.assumed)
        res['loops_unrolled'] = en.loops_unrolled
        res['loops_cut'] = en.loops_cut
    res['wall_s'] = round(time.time() - t0, 2)
    with open(out, 'w') as f:
        json.dump(res, f)


def cross_check(en, spec, limit=40):
    """second solver on a sample of the obligations"""
    import z3
    import intz
    import smt
    import term as t
    n = ok = bad = 0
    obs = [o for o in en.obls if o.status == 'unsat']
    step = max(1, len(obs) // limit)
    for o in obs[::step]:
        s = z3.Solver()
        for c in smt.query(en, o):
            s.add(t.z(c))
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        p = subprocess.run(['cvc5', '--tlimit=20000', f.name], capture_output=True, text=True)
        os.unlink(f.name)
        n += 1
        if p.stdout.strip() == 'unsat':
            ok += 1
        elif p.stdout.strip() == 'sat':
            bad += 1
    return {'sampled': n, 'confirmed': ok, 'disagree': bad}


IGNORE_CTORS = ('_GLOBAL__sub_I_iostream',)


def run_ctors(en, st):
    import llvmc
    g = en.m.globals.get('llvm.global_ctors')
    if not g:
        return
    ini = llvmc.GetInitializer(g)
    c = en.m.const(ini)
    if c[0] != 'agg':
        return
    for e in c[2]:
        fn = e[2][1]
        if fn[0] == 'fn':
            r = en.call(st, fn[1], [])
            if len(r) != 1:
                raise RuntimeError('static initialiser forks')


def repo_functions(en):
    import subprocess
    out = []
    names = []
    for n in en.called:
        fn = en.m.funcs.get(n)
        if fn is None or fn.decl or fn.blocks is None:
            continue
        f = ''
        for b in fn.blocks:
            for i in b.insts:
                if i.file:
                    f = i.file
                    break
            if f:
                break
        if f.startswith('/repo/'):
            names.append(n)
    if names:
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        out = sorted(set(x[:160] for x in p.stdout.split('\n') if x))
    return out


# --------------------------------------------------------------------------- native side
def write_inputs(path, model):
    with open(path, 'w') as f:
        for k, v in model['s'].items():
            f.write('s %s %d\n' % (k, v))
        for k, b in model['b'].items():
            f.write('b %s %d %s\n' % (k, len(b), ' '.join(map(str, b))))


def run_native(exe, args, limit, fill='190'):
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:hard_rss_limit_mb=4000:max_malloc_fill_size=65536:malloc_fill_byte=' + fill
    env['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit, env=env)
        return p.returncode, p.stdout.decode('latin1')
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b'').decode('latin1') + '\n(timeout)'


def failed_native(rc, txt):
    return 'CONTRACT-FAILED' in txt or (rc not in (0, 3, -99) and rc is not None)


# --------------------------------------------------------------------------- main
def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    import registry
    prop = registry.PROPS[pid]
    work = tempfile.mkdtemp(prefix='dv-%s-' % pid)
    try:
        rc = check(pid, prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(pid, prop, tier, seed, work, t0):
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    rdir = os.path.join(evdir, 'replay')
    os.makedirs(rdir, exist_ok=True)
    units = prop['units']
    from concurrent.futures import ThreadPoolExecutor
    jobs = []        # (unit index, entry, spec)
    bcs = {}
    exes = {}
    errs = []
    exerrs = {}

    def prep(i):
        u = units[i]
        h = os.path.join(VERIF, 'contracts', u['harness'])
        ents = list(u['entries'])
        defs = list(u.get('defs', ())) + (['-DDV_THOROUGH'] if tier == 'thorough' else [])
        try:
            bcs[i] = build.extract(os.path.join(work, 'u%d' % i), h, u['sources'], ents, defs, u.get('shadow', ()))
        except build.BuildError as e:
            exerrs[i] = 'extract %s: %s' % (u['harness'], e)
        src = u['sources'] + u.get('native_sources', [])
        try:
            exes[i] = build.native(os.path.join(work, 'n%d' % i), h, src, ents, defs)
        except build.BuildError as e:
            try:
                # the code may have come to need more of the repository
                exes[i] = build.native(os.path.join(work, 'm%d' % i), h, src + build.ALL, ents, defs)
            except build.BuildError:
                errs.append('native %s: %s' % (u['harness'], e))
        if i in exerrs and i not in exes:
            errs.append(exerrs[i])

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(prep, range(len(units))))
    t_build = time.time() - t0
    results = {}
    pend = []
    for i, u in enumerate(units):
        for e, spec in u['entries'].items():
            if tier == 'quick' and spec.get('thorough_only'):
                continue
            pend.append((i, e, spec))
    # one child process per entry, at most 8 at a time
    running = {}
    todo = list(pend)
    limit = 520 if tier == 'quick' else 5400
    start = time.time()
    while todo or running:
        while todo and len(running) < 8:
            i, e, spec = todo.pop(0)
            out = os.path.join(work, 'r-%d-%s.json' % (i, e))
            if i not in bcs:
                results[(i, e)] = {'entry': e, 'status': 'unsupported', 'why': exerrs[i][:2000]}
                continue
            if spec.get('native_only'):
                results[(i, e)] = {'entry': e, 'status': 'native_only', 'why': spec['native_only']}
                continue
            pid_ = os.fork()
            if pid_ == 0:
                try:
                    verify_entry(bcs[i], e, spec, tier, out)
                finally:
                    os._exit(0)
            running[pid_] = (i, e, out)
        if not running:
            break
        w, _ = os.waitpid(-1, os.WNOHANG)
        if w == 0:
            if time.time() - start > limit:
                for q in list(running):
                    os.kill(q, 9)
                    os.waitpid(q, 0)
                    i, e, out = running.pop(q)
                    results[(i, e)] = {'entry': e, 'status': 'unsupported', 'why': 'time limit of the run'}
                continue
            time.sleep(0.05)
            continue
        if w not in running:
            continue
        i, e, out = running.pop(w)
        try:
            results[(i, e)] = json.load(open(out))
        except Exception as x:
            results[(i, e)] = {'entry': e, 'status': 'unsupported', 'why': 'verifier process died: %r' % x}

    # native: bounded search with a fixed number of cases; stands in where the verifier gave no answer
    def fuzz(i, e, spec, secs, s):
        n = spec.get('fuzz', 4000) * (1 if tier == 'quick' else 20)
        return run_native(exes[i], [e, 'fuzz', str(s), str(n), str(secs)], secs * 3 + 30)

    nat = {}
    with ThreadPoolExecutor(8) as ex:
        fs = {}
        for i, e, spec in pend:
            if i in exes and not spec.get('no_native'):
                fs[(i, e)] = ex.submit(fuzz, i, e, spec, 12 if tier == 'quick' else 120, seed)
        for k, f in fs.items():
            nat[k] = f.result()

    violations = []
    known = load_known(pid)
    notes = []
    undecided = []
    for i, e, spec in pend:
        r = results.get((i, e), {'status': 'unsupported', 'why': 'not run'})
        rc, txt = nat.get((i, e), (None, ''))
        base = os.path.join(rdir, '%s-%s' % (pid, e))
        hit = None
        for fl in r.get('fails', []):
            if fl['kind'] in ('overflow',):
                continue
            fl['refuted'] = bool(fl['models']) and i in exes and not spec.get('no_native')
            for m in fl['models']:
                f = base + '.inputs'
                write_inputs(f, m)
                if i not in exes or spec.get('no_native'):
                    break
                for fill in ('190', '0', '255'):
                    c, o = run_native(exes[i], [e, 'replay', f], 60, fill)
                    if failed_native(c, o):
                        hit = (fl, f, o)
                        break
                    if 'HELD' not in o:
                        fl['refuted'] = False
                if hit:
                    break
            if hit:
                break
        if hit:
            violations.append((e, 'obligation %s:%s at %s' % (hit[0]['kind'], hit[0]['label'], hit[0]['loc']),
                               save_replay(base, pid, e, hit[0], open(hit[1]).read(), hit[2]), True))
            continue
        if rc is not None and failed_native(rc, txt):
            violations.append((e, 'native search: ' + first_line(txt),
                               save_replay(base, pid, e, (r.get('fails') or [None])[0],
                                           '(search seed=%d)' % seed, txt), True))
            continue
        bad = [f for f in r.get('fails', []) if f['kind'] not in ('overflow',)]
        if bad and all(f['refuted'] for f in bad) and rc == 0:
            # the real code meets the contract on every counterexample: the verifier was imprecise,
            # nothing is proved and nothing is refuted
            r['status'] = 'unsupported'
            r['why'] = 'counterexample to %s:%s at %s does not reproduce' % (bad[0]['kind'], bad[0]['label'], bad[0]['loc'])
            bad = []
        if bad:
            # no concrete input from the verifier reproduces it: search harder before reporting
            found = False
            if i in exes and not spec.get('no_native'):
                for s in range(2, 6):
                    c, o = fuzz(i, e, dict(spec, fuzz=spec.get('fuzz', 4000) * 10), 20, seed * 1000 + s)
                    if failed_native(c, o):
                        violations.append((e, 'native search: ' + first_line(o),
                                           save_replay(base, pid, e, bad[0], '(search seed=%d)' % (seed * 1000 + s), o), True))
                        found = True
                        break
            if not found:
                fl = bad[0]
                violations.append((e, 'obligation %s:%s at %s' % (fl['kind'], fl['label'], fl['loc']),
                                   save_replay(base, pid, e, fl, json.dumps(fl['models'][:1]), ''), False))
            continue
        if r['status'] == 'native_only' and rc == 0:
            continue
        if r['status'] == 'ok' and not r.get('n_unknown'):
            # a point reached by the compiled code under the same preconditions is reachable
            dead = [c for c, v in r.get('covers', {}).items() if not v and not (rc == 0 and 'COVER %s ' % c in (txt or ''))]
            if not r.get('obligations') or dead or not r.get('covers'):
                undecided.append('%s: vacuous (%s)' % (e, dead or 'no cover point or no obligation'))
                r['vacuous'] = True
        elif (i, e) in nat and rc == 0:
            notes.append('%s: %s; bounded native search held (%s)' % (e, r.get('why', 'solver gave up on %d' % r.get('n_unknown', 0)),
                                                                    first_line(txt)))
        else:
            undecided.append('%s: %s' % (e, r.get('why', '')[:300]))

    write_evidence(pid, prop, tier, seed, results, nat, pend, violations, notes, undecided, errs, t0, t_build)
    code = 0
    listed = 0
    for e, what, path, conf in violations:
        kn = [k for k in known if k['entry'] == e and k['match'] in what]
        if kn:
            listed += 1
            continue
        code = 1
        print('failed: %s %s' % (e, what))
        print('VIOLATION property=%s replay=%s%s' % (pid, path, '' if conf else ' no-failing-input-found'))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if code == 0 and (undecided or errs):
        for u in undecided + errs:
            print('undecided: ' + u)
        if undecided or any(x for x in errs):
            return 2
    if code == 0:
        print('%s held: %d entries, %d obligations, %d discharged, %.1fs' % (
            pid, len(pend), sum(r.get('obligations', 0) for r in results.values()),
            sum(r.get('discharged', 0) for r in results.values()), time.time() - t0))
        for n in notes:
            print('note: ' + n)
    return code


def first_line(txt):
    for ln in txt.split('\n'):
        if 'CONTRACT-FAILED' in ln or 'ERROR: AddressSanitizer' in ln or 'HELD' in ln or 'runtime error' in ln:
            return ln.strip()[:200]
    return txt.strip().split('\n')[-1][:200] if txt.strip() else ''


def save_replay(base, pid, entry, fl, inputs, out):
    path = base + '.replay'
    with open(path, 'w') as f:
        f.write('property %s, contract %s\n' % (pid, entry))
        if fl:
            f.write('failed obligation: %s: %s\nat %s (%d instance(s))\n' % (fl['kind'], fl['label'], fl['loc'], fl['n']))
        f.write('--- inputs\n%s\n--- output of the real code on these inputs\n%s\n' % (inputs, out[-6000:]))
    return path


def load_known(pid):
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if not os.path.exists(p):
        return out
    for ln in open(p):
        m = re.match(r'KNOWN property=(\S+) entry=(\S+) match="([^"]*)" (.*)', ln.strip())
        if m and m.group(1) == pid:
            out.append({'entry': m.group(2), 'match': m.group(3), 'what': m.group(4)})
    return out


def write_evidence(pid, prop, tier, seed, results, nat, pend, violations, notes, undecided, errs, t0, t_build):
    ents = []
    tot = dis = 0
    bounded = []
    funcs = set()
    models = set()
    assumed = set(prop.get('assumptions', ()))
    be = {}
    cpu = 0.0
    for i, e, spec in pend:
        r = results.get((i, e), {})
        proved = r.get('status') == 'ok' and not r.get('n_unknown') and not r.get('fails') and not r.get('vacuous')
        d = {'contract': e, 'result': ('proved within bound' if spec.get('bound') else 'proved') if proved else
             r.get('status', 'not run'), 'bound': spec.get('bound'), 'obligations': r.get('obligations', 0),
             'by_solver': r.get('nontrivial', 0), 'by_simplifier': r.get('simplified', 0), 'discharged': r.get('discharged', 0),
             'kinds': r.get('kinds'), 'paths': r.get('paths'), 'instructions': r.get('instructions'),
             'seconds': r.get('wall_s'), 'covers': r.get('covers'), 'loops_unrolled': r.get('loops_unrolled'),
             'loops_by_induction': r.get('loops_cut')}
        if r.get('why'):
            d['why'] = r['why'][:400]
        if r.get('fails'):
            d['fails'] = [{k: f[k] for k in ('kind', 'label', 'loc', 'n', 'stack')} for f in r['fails'][:10]]
        if r.get('cvc5'):
            d['cvc5'] = r['cvc5']
        if (i, e) in nat:
            d['native_search'] = first_line(nat[(i, e)][1])
        ents.append(d)
        tot += r.get('obligations', 0)
        dis += r.get('discharged', 0)
        cpu += r.get('solver_cpu_s', 0) or 0
        for k, v in (r.get('backend') or {}).items():
            be[k] = be.get(k, 0) + v
        funcs |= set(r.get('functions') or ())
        models |= set(r.get('models') or ())
        assumed |= set(r.get('assumed') or ())
        if spec.get('bound'):
            bounded.append('%s: %s' % (e, spec['bound']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': prop.get('level', 'proof'),
          'coverage': {'obligations': tot, 'discharged': dis,
                       'checker_cmd': 'python3-vt /verif/dv/check.py ' + pid,
                       'trusted_base': ['clang 18 front end and the cleanup passes sroa, simplifycfg, jump-threading',
                                        '/verif/dv (IR semantics, memory model, loop rule)', 'z3 as SMT back end',
                                        'library contracts in /verif/dv/models.py and /verif/dv/rt/rt.cpp: ' +
                                        ', '.join(sorted(models))[:3000]],
                       'functions_under_contract': sorted(funcs), 'contracts': ents,
                       'discharged_by': be, 'solver_seconds': round(cpu, 2), 'build_seconds': round(t_build, 2),
                       'bounded': bounded,
                       'explanation': prop.get('explanation', '')},
          'assumptions': sorted(assumed) + ['memory allocation does not fail',
                                            'signed arithmetic wraps as in the shipped build',
                                            'single thread'],
          'violations': [{'contract': v[0], 'what': v[1], 'replay': v[2], 'input_found': v[3]} for v in violations],
          'notes': notes, 'undecided': undecided + errs, 'wall_s': round(time.time() - t0, 2)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
