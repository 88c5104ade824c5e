#!/opt/veriftools/pyvenv/bin/python3
"""check.py --property C01 [--tier quick|thorough]

1. deductive part: extract the functions under contract from /repo's current
   headers, generate the obligations, discharge them (vc/);
2. concrete part: compile the replay harnesses against /repo's current headers
   and run them (bounded stand-in, and source of failing inputs).
Writes evidence/<id>.json; prints VIOLATION / KNOWN-FINDING lines.
"""
import argparse, concurrent.futures as cf, hashlib, itertools, json, multiprocessing as mp, os
import random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

if os.environ.get('PYTHONHASHSEED') != '0':      # the same obligations, in the same order, on every run
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vc'))
REPO = os.environ.get('OPENMETHOD_REPO', '/repo')
sys.dont_write_bytecode = True
import plan

NPROC = min(8, os.cpu_count() or 4)

# ------------------------------------------------------------- concrete part
def flags(h):
    return ['clang++', '-std=c++17', '-w', '-fno-access-control', '-I' + os.path.join(REPO, 'include'),
            h.get('opt', '-O1')] + h.get('flags', [])

def compile_harness(h, out):
    src = os.path.join(HERE, 'harness', h['src'])
    last = ''
    for extra in ([], ['-DNO_INTERNALS']):
        p = subprocess.run(flags(h) + extra + [src, '-o', out], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=300)
        if p.returncode == 0:
            return True, ' '.join(extra)
        last = p.stdout.decode(errors='replace')
    return False, last[-3000:]

def parse_done(text):
    d = {}
    for line in text.split('\n'):
        if line.startswith('DONE'):
            for k, v in re.findall(r'(\w+)=(\d+)', line):
                d[k] = int(v)
    return d

def run_chunk(h, exe, seed, first, count, tags, tmo):
    cmd = [exe, str(seed), str(first), str(count)]
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1')
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=tmo, env=env)
        out = p.stdout.decode(errors='replace')
        err = p.stderr.decode(errors='replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode(errors='replace')
        err, rc = 'timeout', None
    done = parse_done(out)
    fails = []
    for line in out.split('\n'):
        if line.startswith('FAIL '):
            t = line.split(' ')[1]
            if t in tags or t == 'crash':
                fails.append(line[:1500])
    if rc is not None and 'DONE' not in out and not fails:
        fails.append('FAIL crash case=%d:%d.. process ended with status %s: %s' % (
            seed, first, rc, (err or out)[-800:].replace('\n', ' | ')))
    if rc is None and not fails and not done:
        # a hang: report it only if a far longer run hangs as well
        done['timeouts'] = 1
    return dict(cmd=cmd, done=done, fails=fails, rc=rc)

class Concrete:
    """runs the harnesses of a property for a budget of seconds"""
    def __init__(self, prop, tmp, seed):
        self.prop, self.tmp, self.seed = prop, tmp, seed
        self.hs = plan.PROPS[prop]['harness']
        self.fails, self.counters, self.notes, self.compiled = [], {}, [], []
        self.next_first = [0] * len(self.hs)
        self.lock = threading.Lock()
        self.broken = []
        self.samples = []

    def compile(self):
        def one(ix):
            h = self.hs[ix]
            exe = os.path.join(self.tmp, 'h%d' % ix)
            ok, note = compile_harness(h, exe)
            return ix, ok, note, exe
        with cf.ThreadPoolExecutor(NPROC) as ex:
            for ix, ok, note, exe in ex.map(one, range(len(self.hs))):
                h = self.hs[ix]
                nm = h['src'] + ' ' + ' '.join(h.get('flags', []))
                if ok:
                    self.compiled.append((ix, exe))
                    if note:
                        self.notes.append('%s compiled with %s' % (nm, note))
                else:
                    self.broken.append(nm)
                    self.notes.append('%s does not compile: %s' % (nm, note[-600:]))

    def run(self, budget, workers=NPROC):
        t_end = time.time() + budget
        if not self.compiled:
            return
        def worker(w):
            k = w
            while time.time() < t_end and len(self.fails) < 20:
                ix, exe = self.compiled[k % len(self.compiled)]
                k += workers if len(self.compiled) <= workers else 1
                h = self.hs[ix]
                with self.lock:
                    first = self.next_first[ix]
                    self.next_first[ix] += h['chunk']
                    over = all(self.hs[i].get('max') and self.next_first[i] > self.hs[i]['max'] for i, _ in self.compiled)
                if h.get('max') and first >= h['max']:
                    if over:
                        return
                    k += 1
                    continue
                if not h.get('max'):
                    first += ix * 10000000      # the variants of a harness run different cases
                r = run_chunk(h, exe, self.seed, first, h['chunk'], self.prop_tags(), max(60, budget * 3))
                with self.lock:
                    for key, v in r['done'].items():
                        if key not in ('kind', 'fails'):
                            self.counters[key] = self.counters.get(key, 0) + v
                    self.counters['runs'] = self.counters.get('runs', 0) + 1
                    if len(self.samples) < 3:
                        self.samples.append('%s %s: seed %d, cases %d..%d -> %s' % (
                            h['src'], ' '.join(h.get('flags', [])), self.seed, first, first + h['chunk'] - 1,
                            ' '.join('%s=%d' % kv for kv in sorted(r['done'].items()))))
                    for f in r['fails']:
                        self.fails.append((h, r['cmd'], f))
                if r['fails']:
                    return
        ths = [threading.Thread(target=worker, args=(w,)) for w in range(workers)]
        for t in ths: t.start()
        for t in ths: t.join()

    def prop_tags(self):
        return plan.PROPS[self.prop]['tags']

# ------------------------------------------------------------ deductive part
def _gen(args):
    """in a forked worker: obligations of one contract instance -> texts"""
    cname, k = args
    import engine, solve, z3
    t = time.time()
    con = plan.contract(cname)
    fns = plan.functions(UNITS[con.unit_name], con)
    if k >= len(fns):
        return dict(name=cname, k=k, error='function not found: ' + con.match, kind='missing')
    f = fns[k]
    unit = UNITS[con.unit_name]
    engine._fresh = itertools.count(1000000)     # the same names whatever this worker did before
    try:
        v = engine.Verifier(unit, plan.visible(con), plan.EXTERNS)
        obs = v.verify(f, con)
        out = []
        for o in obs:
            triv = o.kind != 'reach' and z3.is_true(z3.simplify(o.goal))
            out.append(dict(label=o.label, kind=o.kind, triv=triv,
                            text=None if triv else solve.smt2(o.hyps, o.goal),
                            text2=None if triv or o.kind == 'reach' else solve.grounded(o)))
        return dict(name=cname, k=k, fn=unit.name(f), obs=out, gen=time.time() - t, reshaped=v.shape not in shapes().get(cname, [[]]),
                    trusted=sorted('extern (assumed contract): ' + str(e) for e in v.used_externs), callees=sorted(getattr(v, 'used_contracts', [])))
    except (engine.Unsupported, engine.Skeleton) as e:
        return dict(name=cname, k=k, fn=unit.name(f), error=str(e)[:600], kind=type(e).__name__)
    except Exception as e:
        return dict(name=cname, k=k, fn=unit.name(f), error=traceback.format_exc()[-900:], kind='internal')

UNITS = {}

_shapes = {}
def shapes():
    if not _shapes:
        _shapes.update(json.load(open(os.path.join(HERE, 'vc', 'shapes.json'))))
    return _shapes

def load_units(names, log):
    import cxxast
    for n in names:
        try:
            UNITS[n] = cxxast.Unit(os.path.join(HERE, 'vc', n))
        except Exception as e:
            log.append('extraction of %s failed: %s' % (n, str(e)[-600:]))

class Deductive:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.results, self.failed, self.undecided, self.notes = [], [], [], []
        self.n_obl = self.n_ok = 0
        self.backends, self.solver_s = {}, 0.0
        self.funcs, self.trusted = [], set()

    def run(self, deadline):
        import solve
        names = plan.PROPS[self.prop]['contracts']
        if not names:
            return
        lemmas = [n for n in names if n.startswith('lemma:')]
        names = [n for n in names if not n.startswith('lemma:')]
        load_units(sorted({plan.contract(n).unit_name for n in names}), self.notes)
        tasks = []
        for n in names:
            con = plan.contract(n)
            if con.unit_name not in UNITS:
                self.undecided.append(dict(fn=n, why='extraction failed'))
                continue
            cnt = max(1, len(plan.functions(UNITS[con.unit_name], con)))
            lim = con.instances if self.tier == 'quick' else 99
            tasks += [(n, k) for k in range(min(cnt, lim))]
        pend = []
        ctx = mp.get_context('fork')
        with ctx.Pool(min(NPROC, max(1, len(tasks)))) as pool, cf.ThreadPoolExecutor(NPROC) as ex:
            it, left = pool.imap_unordered(_gen, tasks), dict.fromkeys(tasks)
            while left:
                try:
                    g = it.next(timeout=max(20, deadline - time.time()))
                except mp.TimeoutError:
                    for n, k in left:
                        self.undecided.append(dict(fn=n, contract=n, why='time budget: generation of the obligations'))
                    break
                left.pop((g['name'], g['k']), None)
                if 'error' in g:
                    self.undecided.append(dict(fn=g.get('fn', g['name']), contract=g['name'], why='%s: %s' % (g['kind'], g['error'])))
                    continue
                self.funcs.append(dict(contract=g['name'], function=g['fn'], obligations=len(g['obs']), generation_s=round(g['gen'], 2), callees=g['callees']))
                self.trusted.update(g['trusted'])
                seen = {}
                for o in g['obs']:
                    if o['triv']:
                        pend.append((g, o, None))
                        continue
                    key = o['text']
                    if key not in seen:
                        seen[key] = ex.submit(solve.decide, o['text'], solve.REACH_STAGES if o['kind'] == 'reach' else solve.stages_for(plan.contract(g['name']).first),
                                              None if o['kind'] == 'reach' else deadline, o['text2'])
                    pend.append((g, o, seen[key]))
            for l in lemmas:
                for label, text in plan.lemma(l):
                    g = dict(name=l, fn=l)
                    pend.append((g, dict(label=label, kind='lemma', text=text), ex.submit(solve.decide, text, solve.STAGES, deadline)))
            done = set()
            # a function is vacuous when none of its ends is reachable
            live = {id(g) for g, o, fut in pend if o['kind'] == 'reach' and fut is not None and fut.result()[0] != 'unsat'}
            for g, o, fut in pend:
                self.n_obl += 1
                if fut is None:
                    st, be, log = 'unsat', 'simplify', []
                else:
                    st, be, log = fut.result()
                    if id(fut) not in done:
                        done.add(id(fut))
                        self.solver_s += sum(x[2] for x in log)
                ok = st == 'unsat'
                if o['kind'] == 'reach':
                    ok = id(g) in live
                    be = 'reachability (not refuted)'
                if ok:
                    self.n_ok += 1
                    self.backends[be] = self.backends.get(be, 0) + 1
                elif any('time budget' in str(x[1]) for x in log):
                    self.undecided.append(dict(fn=g['fn'], contract=g['name'], why='time budget: ' + o['label']))
                elif g.get('reshaped'):
                    # the loops are not those the invariants were written for: the annotations may not fit
                    self.undecided.append(dict(fn=g['fn'], contract=g['name'], why='loops changed, not discharged: ' + o['label']))
                else:
                    self.failed.append(dict(contract=g['name'], function=g['fn'], obligation=o['label'], kind=o['kind'], status=st,
                                            solver=log, text=o['text']))

# -------------------------------------------------------------------- driver
def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'open: property=(\S+) match=/(.*?)/ (.*)', line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a = ap.parse_args()
    prop, tier = a.property, ('thorough' if a.tier == 'thorough' else 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    P = plan.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev_path = os.path.join(HERE, 'evidence', prop + '.json')
    try:
        conc = Concrete(prop, tmp, seed)
        ded = Deductive(prop, tier)
        budget = P.get('quick_s', 12) if tier == 'quick' else P.get('thorough_s', 240)
        comp = threading.Thread(target=conc.compile)
        comp.start()
        ded.run(deadline=t0 + (300 if tier == 'quick' else 700))
        comp.join()
        conc.run(budget)
        searched = budget
        if (ded.failed or ded.undecided) and not conc.fails:
            # look harder for a failing input before saying there is none
            extra = P.get('search_s', 60) if tier == 'quick' else 300
            conc.run(extra)
            searched += extra
        kf, viol = [], []
        for h, cmd, f in conc.fails:
            for rx, text in known(prop):
                if rx.search(f):
                    kf.append(text); break
            else:
                viol.append((h, cmd, f))
        out_lines, nviol = [], 0
        for k in sorted(set(kf)):
            out_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k))
        rdir = os.path.join(HERE, 'evidence', 'replay')
        if viol or ded.failed:
            os.makedirs(rdir, exist_ok=True)
            rp = os.path.join(rdir, '%s.txt' % prop)
            with open(rp, 'w') as fo:
                if viol:
                    h, cmd, f = viol[0]
                    nviol = len(viol)
                    fo.write('property %s: failing input on the real code\n' % prop)
                    fo.write('build: %s %s -o harness\n' % (' '.join(flags(h)), 'harness/' + h['src']))
                    fo.write('run:   ./harness %s\n' % ' '.join(cmd[1:]))
                    for _, _, x in viol[:10]:
                        fo.write('  ' + x + '\n')
                if ded.failed:
                    fo.write('\nobligations not discharged (%d of %d):\n' % (len(ded.failed), ded.n_obl))
                    for x in ded.failed:
                        fo.write('  %s / %s: %s [%s] %s %s\n' % (x['contract'], x['function'][:200], x['obligation'], x['kind'], x['status'], x['solver']))
                    fo.write('\nfirst obligation, as given to the solvers:\n' + (ded.failed[0]['text'] or '')[:200000] + '\n')
                fo.flush()
            if viol:
                out_lines.append('VIOLATION property=%s replay=%s' % (prop, rp))
            else:
                nviol = len(ded.failed)
                x = ded.failed[0]
                print('obligation not discharged: %s: %s' % (x['contract'], x['obligation']))
                out_lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
        cases = conc.counters.get('cases', 0)
        evals = sum(conc.counters.get(k, 0) for k in P.get('evals', ['cases']))
        nontriv = sum(conc.counters.get(k, 0) for k in P.get('nontrivial', []))
        bounded = dict(
            label='bounded: concrete executions of the real code, never counted as proved',
            evaluations=evals, distinct_nontrivial=nontriv,
            rule=P['rule'], samples=conc.samples or ['none'], counters=conc.counters,
            harnesses=[h['src'] + ' ' + ' '.join(h.get('flags', [])) for h in conc.hs],
            seconds=searched, notes=conc.notes)
        level = P['level']
        cov = {}
        if level == 'proof':
            cov.update(obligations=ded.n_obl, discharged=ded.n_ok,
                checker_cmd='/verif/check.py --property %s  (z3-new 4.x and cvc5 1.1.2 on the generated SMT-LIB)' % prop,
                trusted_base=plan.TRUSTED + sorted(ded.trusted) + P.get('trusted', []),
                functions_under_contract=ded.funcs, back_ends=ded.backends,
                solver_s=round(ded.solver_s, 1), undecided=ded.undecided, extraction_notes=ded.notes,
                failed=[dict((k, v) for k, v in x.items() if k != 'text') for x in ded.failed],
                not_proved=P.get('gap', ''), bounded=bounded)
        else:
            cov.update(bounded)
            if ded.n_obl:
                cov['deductive'] = dict(obligations=ded.n_obl, discharged=ded.n_ok, functions_under_contract=ded.funcs,
                    back_ends=ded.backends, solver_s=round(ded.solver_s, 1), undecided=ded.undecided)
        ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                  assumptions=plan.ASSUMPTIONS + P.get('assumptions', []),
                  wall_s=round(time.time() - t0, 1), violations=nviol)
        tmp_ev = ev_path + '.tmp'
        json.dump(ev, open(tmp_ev, 'w'), indent=1)
        os.replace(tmp_ev, ev_path)
        print('%s %s: %d/%d obligations discharged (%.0f s solver), %d undecided functions; %d cases run (%s); %.0f s' % (
            prop, tier, ded.n_ok, ded.n_obl, ded.solver_s, len(ded.undecided), cases,
            'harness does not compile' if conc.hs and not conc.compiled else 'ok', time.time() - t0))
        for u in ded.undecided:
            print('undecided (bounded check stands in): %s: %s' % (u.get('contract', ''), u['why'][:300].replace('\n', ' | ')))
        for l in out_lines:
            print(l)
        return 1 if (viol or ded.failed) else 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

if __name__ == '__main__':
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 1
        # an internal error of the check: never a verdict about the code
        print('internal error of the check')
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
