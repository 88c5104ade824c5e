"""Discharging obligations: z3 and cvc5, in parallel, as subprocesses."""
import subprocess, time, os, concurrent.futures as cf
import z3

Z3 = 'z3-new'
STAGES = [
    ('z3', [Z3, '-in', '-T:4', 'smt.mbqi=false', 'smt.auto_config=false'], 6),
    ('z3-ground', [Z3, '-in', '-T:4', 'smt.mbqi=false', 'smt.auto_config=false', 'smt.solve_eqs=false', 'smt.elim_unconstrained=false'], 6),
    ('cvc5', ['cvc5', '--lang=smt2', '--tlimit=8000', '-q'], 10),
    ('z3-plain', [Z3, '-in', '-T:4', 'smt.mbqi=false', 'smt.auto_config=false', 'smt.solve_eqs=false', 'smt.elim_unconstrained=false'], 6),
    ('z3-seed11', [Z3, '-in', '-T:4', 'smt.mbqi=false', 'smt.auto_config=false', 'smt.random_seed=11'], 6),
    ('z3-4.8', ['z3', '-in', '-T:6', 'smt.mbqi=false', 'smt.auto_config=false'], 8),
    ('z3-long-ground', [Z3, '-in', '-T:25', 'smt.mbqi=false', 'smt.auto_config=false', 'smt.solve_eqs=false', 'smt.elim_unconstrained=false'], 28),
    ('z3-mbqi', [Z3, '-in', '-T:8'], 10),
    ('cvc5-ground', ['cvc5', '--lang=smt2', '--tlimit=8000', '-q'], 10),
    ('z3-seed', [Z3, '-in', '-T:25', 'smt.mbqi=false', 'smt.auto_config=false', 'smt.random_seed=7', 'smt.qi.eager_threshold=50'], 28),
    ('cvc5-long', ['cvc5', '--lang=smt2', '--tlimit=40000', '-q', '--full-saturate-quant'], 44),
]
def stages_for(first):
    """the same back ends, the one that suits a contract tried before the others"""
    return sorted(STAGES, key=lambda s: s[0] != first) if first else STAGES
REACH_STAGES = [
    ('z3', [Z3, '-in', '-T:2', 'smt.mbqi=false', 'smt.auto_config=false'], 4),
]
FAILED = [0]        # obligations given up on: after a few, the verdict is known and the others get the short stages

_n = [0]
def ground(goal):
    """the goal for arbitrary values of its variables: what it assumes, what is
    left to prove, and (as applications of a predicate that means nothing) the
    terms that matter, which the solvers otherwise only see under a quantifier"""
    hyps, look = [], []
    _n[0] = 0
    def seen(t):
        P = z3.Function('seen!%s' % ''.join(ch if ch.isalnum() else '_' for ch in str(t.sort())), t.sort(), z3.BoolSort())
        hyps.append(P(t))
    def strip(f):
        if z3.is_quantifier(f) and f.is_forall():
            vs = []
            for i in range(f.num_vars()):
                _n[0] += 1
                vs.append(z3.Const('sk!%s!%d' % (f.var_name(i), _n[0]), f.var_sort(i)))
            sub = list(reversed(vs))
            for i in range(f.num_patterns()):
                for t in f.pattern(i).children():
                    look.append(z3.substitute_vars(t, *sub))
            return strip(z3.substitute_vars(f.body(), *sub))
        if z3.is_implies(f):
            hyps.append(f.arg(0))
            return strip(f.arg(1))
        return f
    goal = strip(goal)
    done = {}
    def closed(t):
        k = t.get_id()
        if k not in done:
            if z3.is_var(t):
                done[k] = False
            elif z3.is_quantifier(t):
                closed(t.body())
                done[k] = False
            else:
                cs = [closed(x) for x in t.children()]
                done[k] = all(cs)
                if not done[k]:
                    look.extend(x for x, ok in zip(t.children(), cs) if ok and x.num_args())
        return done[k]
    closed(goal)
    for t in look:
        if z3.is_app(t) and not z3.is_bool(t):
            seen(t)
    return hyps, goal

def grounded(o):
    h2, g2 = ground(o.goal)
    return smt2(list(o.hyps) + h2, g2)

def smt2(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    if goal is not None:
        s.add(z3.Not(goal))
    txt = s.to_smt2()
    return '(set-logic ALL)\n' + '\n'.join(l for l in txt.split('\n') if not l.startswith(';') and not l.startswith('(set-info'))

def run(cmd, text, tmo):
    t = time.time()
    try:
        p = subprocess.run(cmd, input=text.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=tmo)
        out = p.stdout.decode(errors='replace').strip()
    except subprocess.TimeoutExpired:
        out = 'timeout'
    first = out.split('\n')[0].strip() if out else ''
    if first not in ('sat', 'unsat', 'unknown', 'timeout'):
        if 'unsat' in out.split('\n'):
            first = 'unsat'
        else:
            first = 'timeout' if 'interrupted' in out or 'timeout' in out else 'error: ' + first[:200]
    return first, time.time() - t

def decide(text, stages, deadline=None, text2=None):
    log = []
    for k, (name, cmd, tmo) in enumerate(stages):
        if k >= 3 and FAILED[0] >= 8:
            log.append((name, 'skipped', 0))
            continue
        if deadline and time.time() > deadline:
            log.append((name, 'skipped: time budget', 0))
            continue
        if name.endswith('ground') and text2 is None:
            continue
        r, dt = run(cmd, text2 if name.endswith('ground') else text, tmo)
        log.append((name, r, round(dt, 3)))
        if r in ('unsat', 'sat'):
            if r == 'sat' and name.startswith('z3') and 'mbqi' not in name and name != 'z3':
                continue
            FAILED[0] += r == 'sat' and stages is not REACH_STAGES
            return r, name, log
    FAILED[0] += stages is not REACH_STAGES
    return 'unknown', None, log

class Result:
    pass

def discharge(obls, workers=8, deadline=None, stages=None):
    """-> list of Result in the order of obls"""
    res = [None] * len(obls)
    cache = {}
    def work(i, text, reach, text2=None):
        r = Result()
        if reach:
            r.status, r.backend, r.log = decide(text, REACH_STAGES)
        else:
            r.status, r.backend, r.log = decide(text, stages or STAGES, deadline, text2)
        r.time = sum(x[2] for x in r.log)
        return i, r
    with cf.ThreadPoolExecutor(workers) as ex:
        futs = []
        for i, o in enumerate(obls):
            if o.kind != 'reach' and z3.is_true(z3.simplify(o.goal)):
                r = Result()
                r.status, r.backend, r.log, r.time = 'unsat', 'simplify', [], 0
                res[i] = r
                continue
            text = smt2(o.hyps, o.goal)
            o.text = text
            if text in cache:
                cache[text].append(i)
                continue
            cache[text] = [i]
            text2 = grounded(o) if o.kind != 'reach' else None
            futs.append(ex.submit(work, i, text, o.kind == 'reach', text2))
        for f in cf.as_completed(futs):
            i, r = f.result()
            for j in cache[obls[i].text]:
                res[j] = r
    return res
