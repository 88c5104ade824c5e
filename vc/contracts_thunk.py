"""Refused calls (C02, C18), the thunks that convert the arguments (C20)."""
import re
import z3
from engine import *
import engine
from contracts_policies import And, Or, Not, Imp, REGISTRIES, RC, IV, init_ghost, KIND
from contracts_core import virtuals, is_vp, ready
from contracts_vptr import obj_of, typed, cls_of, designates, null_mem, NULL_VPTR, VPS, ptypes, boxed_null

RECORDS['no_overrider'] = RECORDS['ambiguous_call'] = [('method', ADDR), ('arity', INT), ('types', VEC(ADDR))]
KIND.update({'no_overrider': 6, 'ambiguous_call': 7})
EXTRA_TYPES.append(lambda t: REC('no_overrider') if t == 'bad_call' else None)

EXTERNS = []
CONTRACTS = []
def mk(name, **kw):
    kw.setdefault('axioms', lambda c: class_axioms())
    CONTRACTS.append(type(name, (Contract,), dict(kw, name=name, unit_name='tu_core.cpp')))

def args(c): return [c.a(i) for i in range(len(c.fr.args))]
def virtual_positions(nm):
    """positions of the virtual parameters, from the signature of the method"""
    m = re.search(r'method<Id\d<\w+>, \w+ \(', nm)
    d, out, cur = 0, [], ''
    for ch in nm[m.end():]:
        if ch in '<(':
            d += 1
        if ch in '>)':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    out.append(cur)
    return [i for i, p in enumerate(out) if re.search(r'virtual_(ptr)?<', p)]

def bad_calls(R):
    for kind, fn in ((6, 'fn_not_implemented'), (7, 'fn_ambiguous')):
        for n in (1, 2, 3, 4, 5, 6, 7):
            def req(c):
                return init_ghost(c) + [('arguments are not null', obj_of(v)[0] != NULL) for v in args(c) if obj_of(v) is not None]
            def ens(c):
                return [('does not return', z3.BoolVal(False))]
            def ab(c, kind=kind):
                g, o = c._s.ghost, c.old
                xs = args(o)
                vs = virtual_positions(c._e.u.name(c.fr.fn))
                r = [('the error is %s' % ('no_overrider' if kind == 6 else 'ambiguous_call'), g['error'] == kind)]
                if 'arity' not in g:
                    return r + [('an error object is passed to the handler', z3.BoolVal(False))]
                r.append(('the number of virtual arguments', g['arity'] == len(vs)))
                r.append(('the method', is_method(c, g['method'])))
                for k, i in enumerate(vs[:16]):        # the documented maximum
                    r.append(('the class of virtual argument %d' % (k + 1), g['types'].arr[k] == dyn_type(obj_of(xs[i])[0])))
                return r
            mk('badcall.%s.%d.%s' % (fn, n, R), match=r'method<Id%d<P%s>, .*>::%s\(' % (n, R, fn), requires=req, ensures=ens, aborts=ab)
def is_method(c, t):
    """t is the type_info of the method the function belongs to"""
    m = re.search(r'method<(Id\d<P\w>)', c._e.u.name(c.fr.fn)).group(1)
    return z3.BoolVal(str(z3.simplify(t)).startswith('typeid:method<%s,' % m))

for R in 'AC':
    bad_calls(R)

# ---------------------------------------------------------------- thunks
def split_params(s):
    d, out, cur = 0, [], ''
    for ch in s:
        if ch in '<([':
            d += 1
        if ch in '>)]':
            if d == 0:
                break
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip()); cur = ''
        else:
            cur += ch
    return out + [cur.strip()]
def overrider_of(nm):
    """name and parameter types of the overrider a thunk calls"""
    m = re.search(r'thunk<&?\(?\s*(?:\w+ )?(\w+)<.*?\)?, int \(\*\)\(', nm)
    return m.group(1), split_params(nm[m.end():])

def called_is(c, t, name):
    m = re.match(r'fn:(\w+)$', str(z3.simplify(t)))
    return bool(m and re.search(r'\b%s$' % name, re.split(r'[<(]', c._e.dem(m.group(1)))[0]))

def thunks(R):
    def req(c):
        r = init_ghost(c) + [null_mem(c)]
        for i, (v, t) in enumerate(zip(args(c), ptypes(c))):
            o = obj_of(v)
            if o is None:
                continue
            r.append(('arguments are pointers to their class', typed(v, t)))
            r.append(('arguments are not null', o[0] != NULL))
            if v.ct in VPS:
                r.append(('virtual pointers are well formed', paired(R, c, v)))
        return r
    def ens(c):
        nm = c._e.u.name(c.fr.fn)
        g, o = c._s.ghost, c.old
        name, ps = overrider_of(nm)
        r = [('an overrider is called', z3.BoolVal('called' in g))]
        if 'called' not in g:
            return r
        r.append(('the overrider of the thunk, once', And(z3.BoolVal(called_is(c, g['called'], name)), g['calls'] == 1)))
        xs, ys = g['callargs'], args(o)
        r.append(('as many arguments as the method has', z3.BoolVal(len(xs) == len(ys))))
        r.append(('its result is returned', c.result.t == g['callres']))
        vs = virtual_positions(nm)
        for i, (x, y) in enumerate(zip(xs, ys)):
            k = 'argument %d ' % (i + 1)
            if i not in vs:
                r.append((k + 'is passed unchanged', And(*[x.c[f] == y.c[f] for f in y.c])))
                continue
            p, cb = obj_of(y)
            q, qcb = obj_of(x)
            r.append((k + 'is the same object, as the class the overrider expects', q == as_class(cls_of(ps[i]), p)))
            if y.ct in VPS:
                r.append((k + 'carries the v-table pointer of the argument', x.field('vp').t == y.field('vp').t))
            if cb is not None and 'shared_ptr' in ps[i]:
                r.append((k + 'shares the ownership of the argument', qcb == cb))
            if 'unique_ptr' in ps[i]:
                r.append((k + 'has left the argument: one owner', obj_of(c.local(i))[0] == NULL))
        return r
    mk('thunk.%s' % R, match=r'method<Id\d<P%s>, .*>::thunk<.*>::fn\(' % R, requires=req, ensures=ens)
from contracts_vptr import paired
for R in 'ABCE':
    thunks(R)
