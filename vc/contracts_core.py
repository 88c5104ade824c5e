"""Calls: resolution of a call through the installed tables, v-table pointers of
arguments, virtual_ptr, refused calls (C01, C06, C09, C12, C16 - C20)."""
import re
import z3
from engine import *
import engine
from contracts_policies import (And, Or, Not, Imp, All, REG, SVP, TABLE, REGISTRIES, RC, IV, FH, VV, UMAX, init_ghost, t_, KIND)

engine.USER_CLASSES.update({'Animal', 'Plain', 'Cat', 'VCat'})
EXTRA_TYPES.append(lambda t: OBJ('user') if t in engine.USER_CLASSES else None)
RECORDS['virtual_ptr'] = [('vp', ADDR), ('obj', REF('user'))]
EXTRA_TYPES.append(lambda t: REC('virtual_ptr') if re.match(r'virtual_ptr<(Animal|Plain|Cat|VCat), P[A-E](, void)?>$', t) else None)
EXTRA_TYPES.append(lambda t: OBJ('method_info') if re.match(r'method<.*>$', t) and '::' not in t.split('>')[-1] else None)
EXTRA_TYPES.append(lambda t: ADDR if re.search(r'\(\*\)\(', t) else None)
FIELDS['static.initialized'] = BOOL
GLOBALS.add('static.initialized')
FIELDS['method_info.slots_strides'] = VEC(INT)
FIELDS['static.methods'] = VEC(OBJ('method_info'))
GLOBALS.add('static.methods')

# the members of word
def _word(e, st, b, name, t):
    v = b.read(st)
    return S(INT if name == 'i' else ADDR, v.t)
for _f in ('pf', 'pw', 'i'):
    engine.Expr.member_hooks[('addr', _f)] = _word

NULL_VPTR = z3.Const('addr.null_vptr', I)
def gvar(rx, h):
    engine.Expr.globals_map.append((rx, h))
gvar(r'null_vptr', lambda e, st, n: Mem(NULL_VPTR))

# a call through a pointer: what is called, with what
def ptr_call(e, st, f, args, n):
    st.ghost['called'] = f.t
    st.ghost['calls'] = st.ghost.get('calls', z3.IntVal(0)) + 1
    st.ghost['callargs'] = [e.deref_val(st, a) for a in args]
    r = S(ctype(qual(n)), fresh(I, 'callres'))
    st.ghost['callres'] = r.t
    return r
engine.Calls.ptr_call_hook = staticmethod(ptr_call)

CONTRACTS = []
def mk(name, **kw):
    kw.setdefault('axioms', lambda c: class_axioms())
    CONTRACTS.append(type(name, (Contract,), dict(kw, name=name, unit_name='tu_core.cpp')))

def uninit(c):
    return Not(c.glob('static.initialized').t)
def ready(R, c):
    """what an initialized registry guarantees"""
    r = TABLE[R](c)
    if RC in REGISTRIES[R]:
        ini = c.glob('static.initialized').t
        r = [(l, Imp(ini, f)) for l, f in r]
    return r

def is_vp(v): return v.ct.kind == 'rec' and v.ct.a[0] in ('virtual_ptr', 'virtual_ptr_smart')
def is_plain(v): return v.ct.kind in ('obj', 'ref')
def is_smart(v): return v.ct.kind == 'rec' and v.ct.a[0] == 'smart'
def object_of(v):
    """the object a plain or smart pointer argument designates"""
    return v.field('p').t if is_smart(v) else v.t
def virtuals(c):
    """the virtual arguments, in order"""
    return [v for v in (c.a(i) for i in range(len(c.fr.args))) if is_vp(v) or is_plain(v) or is_smart(v)]
def vptr_of(R, c, v):
    """the v-table of the class of an argument"""
    if is_vp(v):
        vp = v.field('vp').t
        return c.mem()[vp] if IV in REGISTRIES[R] else vp
    return c.mem()[SVP[dyn_type(object_of(v))]]
def dispatch(R, c, arity):
    """the entry the tables hold for the classes of the arguments"""
    vs = virtuals(c)
    assert len(vs) == arity
    ss = c.fld('method_info.slots_strides')(c.this).arr
    m = c.mem()
    d = m[vptr_of(R, c, vs[0]) + ss[0]]
    if arity == 1:
        return d
    for i in range(1, arity):
        d = d + mul(m[vptr_of(R, c, vs[i]) + ss[i]], ss[arity + i - 1])
    return m[d]
def arg_pre(R, c):
    r = []
    for v in virtuals(c):
        if not is_vp(v):
            t = dyn_type(object_of(v))
            r.append(('identifiers are addresses', And(0 <= t, t < UMAX)))
            if v.ct.kind != 'obj':
                r.append(('pointers to objects are not null', object_of(v) != NULL))
            if RC not in REGISTRIES[R]:
                r.append(('the classes of arguments are registered', REG(t)))
    return r
def refusal(R, c):
    """why a call may be refused: no initialization, or a class that is not registered"""
    err, rep = c._s.ghost['error'], c._s.ghost['reported']
    o = c.old
    ini = o.glob('static.initialized').t
    cs = [And(err == 3, Not(ini))]
    for v in virtuals(o):
        if not is_vp(v):
            t = dyn_type(object_of(v))
            cs.append(And(ini, err == 1, rep == t, Not(REG(t))))
    return [('refused only before initialization or for an unregistered class, which is reported', Or(*cs))]

def ptype(c, i):
    p = params(c.fr.fn)[i]['type']
    return p.get('desugaredQualType') or p['qualType']

def call_contracts(R):
    checks = RC in REGISTRIES[R]
    P = 'P' + R
    for n, ar in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 4), (6, 3)):
        M = r'method<Id%d<%s>, .*, %s>::' % (n, P, P)
        def req(c, n=ar):
            return init_ghost(c) + ready(R, c) + arg_pre(R, c) + \
                   [('slots of the %d parameters, strides of all but the first' % n, c.fld('method_info.slots_strides')(c.this).len == 2 * n - 1)]
        def ens(c, n=ar):
            r = [('the entry found through the slots and strides of the method', c.result.t == dispatch(R, c.old, n))]
            if checks:
                r.append(('only after initialization', c.old.glob('static.initialized').t))
                for v in virtuals(c.old):
                    if not is_vp(v):
                        r.append(('only for registered classes', REG(dyn_type(object_of(v)))))
            return r
        ab = (lambda c: refusal(R, c)) if checks else None
        mk('call.resolve.%d.%s' % (n, R), match=M + r'resolve<', requires=req, ensures=ens, aborts=ab, this_class='method_info')
        def c_ens(c, n=ar):
            r = [('one overrider is called', z3.BoolVal('called' in c._s.ghost))]
            if 'called' not in c._s.ghost:
                return r
            r.append(('the overrider the tables hold for the classes of the arguments', c._s.ghost['called'] == dispatch(R, c.old, n)))
            xs = c._s.ghost['callargs']
            r.append(('the arguments, all of them', z3.BoolVal(len(xs) == len(c.fr.args))))
            for i, x in enumerate(xs):
                y = c.old.a(i)
                for k in y.c:
                    r.append(('argument %d is passed unchanged' % (i + 1), x.c[k] == y.c[k]))
                if 'unique_ptr' in ptype(c, i):
                    r.append(('argument %d has left the caller: one owner' % (i + 1), (c.local(i).field('obj') if is_vp(y) else c.local(i)).field('p').t == NULL))
            r.append(('its result is returned', c.result.t == c._s.ghost['callres']))
            return r
        mk('call.operator().%d.%s' % (n, R), match=M + r'operator\(\)\(', requires=req, ensures=c_ens, aborts=ab, this_class='method_info')

for R in 'ABCE':
    call_contracts(R)
