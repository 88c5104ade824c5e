"""In-place v-table pointers: every constructor and destructor of
inplace_vptr_base and inplace_vptr_derived leaves, in every root of the object
and nowhere else, the v-table pointer the life of the object calls for (C17).

The cell of a root is the subobject of the root class; sub_C(whole(o)) is the
subobject of class C."""
import re
import z3
from engine import *
import engine
from contracts_policies import And, Or, Not, Imp, init_ghost
from contracts_vptr import svp

# the hierarchy of tu_inplace.cpp, written from its declarations
BASES = {'Ra': [], 'Rb': [], 'Rc': [], 'La': ['Ra'], 'Lb': ['La'], 'Lm': ['Rb'], 'Md': ['Lb', 'Lm', 'Rc'], 'Mq': ['Md'], 'Mb': ['Rc', 'La']}
ROOTS = ('Ra', 'Rb', 'Rc')
NAMES = {c + s for c in BASES for s in ('_d', '_i')}
engine.USER_CLASSES.update(NAMES)
engine.QUIET_CLASSES.update(NAMES)
CELL = 'user.boost_openmethod_vptr'
FIELDS[CELL] = ADDR
EXTRA_TYPES.append(lambda t: OBJ('user') if re.match(r'inplace_vptr_(base|derived)<(R|L|M)\w_[di]\b.*>$', t) else None)

def roots(c):
    return [c] if not BASES[c] else [r for b in BASES[c] for r in roots(b)]

CONTRACTS = []
def mk(name, **kw):
    CONTRACTS.append(type(name, (Contract,), dict(kw, name=name, unit_name='tu_inplace.cpp', instances=99, this_class='user', inline=True)))

def names(c):
    return re.findall(r'\b((?:R|L|M)\w)_([di])\b', c._e.u.name(c.fr.fn))
def axioms(c):
    s = names(c)[0][1]
    return class_axioms({n + '_' + s for n in BASES})
def subobjects(c, this, cls, s):
    """this is a subobject of class cls; the roots of an object are different subobjects"""
    return [('a subobject of its class', And(this == as_class(cls + '_' + s, this), this != NULL)),
            ('the roots of an object are different subobjects', z3.Distinct(*[as_class(r + '_' + s, this) for r in ROOTS]))]
def given(c, s, cls):
    """what a cell that designates the v-table of a class holds"""
    a = svp(cls + '_' + s)
    return a if s == 'i' else c.old.mem()[a]
def cells(c, this, s, want):
    """cell of each root in `want` holds that value; every other cell is unchanged"""
    now, old = c.fld(CELL), c.old.fld(CELL)
    r = [('%s: %s' % (root, l), now(as_class(root + '_' + s, this)).t == v) for root, (l, v) in want.items()]
    x = fresh(Ref, 'cell')
    r.append(('no other v-table pointer is changed', Imp(And(*[x != as_class(q + '_' + s, this) for q in want]), now(x).t == old(x).t)))
    m = fresh(I, 'addr')
    r.append(('no v-table is changed', c.mem()[m] == c.old.mem()[m]))
    return r

def this_of(c): return c.old.this
def req(c):
    (cls, s), *_ = names(c)
    return init_ghost(c) + subobjects(c, c.this, cls, s)
def ctor(c):
    (cls, s), *_ = names(c)
    return cells(c, this_of(c), s, {r: ('the v-table of the class under construction', given(c, s, cls)) for r in roots(cls)})
def dtor(c):
    (cls, s), *_ = names(c)
    if not BASES[cls]:
        return cells(c, this_of(c), s, {cls: ('no v-table', z3.IntVal(0))})
    want = {}
    for b in BASES[cls]:
        for r in roots(b):
            want[r] = ('the v-table of the base to be destroyed next', given(c, s, b))
    return cells(c, this_of(c), s, want)
mk('inplace.constructor', match=r'inplace_vptr_(base|derived)<[RLM].*>::inplace_vptr_(base|derived)\(\)', requires=req, ensures=ctor, modifies=(CELL,), axioms=axioms)
mk('inplace.destructor', match=r'inplace_vptr_(base|derived)<[RLM].*>::~inplace_vptr_(base|derived)\(\)', requires=req, ensures=dtor, modifies=(CELL,), axioms=axioms)

def u_req(c):
    (to, s), (cls, _) = names(c)[:2]
    return init_ghost(c) + subobjects(c, c.a(0).t, cls, s)
def u_ens(c):
    (to, s), (cls, _) = names(c)[:2]
    return cells(c, c.old.a(0).t, s, {r: ('the v-table of the class given', given(c, s, to)) for r in roots(cls)})
mk('inplace.update', match=r'boost_openmethod_update_vptr<[RLM]\w_[di], [RLM]\w_[di]>\(', requires=u_req, ensures=u_ens, modifies=(CELL,), axioms=axioms)

def l_req(c):
    cls, s = names(c)[0]
    o = c.a(0).t
    cell = lambda r: c.fld(CELL)(as_class(r + '_' + s, o)).t
    return init_ghost(c) + subobjects(c, o, cls, s) + [('the roots of the argument agree', And(*[cell(r) == cell(roots(cls)[0]) for r in roots(cls)]))]
def l_ens(c):
    cls, s = names(c)[0]
    o = c.old.a(0).t
    v = c.old.fld(CELL)(as_class(roots(cls)[0] + '_' + s, o)).t
    return [('the v-table the object carries', c.result.t == (c.old.mem()[v] if s == 'i' else v))]
mk('inplace.look', match=r'^boost::openmethod::boost_openmethod_vptr\([RLM]\w_[di] const&', requires=l_req, ensures=l_ens, axioms=axioms)
def a_ens(c):
    return l_ens(c) + [('only after initialization', c.old.glob('static.initialized').t)]
def a_ab(c):
    return [('refused only before initialization', And(c._s.ghost['error'] == 3, Not(c.old.glob('static.initialized').t)))]
mk('inplace.acquire', match=r'detail::acquire_vptr<P[AC], [RLM]\w_[di]>\(', requires=l_req, ensures=a_ens, aborts=a_ab, axioms=axioms)
