"""virtual_ptr: every construction, conversion, copy, move, assignment and cast
(C12, C16), final_virtual_ptr (C19).

A pointer to an object is the address of a subobject; sub_C(whole(o)) is the
subobject of class C of the complete object.  Standard smart pointers are
records: the pointer, and the control block (shared_ptr) that owns the object."""
import re
import z3
from engine import *
import engine
from contracts_policies import And, Or, Not, Imp, REG, SVP, REGISTRIES, RC, IV, UMAX, init_ghost, KIND
from contracts_core import NULL_VPTR, ready, uninit, gvar

CLS = r'(Animal|Plain|Cat|VCat)'
SM = r'(shared|unique|intrusive)_ptr<\s*(\w+)\s*(?:, default_delete<\s*\w+\s*>\s*)?>'
RECORDS['smart'] = [('p', REF('user')), ('cb', ADDR)]
RECORDS['virtual_ptr_smart'] = [('vp', ADDR), ('obj', REC('smart'))]
EXTRA_TYPES.append(lambda t: REC('smart') if re.match(SM + '$', t) else None)
EXTRA_TYPES.append(lambda t: REC('virtual_ptr_smart') if re.match(r'virtual_ptr<\s*' + SM + r'\s*, P[A-E](, void)?>$', t) else None)
EXTRA_TYPES.append(lambda t: REC('virtual_ptr') if re.match(r'virtual_ptr<\s*' + CLS + r'\s*, P[A-E](, void)?>$', t) else None)
RECORDS['final_error'] = [('static_type', ADDR), ('dynamic_type', ADDR)]
KIND['final_error'] = 5
VPS = (REC('virtual_ptr'), REC('virtual_ptr_smart'))

def svp(cls): return z3.Const('static_vptr:' + cls, I)
gvar(r'static_vptr<', lambda e, st, n: Mem(svp(re.search(r'static_vptr<(\w+)', e.dem(e.u.by_id[n.get('referencedMemberDecl') or n['referencedDecl']['id']]['mangledName'])).group(1))))

# ------------------------------------------------- standard smart pointers
def elem_class(t):
    m = re.match(r'(?:const )?(?:\w+::)*' + SM, norm(t))
    if not m:
        raise Unsupported('smart pointer type ' + t)
    return m.group(2)
def converted(v, src, dst):
    """the same object as a pointer to another class"""
    if src == dst:
        return v
    p = v.field('p').t
    return Val(REC('smart'), {'p': z3.If(p == NULL, NULL, as_class(dst, p)), 'cb': v.c['cb']})
def null_smart():
    return default(REC('smart'))
def smart_ctor(e, st, n):
    t = qual(n)
    args = [a for a in e._in(n) if a['kind'] != 'CXXDefaultArgExpr']
    if not args:
        return null_smart()
    x = e.unspec(e.ev(st, args[0]))
    v = e.read(st, x)
    if isinstance(v, Ptr) and isinstance(v.lv, Obj):
        v = S(REF(v.lv.cls), v.lv.ref)
    if isinstance(v, Val) and v.ct == REC('smart'):
        r = converted(v, elem_class(qual(args[0])), elem_class(t))
        if '&&' in n['ctorType']['qualType'] and isinstance(x, LV) and not n.get('elidable'):
            e.assign(st, x, null_smart())
        return r
    if isinstance(v, Val) and v.ct.kind == 'ref':       # takes ownership
        return Val(REC('smart'), {'p': v.t, 'cb': fresh(I, 'control_block') if norm(t).startswith('shared') else z3.IntVal(0)})
    if isinstance(v, Val) and z3.is_int_value(v.c.get('', z3.IntVal(1))) and v.t.as_long() == 0:
        return null_smart()
    raise Unsupported('smart pointer made from %r' % (v,))
engine.Expr.ctor_hooks.append((r'^' + SM + '$', smart_ctor))
BOOL_HOOKS[REC('smart')] = lambda v: v.field('p').t != NULL
def smart_deref(e, st, p):
    e.oblige(st, 'smart pointer is not null', p.field('p').t != NULL, 'safety')
    return Obj(p.field('p').t, 'user')
engine.Expr.deref_hooks[REC('smart')] = smart_deref
def smart_get(e, st, o, args, n):
    return o.read(st).field('p')
def smart_release(e, st, o, args, n):
    p = o.read(st).field('p')
    o.write(st, null_smart())
    return p
def smart_reset(e, st, o, args, n):
    if [a for a in args if a['kind'] != 'CXXDefaultArgExpr']:
        raise Unsupported('reset')
    o.write(st, null_smart())
engine.Calls.method_hooks.update({(REC('smart'), 'get'): smart_get, (REC('smart'), 'release'): smart_release, (REC('smart'), 'reset'): smart_reset,
                                  (REC('smart'), 'operator bool'): lambda e, st, o, a, n: S(BOOL, o.read(st).field('p').t != NULL)})
def smart_assign(e, st, n, op, args):
    lv = e.ev(st, args[0])
    x = e.unspec(e.ev(st, args[1]))
    v = e.read(st, x)
    if v.ct == REC('smart'):
        r = converted(v, elem_class(qual(args[1])), elem_class(qual(args[0])))
        if '&&' in qual(op) or '&&' in op.get('referencedDecl', {}).get('type', {}).get('qualType', ''):
            if isinstance(x, LV):
                e.assign(st, x, null_smart())
        return e.assign(st, lv, r)
    if z3.is_int_value(v.t) and v.t.as_long() == 0:
        return e.assign(st, lv, null_smart())
    raise Unsupported('assignment to a smart pointer')
def smart_eq(neg):
    def h(e, st, n, op, args):
        a, b = [e.rv(st, a) for a in args]
        p, q = [v.field('p').t if v.ct == REC('smart') else NULL for v in (a, b)]
        f = Or(And(p == NULL, q == NULL), And(p != NULL, q != NULL, whole(p) == whole(q)))
        return S(BOOL, Not(f) if neg else f)
    return h
def smart_method_assign(e, st, o, args, n):
    x = e.unspec(e.ev(st, args[0]))
    v = e.read(st, x)
    if v.ct != REC('smart') or '&&' in qual(args[0]) or args[0].get('valueCategory') == 'xvalue':
        raise Unsupported('operator=')
    o.write(st, v)
engine.Calls.method_hooks[(REC('smart'), 'operator=')] = smart_method_assign
engine.Calls.op_hooks.update({(SM, '='): smart_assign, (SM, '=='): smart_eq(False), (SM, '!='): smart_eq(True),
    (SM, '*'): lambda e, st, n, op, args: e.deref(st, e.rv(st, args[0])),
    (SM, '->'): lambda e, st, n, op, args: e.rv(st, args[0]).field('p')})
def pointer_cast(self, st, n, args):
    x = self.unspec(self.ev(st, args[0]))
    v = self.read(st, x)
    r = converted(v, None, elem_class(qual(n)))
    if args[0].get('valueCategory') == 'xvalue' and isinstance(x, LV):
        self.assign(st, x, null_smart())
    return r
engine.Verifier.std_static_pointer_cast = engine.Verifier.std_dynamic_pointer_cast = pointer_cast

CONTRACTS = []
def mk(name, **kw):
    kw.setdefault('axioms', lambda c: class_axioms())
    CONTRACTS.append(type(name, (Contract,), dict(kw, name=name, unit_name='tu_vptr.cpp', instances=99, inline=True)))

def boxed_null(R, vp):
    """the value a null virtual pointer carries"""
    return vp == (NULL_VPTR if IV in REGISTRIES[R] else z3.IntVal(0))
def boxed(R, c, t):
    """the value carried for an object of dynamic class t"""
    return SVP[t] if IV in REGISTRIES[R] else c.mem()[SVP[t]]
def obj_of(v):
    """(pointer to the object, control block)"""
    if v.ct in VPS:
        return obj_of(v.field('obj'))
    if v.ct == REC('smart'):
        return v.field('p').t, v.field('cb').t
    if v.ct.kind in ('ref', 'obj'):
        return v.t, None
    return None
def cls_of(t):
    """class pointed to, from a C++ type"""
    m = re.search(r'\b' + CLS + r'\b', t)
    return m.group(1) if m else None
def typed(v, t):
    """a pointer of that class designates a subobject of that class"""
    p, cb = obj_of(v)
    cls = cls_of(t)
    return Or(p == NULL, p == as_class(cls, p))
def ptypes(c):
    return [p['type'].get('desugaredQualType') or p['type']['qualType'] for p in params(c.fr.fn)]
def target_class(c):
    """class of the objects the virtual_ptr under construction points to"""
    return cls_of(norm(c._e.u.name(c.fr.fn).split('operator=')[0] if 'operator=' in c._e.u.name(c.fr.fn) else c._e.u.name(c.fr.fn)))
def null_mem(c):
    return ('the null v-table pointer is null', And(c.mem()[NULL_VPTR] == 0, NULL_VPTR != 0))
def sources(c):
    return [(i, v, t) for i, (v, t) in enumerate(zip([c.a(i) for i in range(len(c.fr.args))], ptypes(c))) if obj_of(v) is not None]

def src_pre(R, c):
    r = []
    for i, v, t in sources(c):
        p, cb = obj_of(v)
        r.append(('arguments are pointers to their class', typed(v, t)))
        r.append(('identifiers are addresses', And(0 <= dyn_type(p), dyn_type(p) < UMAX)))
        if v.ct.kind == 'ref':
            r.append(('pointers to objects are not null', p != NULL))
        if v.ct in VPS:
            r.append(('virtual pointers are well formed', paired(R, c, v)))
        elif RC not in REGISTRIES[R]:
            r.append(('the classes of arguments are registered', Imp(p != NULL, REG(dyn_type(p)))))
    return r
def paired(R, c, v):
    p, cb = obj_of(v)
    vp = v.field('vp').t
    return And(Imp(p == NULL, boxed_null(R, vp)), Imp(p != NULL, And(REG(dyn_type(p)), vp == boxed(R, c, dyn_type(p)))))

def moved(c, i):
    t = ptypes(c)[i]
    return t.rstrip().endswith('&&')

def refused(R, c, extra=()):
    err, rep = c._s.ghost['error'], c._s.ghost['reported']
    o = c.old
    ini = o.glob('static.initialized').t
    cs = [And(err == 3, Not(ini))] + list(extra)
    for i, v, t in sources(o):
        p, cb = obj_of(v)
        if v.ct not in VPS:
            cs.append(And(ini, p != NULL, err == 1, rep == dyn_type(p), Not(REG(dyn_type(p)))))
    return [('refused only before initialization or for an unregistered class, which is reported', Or(*cs))]

def designates(R, c, res, dst, src, vp_given=None):
    """result designates the object of the source, as its own class, with its v-table"""
    p, cb = obj_of(src)
    q, qcb = obj_of(res)
    shared = 'shared_ptr' in c._e.u.name(c.fr.fn)
    r = [('designates the object of the argument, as the class of the pointer', q == z3.If(p == NULL, NULL, as_class(dst, p)))]
    if cb is not None and qcb is not None and shared:
        r.append(('ownership is shared with or taken from the argument', Imp(p != NULL, qcb == cb)))
    vp = res.field('vp').t
    if vp_given is not None:
        r.append(('carries the v-table pointer given', vp == vp_given))
        return r
    r.append(('carries the v-table of the class of the object, or null', paired(R, c, res)))
    if src.ct in VPS:
        r.append(('carries the v-table pointer of the argument', vp == src.field('vp').t))
    return r

def set_contract(R, smart):
    P = 'P' + R
    checks = RC in REGISTRIES[R]
    vct = REC('virtual_ptr_smart' if smart else 'virtual_ptr')
    inner = r'(std::shared|std::unique|boost::intrusive)_ptr<[^()]*' if smart else CLS + r'( const)?'
    V = r'boost::openmethod::virtual_ptr<%s, %s, void>' % (inner, P)
    def req(c):
        r = init_ghost(c) + [null_mem(c)] + ready(R, c) + src_pre(R, c)
        if 'operator=' in c._e.u.name(c.fr.fn):
            r.append(('this is well formed', paired(R, c, c.thisv())))
        return r
    def ens(c):
        this = c.thisv()
        ss = sources(c.old)
        ts = ptypes(c)
        if not ss:        # default, nullptr
            p, cb = obj_of(this)
            return [('null in both parts', And(p == NULL, boxed_null(R, this.field('vp').t)))]
        i, v, t = ss[0]
        given = c.old.a(1).t if len(ts) == 2 else None
        r = designates(R, c, this, target_class(c), v, given)
        now = c.a(i)
        if v.ct in VPS or v.ct == REC('smart'):
            n, ncb = obj_of(now)
            if moved(c, i):
                r.append(('a moved-from smart pointer is null', n == NULL))
                if v.ct in VPS:
                    r.append(('a moved-from virtual pointer carries no v-table', boxed_null(R, now.field('vp').t)))
            else:
                p, cb = obj_of(v)
                r.append(('the argument is unchanged', And(*[now.c[k] == v.c[k] for k in v.c])))
        return r
    def ab(c):
        r = refused(R, c)
        if 'operator=' in c._e.u.name(c.fr.fn):
            r.append(('a refused assignment leaves this well formed', paired(R, c, c.thisv())))
        for i, v, t in sources(c.old):
            if v.ct == REC('smart'):
                r.append(('a refused operation does not take the object away', And(*[c.a(i).c[k] == v.c[k] for k in v.c])))
        return r
    if not checks:
        ab = None
    mk('virtual_ptr%s.set.%s' % ('.smart' if smart else '', R), match=V + r'::(virtual_ptr|operator=)(<[^()]*>)?\((?!.*word const)',
       requires=req, ensures=ens, aborts=ab, this_value=vct)
    mk('virtual_ptr%s.make.%s' % ('.smart' if smart else '', R), match=V + r'::virtual_ptr(<[^()]*>)?\(.*word const',
       requires=req, ensures=ens, this_value=vct)
    # ---- casts
    def c_req(c):
        return init_ghost(c) + [null_mem(c), ('this is well formed', paired(R, c, c.thisv())),
                                ('this points to its class', typed(c.thisv(), c._e.u.name(c.fr.fn).split('::cast')[0]))] + ready(R, c) + \
               ([] if smart and not re.search(r'unique_ptr|intrusive_ptr.*VCat', c._e.u.name(c.fr.fn)) else [('not null', obj_of(c.thisv())[0] != NULL)])
    def c_ens(c):
        nm = c._e.u.name(c.fr.fn)
        dst = re.search(r'::cast<(\w+)', nm).group(1)
        old = c.old.thisv()
        r = designates(R, c, c.result, dst, old)
        now = c.thisv()
        if nm.rstrip().endswith('&&'):
            r.append(('a moved-from virtual pointer is well formed', paired(R, c, now)))
            if 'unique_ptr' in nm:
                r.append(('ownership has moved', obj_of(now)[0] == NULL))
        else:
            r.append(('this is unchanged', And(*[now.c[k] == old.c[k] for k in old.c])))
        return r
    mk('virtual_ptr%s.cast.%s' % ('.smart' if smart else '', R), match=V + r'::cast<', requires=c_req, ensures=c_ens, this_value=vct)
    # ---- observers
    def g_ens(c):
        nm = c._e.u.name(c.fr.fn)
        v = c.old.thisv()
        p, cb = obj_of(v)
        res = c._e.deref_val(c._s, c.result)
        if '::vptr()' in nm:
            vp = v.field('vp').t
            return [('the v-table pointer carried', res.t == (c.mem()[vp] if IV in REGISTRIES[R] else vp)),
                    ('it is that of the class of the object, null exactly when the pointer is', res.t == z3.If(p == NULL, 0, c.mem()[SVP[dyn_type(p)]]))]
        if res.ct == REC('smart'):
            return [('the smart pointer', And(*[res.c[k] == v.c['obj.' + k] for k in res.c]))]
        return [('the object', res.t == p)]
    def g_req(c):
        nm = c._e.u.name(c.fr.fn)
        r = init_ghost(c) + [null_mem(c), ('this is well formed', paired(R, c, c.thisv()))]
        return r + ([('not null', obj_of(c.thisv())[0] != NULL)] if 'operator*' in nm else [])
    mk('virtual_ptr%s.get.%s' % ('.smart' if smart else '', R), match=V + r'::(get|pointer|vptr|operator->|operator\*)\(\) const', requires=g_req, ensures=g_ens, this_value=vct)
    def e_req(c):
        return init_ghost(c) + [('arguments are pointers to their class', typed(v, t)) for i, v, t in sources(c)]
    def e_ens(c):
        (p, _), (q, _) = obj_of(c.old.a(0)), obj_of(c.old.a(1))
        f = Or(And(p == NULL, q == NULL), And(p != NULL, q != NULL, whole(p) == whole(q)))
        return [('equal when they designate the same object', c.result.t == (Not(f) if 'operator!=' in c._e.u.name(c.fr.fn) else f))]
    mk('virtual_ptr%s.==.%s' % ('.smart' if smart else '', R), match=r'bool boost::openmethod::operator[!=]=<%s.*, %s>\(' % (r'(std|boost)::\w+_ptr<' if smart else '(?!std|boost::int)', P), requires=e_req, ensures=e_ens)

def final_contract(R):
    P = 'P' + R
    checks = RC in REGISTRIES[R]
    def req(c):
        v, t = c.a(0), ptypes(c)[0]
        p, cb = obj_of(v)
        ini = c.glob('static.initialized').t if checks else z3.BoolVal(True)
        cls = cls_of(t)
        return init_ghost(c) + [null_mem(c), ('arguments are pointers to their class', typed(v, t)), ('not null', p != NULL),
            ('after initialization the class is registered', Imp(ini, And(c.mem()[svp(cls)] != 0, REG(typeid(cls)), SVP[typeid(cls)] == svp(cls))))]
    def ens(c):
        v, t = c.old.a(0), ptypes(c)[0]
        p, cb = obj_of(v)
        cls = cls_of(t)
        r = designates(R, c, c.result, cls, v, svp(cls) if IV in REGISTRIES[R] else c.old.mem()[svp(cls)])
        r.append(('the same as a virtual pointer made from an object of that class', Imp(dyn_type(p) == typeid(cls), c.result.field('vp').t == boxed(R, c.old, dyn_type(p)))))
        if checks:
            r += [('only when the dynamic class is the static class', dyn_type(p) == typeid(cls)), ('only after initialization', c.old.glob('static.initialized').t),
                  ('no error is reported', c._s.ghost['error'] == 0)]
        if v.ct == REC('smart'):
            r.append(('ownership has moved', obj_of(c.a(0))[0] == NULL))
        return r
    def ab(c):
        t = ptypes(c)[0]
        p, cb = obj_of(c.old.a(0))
        ini = c.old.glob('static.initialized').t
        g = c._s.ghost
        return [('refused only before initialization or when the classes differ, with both identifiers',
                 Or(And(g['error'] == 3, Not(ini)), And(ini, g['error'] == 5, dyn_type(p) != typeid(cls_of(t)), g.get('static_type', z3.IntVal(-1)) == typeid(cls_of(t)), g.get('dynamic_type', z3.IntVal(-1)) == dyn_type(p))))]
    mk('final_virtual_ptr.' + R, match=r'final_virtual_ptr<%s, ' % P, requires=req, ensures=ens, aborts=ab if checks else None)
def typeid(cls): return z3.Const('typeid:' + cls, I)

for R in 'ABCE':
    set_contract(R, False)
    set_contract(R, True)
    final_contract(R)
