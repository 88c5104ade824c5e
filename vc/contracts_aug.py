"""Contracts on the first phases of initialization: what compile() makes of the
registrations (C01, C02, C05, C07, C13, C14)."""
import z3
from engine import *
import engine
from contracts_compiler import *
from contracts_policies import EXTERNS as _pe, init_ghost
import contracts_core, contracts_reg
from contracts_tables import oix, NI, AMB, meths, clss

TI = z3.Function('type_index', I, I)        # std::type_index of a type_info
def ti_ctor(e, st, n):
    x = e.unspec(e.ev(st, e._in(n)[0]))
    return S(ADDR, TI(x.addr)) if isinstance(x, Mem) else e.read(st, x)
engine.Expr.ctor_hooks.append((r'^type_index$', ti_ctor))
VOID = z3.Const('typeid:void', I)

FIELDS['compiler.class_map'] = MAP(ADDR, cl)
RECORDS.setdefault('missing_class', [('type', ADDR)])
RECORDS.setdefault('missing_base', [('base', ADDR), ('derived', ADDR)])
tag, parent = z3.Function('subtag', Ref, I), z3.Function('subparent', Ref, Ref)
oown = engine.oowner
t_ = z3.Int('t_')


def sub_axioms():
    return [All(a, And(tag(NI(a)) == 1, parent(NI(a)) == a), NI(a)), All(a, And(tag(AMB(a)) == 2, parent(AMB(a)) == a), AMB(a))]

class AugmentMethods(Contract):
    """C01, C02, C07, C13, C14: the methods and overriders of the compiler are
    those registered, with the classes their types designate; a type that no
    class was registered for is reported, and so is an overrider whose
    parameter is not derived from the method's"""
    match = r'compiler<>::augment_methods\(\)$'
    name = 'augment_methods'
    modifies = ('compiler.methods', 'compiler.class_map', 'alloc', 'class_.used_by_vp') + tuple(k for k in FIELDS if k.startswith(('method.', 'overrider.')))
    # -- vocabulary
    def reg(c): return c.glob('static.methods')
    def mi(c, yy): return AugmentMethods.reg(c).arr[yy]
    def n(c): return AugmentMethods.reg(c).len
    def f(c, key): return c.fld(key)
    def arity(c, yy):
        mi = AugmentMethods.mi(c, yy)
        return c.fld('method_info.vp_end')(mi).t - c.fld('method_info.vp_begin')(mi).t
    def mpar(c, yy, pp): return c.mem()[c.fld('method_info.vp_begin')(AugmentMethods.mi(c, yy)).t + pp]
    def oi(c, yy): return c.fld('method_info.overriders')(AugmentMethods.mi(c, yy))
    def opar(c, yy, ii, pp): return c.mem()[c.fld('overrider_info.vp_begin')(AugmentMethods.oi(c, yy).arr[ii]).t + pp]
    def oarity(c, yy, ii):
        o = AugmentMethods.oi(c, yy).arr[ii]
        return c.fld('overrider_info.vp_end')(o).t - c.fld('overrider_info.vp_begin')(o).t
    def cmap(c): return c.fld('compiler.class_map')(c.this).c
    def cof(c, ti):
        """the class registered for a type"""
        m_ = AugmentMethods.cmap(getattr(c, 'old', None) or c)
        return z3.If(m_['dom'][TI(ti)], m_['val'][TI(ti)], NULL)
    def same_map(c):
        m0, m1 = AugmentMethods.cmap(c.old), AugmentMethods.cmap(c)
        return ('the class map is unchanged', All(t_, And(m1['dom'][t_] == m0['dom'][t_], Imp(m0['dom'][t_], m1['val'][t_] == m0['val'][t_])), m1['dom'][t_], m1['val'][t_]))
    def cov(c, yy):
        rt = c.fld('method_info.return_type_id')(AugmentMethods.mi(c, yy)).t
        return z3.If(TI(rt) != TI(VOID), AugmentMethods.cof(c, rt), NULL)
    def ocov(c, yy, ii):
        return AugmentMethods.cof(c, c.fld('overrider_info.return_type')(AugmentMethods.oi(c, yy).arr[ii]).t)
    def requires(c):
        W = AugmentMethods
        u, ty, v = c.fld('class_.used_by_vp'), c.fld('class_.type_ids'), meths(c)
        m_ = W.cmap(c)
        return init_ghost(c) + [
            ('no method yet', v.len == 0),
            ('no use yet', All(a, u(a).len == 0, u(a).len)),
            ('registered methods have virtual parameters', All(y, Imp(And(0 <= y, y < W.n(c)), And(W.mi(c, y) != NULL, W.arity(c, y) >= 1)), W.mi(c, y))),
            ('overriders have the arity of their method', All([y, i], Imp(And(0 <= y, y < W.n(c), 0 <= i, i < W.oi(c, y).len), And(W.oi(c, y).arr[i] != NULL, W.oarity(c, y, i) == W.arity(c, y))), W.oi(c, y).arr[i])),
            ('registered classes are not null, and have identifiers', All(t_, Imp(m_['dom'][t_], And(m_['val'][t_] != NULL, ty(m_['val'][t_]).len >= 1)), m_['dom'][t_], m_['val'][t_]))]
    def axioms(c):
        if c.fr is not c._e.frame:
            return []
        W = AugmentMethods
        return sub_axioms() + [W.n(c) >= 0, All(y, W.oi(c, y).len >= 0, W.oi(c, y).len), All(a, c.fld('class_.used_by_vp')(a).len >= 0, c.fld('class_.used_by_vp')(a).len)]
    # -- what has been made of the registrations
    def method_ok(c, yy):
        W = AugmentMethods
        mm = meths(c).arr[yy]
        mv, o = c.fld('method.vp')(mm), c.fld('method.overriders')(mm)
        return [('methods stand for their registration', c.fld('method.info')(mm).t == W.mi(c, yy)),
                ('parameters of methods', mv.len == W.arity(c, yy)),
                ('parameters of methods are registered classes', All(p, Imp(And(0 <= p, p < mv.len), And(mv.arr[p] == W.cof(c, W.mpar(c, yy, p)), mv.arr[p] != NULL)), mv.arr[p])),
                ('a slot for each parameter', c.fld('method.slots')(mm).len == W.arity(c, yy)),
                ('what a call without overrider runs', c.fld('overrider.pf')(NI(mm)).t == c.fld('method_info.not_implemented')(W.mi(c, yy)).t),
                ('what an ambiguous call runs', c.fld('overrider.pf')(AMB(mm)).t == c.fld('method_info.ambiguous')(W.mi(c, yy)).t),
                ('covariant return type', c.fld('method.covariant_return_type')(mm).t == W.cov(c, yy)),
                ('an overrider for each registered one', o.len == W.oi(c, yy).len),
                ('new tables', And(c.fld('method.strides')(mm).len == 0, c.fld('method.dispatch_table')(mm).len == 0)),
                ('nothing reported yet', And(*[c.fld('method.report')(mm).field(n_).t == 0 for n_ in ('cells', 'not_implemented', 'ambiguous')]))]
    def overrider_ok(c, yy, ii):
        W = AugmentMethods
        mm = meths(c).arr[yy]
        o = c.fld('method.overriders')(mm).arr[ii]
        ov_ = c.fld('overrider.vp')(o)
        return [('overriders stand for their registration', c.fld('overrider.info')(o).t == W.oi(c, yy).arr[ii]),
                ('what an overrider runs', c.fld('overrider.pf')(o).t == c.fld('overrider_info.pf')(W.oi(c, yy).arr[ii]).t),
                ('overriders have the arity of the method', ov_.len == W.arity(c, yy)),
                ('parameters of overriders are registered classes', All(p, Imp(And(0 <= p, p < ov_.len), And(ov_.arr[p] == W.cof(c, W.opar(c, yy, ii, p)), ov_.arr[p] != NULL)), ov_.arr[p])),
                ('covariant return type of overriders', And(c.fld('overrider.covariant_return_type')(o).t == z3.If(W.cov(c, yy) != NULL, W.ocov(c, yy, ii), NULL),
                    Imp(W.cov(c, yy) != NULL, c.fld('overrider.covariant_return_type')(o).t != NULL))),
                ('no next yet', c.fld('overrider.next')(o).t == NULL)]
    def objects(c, upto):
        """overriders are objects of their own"""
        o = lambda yy, ii: c.fld('method.overriders')(meths(c).arr[yy]).arr[ii]
        nn = lambda yy: c.fld('method.overriders')(meths(c).arr[yy]).len
        al = c._s.h('alloc', B)
        return [('overriders are distinct objects', All([y, i], Imp(And(0 <= y, y < upto, 0 <= i, i < nn(y)),
                    And(o(y, i) != NULL, oix(o(y, i)) == i, oown(o(y, i)) == meths(c).arr[y], tag(o(y, i)) == 0, al[o(y, i)])), o(y, i)))]
    def methods_new(c):
        v = meths(c)
        al = c._s.h('alloc', B)
        return [('as many methods as registered', v.len == AugmentMethods.n(c)),
                ('methods are distinct objects', All(y, Imp(And(0 <= y, y < v.len), And(v.arr[y] != NULL, oix(v.arr[y]) == y, al[v.arr[y]])), v.arr[y]))]
    def done(c, upto):
        W = AugmentMethods
        v = meths(c)
        out = []
        for k_, (l, _) in enumerate(W.method_ok(c, y)):
            out.append((l, All(y, Imp(And(0 <= y, y < upto), W.method_ok(c, y)[k_][1]), v.arr[y])))
        o = c.fld('method.overriders')(v.arr[y])
        for k_, (l, _) in enumerate(W.overrider_ok(c, y, i)):
            out.append((l, All([y, i], Imp(And(0 <= y, y < upto, 0 <= i, i < o.len), W.overrider_ok(c, y, i)[k_][1]), o.arr[i])))
        return out + W.objects(c, upto)
    def derived(c, yy, ii, pp):
        mv = c.fld('method.vp')(meths(c).arr[yy]).arr[pp]
        w = c.fld('overrider.vp')(c.fld('method.overriders')(meths(c).arr[yy]).arr[ii]).arr[pp]
        return Or(w == mv, td_arr(c)[mv][w])
    def checked(c, which):
        v = meths(c)
        o = lambda yy: c.fld('method.overriders')(v.arr[yy])
        w = c.fld('overrider.vp')(o(y).arr[i])
        return [('parameters of overriders derive from those of the method', All([y, i, p], Imp(And(0 <= y, y < v.len, 0 <= i, i < o(y).len, 0 <= p, p < AugmentMethods.arity(c, y), which(y, i, p)),
                    AugmentMethods.derived(c, y, i, p)), w.arr[p]))]
    def ism(c, mm): return And(0 <= oix(mm), oix(mm) < meths(c).len, meths(c).arr[oix(mm)] == mm)
    def par(c, mm, pp): return And(AugmentMethods.ism(c, mm), 0 <= pp, pp < c.fld('method.vp')(mm).len)
    def uses(c, which):
        """used_by_vp lists the virtual parameters of each class, once each"""
        W = AugmentMethods
        u = c.fld('class_.used_by_vp')
        um, up_ = sub(u.c, 'arr')['method'], sub(u.c, 'arr')['param']
        return [('entries of used_by_vp are parameters of the class', All([a, q], Imp(And(0 <= q, q < u(a).len),
                    And(W.par(c, um[a][q], up_[a][q]), which(um[a][q], up_[a][q]), vp_of(c, um[a][q], up_[a][q]) == a, upos(um[a][q], up_[a][q]) == q)), um[a][q], up_[a][q])),
                ('every parameter is listed by its class', All([m, p], Imp(And(W.par(c, m, p), which(m, p)), And(0 <= upos(m, p), upos(m, p) < u(vp_of(c, m, p)).len,
                    um[vp_of(c, m, p)][upos(m, p)] == m, up_[vp_of(c, m, p)][upos(m, p)] == p)), upos(m, p), vp_of(c, m, p)))]
    def ensures(c):
        W = AugmentMethods
        T = lambda *q_: z3.BoolVal(True)
        return [W.same_map(c)] + W.methods_new(c) + W.done(c, W.n(c)) + W.checked(c, T) + W.uses(c, T)
    def aborts(c):
        W = AugmentMethods
        err, g = c._s.ghost['error'], c._s.ghost
        o = c.old
        rng = And(0 <= y, y < W.n(o))
        of = And(rng, 0 <= i, i < W.oi(o, y).len)
        ty = c.fld('class_.type_ids')
        cs = []
        if z3.is_int_value(err) and err.as_long() == 1:
            rep = g['reported']
            uses = [([y, p], And(rng, 0 <= p, p < W.arity(o, y), rep == W.mpar(o, y, p))),
                    ([y, i, p], And(of, 0 <= p, p < W.arity(o, y), rep == W.opar(o, y, i, p))),
                    ([y, i], And(of, rep == c.fld('overrider_info.return_type')(W.oi(o, y).arr[i]).t))]
            at = g.get('at', [])        # the iteration reached: the witness
            return [('the reported class is not registered', W.cof(o, rep) == NULL),
                    ('the reported class is used by a method or an overrider',
                     Or(*[Ex(vs, f) for vs, f in uses], *[z3.substitute(f, *zip(vs, at)) for vs, f in uses if len(vs) == len(at)]))]
        if z3.is_int_value(err) and err.as_long() == 4:
            vv = meths(c)
            ovr = lambda: c.fld('method.overriders')(vv.arr[y])
            mv, w = lambda: c.fld('method.vp')(vv.arr[y]).arr[p], lambda: c.fld('overrider.vp')(ovr().arr[i]).arr[p]
            return W.methods_new(c) + W.done(c, W.n(c)) + [('the reported overrider does not fit its method', Ex([y, i, p], And(0 <= y, y < vv.len, 0 <= i, i < ovr().len, 0 <= p, p < W.arity(c, y),
                        w() != mv(), Not(td_arr(c)[mv()][w()]), g['base'] == ty(mv()).arr[0], g['derived'] == ty(w()).arr[0]), w()))]
        return [('refused for a class that is not registered or an overrider that does not fit', Or(err == 1, err == 4)),
                ('the reported class is not registered', Imp(err == 1, W.cof(o, g['reported']) == NULL))]
    # -- invariants
    def todo(c, k):
        v = meths(c)
        return [('methods to do are new', All(y, Imp(And(k <= y, y < v.len), And(*[c.fld('method.' + f_)(v.arr[y]).len == 0 for f_ in ('vp', 'overriders', 'strides', 'dispatch_table')],
                    c.fld('method.covariant_return_type')(v.arr[y]).t == NULL, *[c.fld('method.report')(v.arr[y]).field(n_).t == 0 for n_ in ('cells', 'not_implemented', 'ambiguous')])), v.arr[y]))]
    def each(c):
        W = AugmentMethods
        return [('position', c.v('meth_iter').idx == c.k), W.same_map(c)] + W.methods_new(c) + W.done(c, c.k) + W.todo(c, c.k)
    def each_param(c):
        W = AugmentMethods
        mm = c.loops[-1]
        mv, mv0 = c.fld('method.vp'), c.ent.fld('method.vp')
        K = c.loops[-1].k
        cur = meths(c).arr[K]
        return [W.same_map(c), ('parameters so far', And(mv(cur).len == c.k, All(p, Imp(And(0 <= p, p < c.k), And(mv(cur).arr[p] == W.cof(c, W.mpar(c, K, p)), mv(cur).arr[p] != NULL)), mv(cur).arr[p]))),
                ('parameters of other methods unchanged', All(a, Imp(a != cur, And(mv(a).len == mv0(a).len, mv(a).arr == mv0(a).arr)), mv(a).len))]
    OVF = ('info', 'pf', 'covariant_return_type')
    def others(c, mine):
        vp, vp0 = c.fld('overrider.vp'), c.ent.fld('overrider.vp')
        return [('other overriders unchanged: vp', All(a, Imp(Not(mine(a)), And(vp(a).len == vp0(a).len, vp(a).arr == vp0(a).arr)), vp(a).len))]
    def each_overrider(c):
        W = AugmentMethods
        K = c.loops[-1].k
        cur = meths(c).arr[K]
        o = c.fld('method.overriders')(cur)
        mine = lambda a_: And(oown(a_) == cur, tag(a_) == 0, 0 <= oix(a_), oix(a_) < o.len, o.arr[oix(a_)] == a_)
        out = [('position', c.v('spec_iter').idx == c.k), W.same_map(c)]
        for k_, (l, _) in enumerate(W.overrider_ok(c, K, i)):
            out.append((l, All(i, Imp(And(0 <= i, i < c.k), W.overrider_ok(c, K, i)[k_][1]), o.arr[i])))
        out += [('overriders to do are new', All(i, Imp(And(c.k <= i, i < o.len), And(c.fld('overrider.vp')(o.arr[i]).len == 0, c.fld('overrider.covariant_return_type')(o.arr[i]).t == NULL, c.fld('overrider.next')(o.arr[i]).t == NULL)), o.arr[i]))]
        for f_ in W.OVF:
            g, g0 = c.fld('overrider.' + f_), c.ent.fld('overrider.' + f_)
            out.append(('other overriders unchanged: ' + f_, All(a, Imp(Not(mine(a)), g(a).t == g0(a).t), g(a).t)))
        return out + W.others(c, mine)
    def each_type(c):
        W = AugmentMethods
        K, J = c.loops[-2].k, c.loops[-1].k
        cur = c.fld('method.overriders')(meths(c).arr[K]).arr[J]
        vp = c.fld('overrider.vp')(cur)
        pf, pf0 = c.fld('overrider.pf'), c.ent.fld('overrider.pf')
        return [W.same_map(c), ('parameters so far', And(vp.len == c.k, All(p, Imp(And(0 <= p, p < c.k), And(vp.arr[p] == W.cof(c, W.opar(c, K, J, p)), vp.arr[p] != NULL)), vp.arr[p]))),
                ('what the overrider runs', Imp(c.k > 0, pf(cur).t == c.fld('overrider_info.pf')(W.oi(c, K).arr[J]).t)),
                ('other overriders unchanged: pf', All(a, Imp(a != cur, pf(a).t == pf0(a).t), pf(a).t))] + W.others(c, lambda a_: a_ == cur)
    def check_each(c):
        W = AugmentMethods
        return W.checked(c, lambda y_, i_, p_: y_ < c.k) + W.uses(c, lambda m_, p_: oix(m_) < c.k)
    def check_param(c):
        W = AugmentMethods
        K = c.loops[-1].k
        cur = meths(c).arr[K]
        u = c.fld('class_.used_by_vp')
        mv = c.fld('method.vp')(cur)
        return [('#use', Imp(And(0 <= c.k, c.k < mv.len), upos(cur, c.k) == u(mv.arr[c.k]).len)), ('index', c.v('param_index').t == c.k)] + \
            W.checked(c, lambda y_, i_, p_: Or(y_ < K, And(y_ == K, p_ < c.k))) + W.uses(c, lambda m_, p_: Or(oix(m_) < K, And(oix(m_) == K, p_ < c.k)))
    def check_overrider(c):
        W = AugmentMethods
        K, P_ = c.loops[-2].k, c.loops[-1].k
        return W.checked(c, lambda y_, i_, p_: Or(y_ < K, And(y_ == K, Or(p_ < P_, And(p_ == P_, i_ < c.k)))))
    loops = (each, each_param, each_overrider, each_type, check_each, check_param, check_overrider)


# ------------------------------------------------ classes: bases and derived
BP = z3.Function('proper_base', Ref, Ref, B)        # (x, a): x is a proper base of a, as registered
depth = z3.Function('depth', Ref, I)                # bases are less deep
LB = z3.Function('listed_base', Ref, Ref, B)        # (a, x): x was collected in a.transitive_bases
LOOK = z3.Function('look_at', Ref, I, B)            # always true: marks the instances that matter to the solvers
TB, DB, DD = 'class_.transitive_bases', 'class_.direct_bases', 'class_.direct_derived'
e_ = z3.Const('e_', Ref)

def bp_axioms():
    """proper_base: any transitive relation that contains the registered base
    links (C++ inheritance has no cycle: height and depth exist)"""
    return [All([a, b, d], Imp(And(BP(a, b), BP(b, d)), BP(a, d)), z3.MultiPattern(BP(a, b), BP(b, d))),
            All([a, b], Imp(BP(a, b), And(height(b) < height(a), depth(a) < depth(b), a != b)), BP(a, b)),
            All(a, And(height(a) >= 0, depth(a) >= 0), height(a)), All(a, depth(a) >= 0, depth(a))]
def bp_classes():
    return All([a, b], Imp(BP(a, b), And(ISC(a), ISC(b))), BP(a, b))
def sound(c, f=BP):
    tb_ = c.fld(TB)
    return All([a, q], Imp(And(0 <= q, q < tb_(a).len), f(tb_(a).arr[q], a)), tb_(a).arr[q])
def marks_old(c, strict=False):
    mk, cm = c.fld('class_.mark'), c.fld('compiler.class_mark')(c.this).t
    return All(a, mk(a).t < cm if strict else mk(a).t <= cm, mk(a).t)
def has(c, key, w, x_):
    """x_ is an element of the vector `key` of w"""
    v = c.fld(key)(w)
    return Ex(j, And(0 <= j, j < v.len, v.arr[j] == x_), v.arr[j])

class CollectTransitiveBases(Contract):
    """C05: the bases of a base are bases of the class"""
    match = r'compiler<.*>::collect_transitive_bases\('
    name = 'collect_transitive_bases'
    modifies = (TB, 'class_.mark')
    def requires(c):
        cls, base = c.a(0).t, c.a(1).t
        return [('a base of the class', BP(base, cls)), ('listed bases are bases', sound(c)), ('marks are not newer than the current one', marks_old(c))]
    def axioms(c):
        return bp_axioms() + [bp_classes(), All(a, Imp(ISC(a), a != NULL), ISC(a))] if c.fr is c._e.frame else []
    def decreases(c):
        return depth(c.a(1).t)
    def common(c):
        cls = c.a(0).t
        t0, t1 = c.old.fld(TB), c.fld(TB)
        mk0, mk1, cm = c.old.fld('class_.mark'), c.fld('class_.mark'), c.fld('compiler.class_mark')(c.this).t
        return [('other classes keep their bases', All(a, Imp(a != cls, And(t1(a).len == t0(a).len, t1(a).arr == t0(a).arr)), t1(a).len)),
                ('bases are only added', And(t1(cls).len >= t0(cls).len, All(q, Imp(And(0 <= q, q < t0(cls).len), t1(cls).arr[q] == t0(cls).arr[q]), t1(cls).arr[q], t0(cls).arr[q]))),
                ('listed bases are bases', sound(c)),
                ('marks change to the current one', All(a, Or(mk1(a).t == mk0(a).t, mk1(a).t == cm), mk1(a).t))]
    def ensures(c):
        return CollectTransitiveBases.common(c) + [
            ('the base is listed', Or(c.old.fld('class_.mark')(c.a(1).t).t == c.fld('compiler.class_mark')(c.this).t, has(c, TB, c.a(0).t, c.a(1).t)))]
    def inv(c):
        return CollectTransitiveBases.common(c) + [('the base is listed', has(c, TB, c.a(0).t, c.a(1).t))]
    loops = (inv,)

class AugmentClasses(Contract):
    """C05, C14: the inheritance lattice of the compiler is that of the
    registrations: one class per type, with every identifier it was registered
    under; derived classes are those reachable by registered base links; a base
    that was not registered is reported"""
    match = r'compiler<>::augment_classes\(\)$'
    name = 'augment_classes'
    own_axioms = True
    push_frames = True
    modifies = ('compiler.classes', 'compiler.class_map', 'compiler.class_mark', 'alloc') + tuple(k for k in FIELDS if k.startswith('class_.'))
    # -- vocabulary
    def rc(c, yy): return c.glob('static.classes').arr[yy]
    def n(c): return c.glob('static.classes').len
    def type(c, yy): return c.fld('class_info.type')(AugmentClasses.rc(c, yy)).t
    def nb(c, yy):
        r = AugmentClasses.rc(c, yy)
        return c.fld('class_info.last_base')(r).t - c.fld('class_info.first_base')(r).t
    def base(c, yy, pp): return c.mem()[c.fld('class_info.first_base')(AugmentClasses.rc(c, yy)).t + pp]
    def cmap(c): return c.fld('compiler.class_map')(c.this).c
    def cof(c, ti): return AugmentClasses.cmap(c)['val'][TI(ti)]
    def known(c, ti): return AugmentClasses.cmap(c)['dom'][TI(ti)]
    def isin(c, a_):
        v = classes(c)
        return And(0 <= cidx(a_), cidx(a_) < v.len, v.arr[cidx(a_)] == a_)
    def done(c, a_, k): return And(0 <= cidx(a_), cidx(a_) < k, classes(c).arr[cidx(a_)] == a_)
    def blank(c, which=(TB, DB, DD, 'class_.used_by_vp', 'class_.used_slots')):
        out = [('nothing yet in ' + k.split('.')[1], All(a, c.fld(k)(a).len == 0, c.fld(k)(a).len)) for k in which]
        return out + [('no derived class yet', All(a, empty(td_arr(c)[a]), td_arr(c)[a]))]
    def requires(c):
        W = AugmentClasses
        m_ = W.cmap(c)
        us = c.fld(USED)
        same = lambda f_: c.fld('class_info.' + f_)(W.rc(c, y)).t == c.fld('class_info.' + f_)(W.rc(c, x)).t
        return init_ghost(c) + [
            ('no class yet', And(classes(c).len == 0, All(t_, Not(m_['dom'][t_]), m_['dom'][t_]))),
            ('no slot is used', All([a, i], Not(us(a).bits[i]), us(a).bits[i])),
            ('registrations are not null', All(y, Imp(And(0 <= y, y < W.n(c)), And(W.rc(c, y) != NULL, W.nb(c, y) >= 0)), W.rc(c, y))),
            ('registrations of a class agree', All([x, y], Imp(And(0 <= x, x < W.n(c), 0 <= y, y < W.n(c), TI(W.type(c, x)) == TI(W.type(c, y))),
                And(same('is_abstract'), same('static_vptr'))), z3.MultiPattern(W.rc(c, x), W.rc(c, y)))),
            ('marks are not newer than the current one', And(marks_old(c), c.fld('compiler.class_mark')(c.this).t >= 0))] + W.blank(c)
    def axioms(c):
        if c.fr is not c._e.frame:
            return []
        return bp_axioms() + [AugmentClasses.n(c) >= 0, All([a, q], LOOK(a, q), LOOK(a, q))]
    # -- the classes and the map
    def themap(c):
        W = AugmentClasses
        m_, ty, v = W.cmap(c), c.fld('class_.type_ids'), classes(c)
        return [('registered types designate a class', All(t_, Imp(m_['dom'][t_], And(m_['val'][t_] != NULL, W.isin(c, m_['val'][t_]), TI(ty(m_['val'][t_]).arr[0]) == t_)), m_['dom'][t_], m_['val'][t_])),
                ('every class has an entry', All(i, Imp(And(0 <= i, i < v.len), And(v.arr[i] != NULL, cidx(v.arr[i]) == i, m_['dom'][TI(ty(v.arr[i]).arr[0])], m_['val'][TI(ty(v.arr[i]).arr[0])] == v.arr[i])), v.arr[i]))]
    def ids(c, upto):
        """the identifiers of the classes are those registered"""
        W = AugmentClasses
        ty, v = c.fld('class_.type_ids'), classes(c)
        q2 = p2
        return [('classes have identifiers', All(i, Imp(And(0 <= i, i < v.len), ty(v.arr[i]).len >= 1), v.arr[i])),
                ('identifiers of a class designate it', All([i, q], Imp(And(0 <= i, i < v.len, 0 <= q, q < ty(v.arr[i]).len), TI(ty(v.arr[i]).arr[q]) == TI(ty(v.arr[i]).arr[0])), ty(v.arr[i]).arr[q])),
                ('an identifier is listed once', All([i, q, q2], Imp(And(0 <= i, i < v.len, 0 <= q, q < q2, q2 < ty(v.arr[i]).len), ty(v.arr[i]).arr[q] != ty(v.arr[i]).arr[q2]), z3.MultiPattern(ty(v.arr[i]).arr[q], ty(v.arr[i]).arr[q2]))),
                ('identifiers come from a registration', All([i, q], Imp(And(0 <= i, i < v.len, 0 <= q, q < ty(v.arr[i]).len), Ex(y, And(0 <= y, y < upto, W.type(c, y) == ty(v.arr[i]).arr[q]), W.rc(c, y))), ty(v.arr[i]).arr[q])),
                ('registered classes have an entry', All(y, Imp(And(0 <= y, y < upto), W.known(c, W.type(c, y))), W.rc(c, y))),
                ('registered identifiers are listed', All(y, Imp(And(0 <= y, y < upto), Ex(q, And(0 <= q, q < ty(W.cof(c, W.type(c, y))).len, ty(W.cof(c, W.type(c, y))).arr[q] == W.type(c, y)))), W.rc(c, y))),
                ('classes are as registered', All(y, Imp(And(0 <= y, y < upto), And(*[c.fld('class_.' + f_)(W.cof(c, W.type(c, y))).t == c.fld('class_info.' + f_)(W.rc(c, y)).t for f_ in ('is_abstract', 'static_vptr')])), W.rc(c, y)))]
    def create(c):
        W = AugmentClasses
        al = c._s.h('alloc', B)
        v = classes(c)
        return W.themap(c) + W.ids(c, c.k) + [('classes are objects', All(i, Imp(And(0 <= i, i < v.len), al[v.arr[i]]), v.arr[i])),
            ('marks are not newer than the current one', marks_old(c)), ('no slot is used', All([a, i], Not(c.fld(USED)(a).bits[i]), c.fld(USED)(a).bits[i]))] + W.blank(c)
    # -- collecting the bases
    def same_map(c):
        m0, m1 = AugmentClasses.cmap(c.ent), AugmentClasses.cmap(c)
        return ('the class map is unchanged', All(t_, And(m1['dom'][t_] == m0['dom'][t_], Imp(m0['dom'][t_], m1['val'][t_] == m0['val'][t_])), m1['dom'][t_], m1['val'][t_]))
    def link(c, yy, pp):
        W = AugmentClasses
        return W.cof(c, W.base(c, yy, pp)), W.cof(c, W.type(c, yy))
    def links(c, which, f, known=True):
        W = AugmentClasses
        bs, cls = W.link(c, y, p)
        return All([y, p], Imp(And(0 <= y, y < W.n(c), 0 <= p, p < W.nb(c, y), which(y, p), W.known(c, W.base(c, y, p)), bs != cls), f(bs, cls)), W.base(c, y, p))
    def ghost_def(c):
        """what the ghost relations stand for: defined once the classes exist"""
        W = AugmentClasses
        return [('#classes', All(a, ISC(a) == W.isin(c, a), ISC(a))),
                ('#classes of the vector', All(i, Imp(And(0 <= i, i < classes(c).len), ISC(classes(c).arr[i])), classes(c).arr[i])),
                ('#bases are those registered', W.links(c, lambda y_, p_: z3.BoolVal(True), BP)), ('#bases are classes', bp_classes())]
    def bases_known(c, which):
        W = AugmentClasses
        return ('bases are registered', All([y, p], Imp(And(0 <= y, y < W.n(c), 0 <= p, p < W.nb(c, y), which(y, p)), W.known(c, W.base(c, y, p))), W.base(c, y, p)))
    def collected(c, which):
        W = AugmentClasses
        return [W.bases_known(c, which), ('registered bases are listed', W.links(c, which, lambda bs, cls: has(c, TB, cls, bs))),
                ('listed bases are bases', sound(c)), ('only classes have bases', All(a, Imp(Not(ISC(a)), c.fld(TB)(a).len == 0), c.fld(TB)(a).len)),
                ('marks are not newer than the current one', marks_old(c))]
    def collect(c):
        W = AugmentClasses
        return [W.same_map(c)] + W.themap(c) + (W.ghost_def(c) if z3.is_int_value(c.k) else []) + W.collected(c, lambda y_, p_: y_ < c.k)
    def collect_base(c):
        W = AugmentClasses
        K = c.loops[-1].k
        return [W.same_map(c)] + W.themap(c) + W.collected(c, lambda y_, p_: Or(y_ < K, And(y_ == K, p_ < c.k)))
    def kept(c):
        W = AugmentClasses
        cls, base = c.now(0).t, c.now(1).t
        tb0, tb1 = c.pre.fld(TB), c.fld(TB)
        K, k = c.loops[-2].k, c.loops[-1].k
        bs, cl_ = W.link(c, K, k)
        return [('the class and the base of this registration', And(bs == base, cl_ == cls)),
                ('the base is listed', has(c, TB, cls, base)),
                ('bases stay where they are', All([a, q], Imp(And(0 <= q, q < tb0(a).len), And(q < tb1(a).len, tb1(a).arr[q] == tb0(a).arr[q])), tb0(a).arr[q])),
                ('bases listed before still are', W.links(c, lambda y_, p_: Or(y_ < K, And(y_ == K, p_ < k)), lambda b_, a_: has(c, TB, a_, b_)))]
    after = {'collect_transitive_bases': kept}
    # -- duplicates removed: the same set
    def lb_def(c):
        e = c.ent
        tb_ = e.fld(TB)
        return [('#the bases collected', And(All([a, b], LB(a, b) == Ex(q, And(0 <= q, q < tb_(a).len, tb_(a).arr[q] == b)), LB(a, b)), All([a, q], Imp(And(0 <= q, q < tb_(a).len), LB(a, tb_(a).arr[q])), tb_(a).arr[q])))]
    def sameset(c):
        tb_ = c.fld(TB)
        return [('nothing but the bases collected', All([a, q], Imp(And(0 <= q, q < tb_(a).len), LB(a, tb_(a).arr[q])), tb_(a).arr[q])),
                ('the bases collected', All([a, b], Imp(LB(a, b), Ex(q, And(0 <= q, q < tb_(a).len, tb_(a).arr[q] == b))), LB(a, b)))]
    def dedupe(c):
        W = AugmentClasses
        return (W.lb_def(c) if z3.is_int_value(c.k) else []) + [('bases collected are bases', All([a, b], Imp(LB(a, b), BP(b, a)), LB(a, b)))] + W.sameset(c) + [('only classes have bases', All(a, Imp(Not(ISC(a)), c.fld(TB)(a).len == 0), c.fld(TB)(a).len)), ('marks are not newer than the current one', marks_old(c))]
    def dedupe_base(c):
        K = c.loops[-1].k
        cur = classes(c).arr[K]
        tb_, mk, cm = c.fld(TB), c.fld('class_.mark'), c.fld('compiler.class_mark')(c.this).t
        bs = c.v('bases')
        return [('marks are not newer than the current one', marks_old(c)), ('mark', c.v('mark').t == cm),
                ('kept bases were collected', All(q, Imp(And(0 <= q, q < bs.len), LB(cur, bs.arr[q])), bs.arr[q])),
                ('marked classes are kept', All(a, Imp(mk(a).t == cm, Ex(q, And(0 <= q, q < bs.len, bs.arr[q] == a))), mk(a).t)),
                ('bases so far are marked', All(q, Imp(And(0 <= q, q < c.k), mk(tb_(cur).arr[q]).t == cm), tb_(cur).arr[q]))]
    # -- direct bases
    def direct(c, which):
        db = c.fld(DB)
        return [('direct bases are bases', All([a, q], Imp(And(0 <= q, q < db(a).len), LB(a, db(a).arr[q])), db(a).arr[q])),
                ('every base is direct or a base of a direct one', All([a, b], Imp(And(LB(a, b), which(a)), Ex(q, And(LOOK(a, q), 0 <= q, q < db(a).len, Or(db(a).arr[q] == b, LB(db(a).arr[q], b))))), LB(a, b)))]
    def directs(c):
        W = AugmentClasses
        db = c.fld(DB)
        return W.sameset(c) + [('only classes have bases', All(a, Imp(Not(ISC(a)), c.fld(TB)(a).len == 0), c.fld(TB)(a).len))] + W.direct(c, lambda a_: W.done(c, a_, c.k)) + [('classes to do have no direct base', All(a, Imp(Not(W.done(c, a, c.k)), db(a).len == 0), db(a).len)),
            ('marks are not newer than the current one', marks_old(c))]
    def direct_base(c):
        W = AugmentClasses
        cur = classes(c).arr[c.loops[-1].k]
        tb_, db, db0, mk, cm = c.fld(TB), c.fld(DB), c.ent.fld(DB), c.fld('class_.mark'), c.fld('compiler.class_mark')(c.this).t
        return [('marks are not newer than the current one', marks_old(c)), ('mark', c.v('mark').t == cm),
                ('direct bases are bases', All(q, Imp(And(0 <= q, q < db(cur).len), LB(cur, db(cur).arr[q])), db(cur).arr[q])),
                ('direct bases of other classes unchanged', All(a, Imp(a != cur, And(db(a).len == db0(a).len, db(a).arr == db0(a).arr)), db(a).len)),
                ('marked classes are bases of a direct base', All(a, Imp(mk(a).t == cm, Ex(q, And(0 <= q, q < db(cur).len, LB(db(cur).arr[q], a)))), mk(a).t)),
                ('bases so far are direct or marked', All(q, Imp(And(0 <= q, q < c.k), Or(has(c, DB, cur, tb_(cur).arr[q]), mk(tb_(cur).arr[q]).t == cm)), tb_(cur).arr[q]))]
    def mark_bases(c):
        mk, mk0, cm = c.fld('class_.mark'), c.ent.fld('class_.mark'), c.fld('compiler.class_mark')(c.this).t
        rtb = c.v('rtb').t
        return [('marks are not newer than the current one', marks_old(c)),
                ('only its bases are marked', All(a, Imp(mk(a).t == cm, Or(mk0(a).t == cm, LB(rtb, a))), mk(a).t)),
                ('marks are kept', All(a, Imp(mk0(a).t == cm, mk(a).t == cm), mk(a).t, mk0(a).t))]
    # -- direct derived
    def inverse(c, which):
        db, dd = c.fld(DB), c.fld(DD)
        return [('derived classes list their bases', dd_inverse(c)),
                ('bases list their derived classes', All([a, q], Imp(And(LOOK(a, q), 0 <= q, q < db(a).len, which(a, q)), has(c, DD, db(a).arr[q], a)), LOOK(a, q)))]
    def derive(c):
        W = AugmentClasses
        return W.inverse(c, lambda a_, q_: W.done(c, a_, c.k))
    def derive_base(c):
        W = AugmentClasses
        K = c.loops[-1].k
        return W.inverse(c, lambda a_, q_: Or(W.done(c, a_, K), And(a_ == classes(c).arr[K], q_ < c.k)))
    # -- the closure
    def closure(c):
        W = AugmentClasses
        td = td_arr(c)
        lem = [('#definition of the closure', And(*R_axioms(c))),
               ('derived classes are classes', dd_classes(c)), ('acyclic inheritance', acyclic(c)),
               ('@closure decreases height', ([a, b], height(a), Imp(And(R(c, a, b), a != b), height(b) < height(a)), [R(c, a, b)])),
               ('@closure of classes', ([a, b], height(a), Imp(R(c, a, b), And(ISC(a), ISC(b), R(c, a, a), R(c, b, b))), [R(c, a, b)])),
               ('@closure is transitive', ([a, b, d], height(a), Imp(And(R(c, a, b), R(c, b, d)), R(c, a, d)), [z3.MultiPattern(R(c, a, b), R(c, b, d))]))]
        return (lem if z3.is_int_value(c.k) else []) + [
                ('complete for the classes done', All(a, Imp(W.done(c, a, c.k), full(c, a)), td[a])),
                ('sets are empty or complete', All(a, empty_or_full(c, a), td[a])),
                ('sets of other objects are empty', All(a, Imp(Not(ISC(a)), empty(td[a])), td[a]))]
    # -- all the bases
    def clear(c):
        W = AugmentClasses
        tb_ = c.fld(TB)
        return [('no base left', All(a, Imp(Or(Not(ISC(a)), W.done(c, a, c.k)), tb_(a).len == 0), tb_(a).len))]
    def inv_bases(c, which):
        tb_, td = c.fld(TB), td_arr(c)
        return [('bases are those the class is derived from', All([a, q], Imp(And(0 <= q, q < tb_(a).len), And(tb_(a).arr[q] != NULL, tb_(a).arr[q] != a, td[tb_(a).arr[q]][a])), tb_(a).arr[q])),
                ('every base is listed', All([a, b], Imp(And(td[b][a], a != b, which(b, a)), has(c, TB, a, b)), td[b][a]))]
    def rebase(c):
        W = AugmentClasses
        return W.inv_bases(c, lambda b_, a_: W.done(c, b_, c.k))
    def rebase_derived(c):
        W = AugmentClasses
        K = c.loops[-1].k
        return W.inv_bases(c, lambda b_, a_: Or(W.done(c, b_, K), And(b_ == classes(c).arr[K], c.en.idx(a_) < c.k)))
    loops = (create, collect, collect_base, dedupe, dedupe_base, directs, direct_base, mark_bases, derive, derive_base, closure, clear, rebase, rebase_derived)
    def lemmas(c):
        td = td_arr(c)
        return [('bases collected reach the class', ([a, b], depth(a), Imp(LB(a, b), R(c, b, a)), [LB(a, b)])),
                ('only registered bases reach the class', ([a, b], height(a), Imp(R(c, a, b), Or(a == b, BP(a, b))), [R(c, a, b)]))]
    def ensures(c):
        W = AugmentClasses
        td, v = td_arr(c), classes(c)
        T = lambda *q_: z3.BoolVal(True)
        return W.themap(c) + W.ids(c, W.n(c)) + [W.bases_known(c, T),
            ('a class is derived from its registered bases', W.links(c, T, lambda bs, cls: td[bs][cls])),
            ('a class is derived from itself', All(i, Imp(And(0 <= i, i < v.len), td[v.arr[i]][v.arr[i]]), v.arr[i])),
            ('derived classes are those the registrations imply', All([a, b], Imp(td[a][b], Or(a == b, BP(a, b))), td[a][b])),
            ('only classes', All([a, b], Imp(td[a][b], And(ISC(a), ISC(b))), td[a][b])),
            ('derived classes list their bases', dd_inverse(c)), ('bases list their derived classes', W.inverse(c, T)[1][1]),
            ('marks are not newer than the current one', marks_old(c)), ('no slot is used', All([a, i], Not(c.fld(USED)(a).bits[i]), c.fld(USED)(a).bits[i]))] + \
            W.blank(c, ('class_.used_by_vp', 'class_.used_slots'))[:2] + lattice_wf_classes(c)
    def aborts(c):
        W = AugmentClasses
        g = c._s.ghost
        err = g['error']
        o = c.old
        if z3.is_int_value(err) and err.as_long() == 1:
            rep, at = g['reported'], g.get('at', [])
            f = And(0 <= y, y < W.n(o), 0 <= p, p < W.nb(o, y), rep == W.base(o, y, p))
            return [('the reported class is not registered', All(x, Imp(And(0 <= x, x < W.n(o)), TI(W.type(o, x)) != TI(rep)), W.rc(o, x))),
                    ('the reported class is a base of a registered one', Or(Ex([y, p], f), *([z3.substitute(f, (y, at[0]), (p, at[1]))] if len(at) == 2 else [])))]
        return [('refused for a base that is not registered', err == 1),
                ('the reported class is not registered', All(x, Imp(And(0 <= x, x < W.n(o)), TI(W.type(o, x)) != TI(g['reported'])), W.rc(o, x)))]
def lattice_wf_classes(c):
    """the part of what assign_slots requires that does not speak of methods"""
    td, v = td_arr(c), classes(c)
    return [('classes of the compiler', All(i, Imp(And(0 <= i, i < v.len), ISC(v.arr[i])), v.arr[i])),
            ('derived classes are classes', dd_classes(c)), ('acyclic inheritance', acyclic(c)), ('closure decreases height', R_height(c)), ('closure is transitive', R_trans(c)),
            ('derived classes of a class are in the compiler', All([a, b], Imp(td[a][b], And(0 <= cidx(b), cidx(b) < v.len, v.arr[cidx(b)] == b)), td[a][b]))] + td_wf(c) + bases_are_inverse(c)
CONTRACTS = [AugmentMethods, CollectTransitiveBases, AugmentClasses]
