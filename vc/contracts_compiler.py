"""Contracts on the functions of initialize.hpp (registry<...>::compiler)."""
import z3
from engine import *

ov, cl, mt = REF('overrider'), REF('class_'), REF('method')
FIELDS.update({
    'class_.is_abstract': BOOL,
    'class_.type_ids': VEC(ADDR),
    'class_.transitive_bases': VEC(cl),
    'class_.direct_bases': VEC(cl),
    'class_.direct_derived': VEC(cl),
    'class_.transitive_derived': SET(cl),
    'class_.used_by_vp': VEC(REC('parameter')),
    'class_.used_slots': BITS,
    'class_.reserved_slots': BITS,
    'class_.first_slot': INT,
    'class_.mark': INT,
    'class_.vtbl': VEC(REC('vtbl_entry')),
    'class_.static_vptr': ADDR,
    'overrider.info': REF('overrider_info'),
    'overrider.next': ov,
    'overrider.vp': VEC(cl),
    'overrider.covariant_return_type': cl,
    'overrider.pf': ADDR,
    'overrider.method_index': INT,
    'overrider.spec_index': INT,
    'method.info': REF('method_info'),
    'method.vp': VEC(cl),
    'method.covariant_return_type': cl,
    'method.overriders': VEC(OBJ('overrider')),
    'method.slots': VEC(INT),
    'method.strides': VEC(INT),
    'method.dispatch_table': VEC(ov),
    'method.gv_dispatch_table': ADDR,
    'method.report': REC('method_report'),
    'compiler.classes': VEC(OBJ('class_')),
    'compiler.methods': VEC(OBJ('method')),
    'compiler.class_mark': INT,
    'compiler.compilation_done': BOOL,
    'compiler.report': REC('report'),
})

i, j, x, y = z3.Ints('i j x y')
a, b, d = z3.Consts('a b d', Ref)

def And(*f): return z3.And(*f)
def Or(*f): return z3.Or(*f)
def Not(f): return z3.Not(f)
def Imp(p, q): return z3.Implies(p, q)
def All(vs, f, *pats):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    pats = [q for q in pats if pattern_ok(q)]
    return quantified(z3.ForAll, list(vs), f, list(pats))
def quantified(q, vs, f, pats):
    if not pats:
        return q(vs, f)
    try:
        return q(vs, f, patterns=pats)
    except z3.Z3Exception:          # a pattern that is not one in this state (e.g. a constant array)
        return q(vs, f)
def pattern_ok(t):
    return not z3.is_app(t) or (t.decl().kind() not in (z3.Z3_OP_ITE, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and all(pattern_ok(u) for u in t.children()))
def Ex(vs, f, *pats):
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    pats = [q for q in pats if pattern_ok(q)]
    return quantified(z3.Exists, list(vs), f, list(pats))

# ------------------------------------------------ the inheritance relation
TDS = z3.ArraySort(Ref, z3.ArraySort(Ref, B))
def td_arr(c):
    return c.fld('class_.transitive_derived').c['set']

def antisym(c):
    t = td_arr(c)
    return All([a, b], Imp(And(t[a][b], t[b][a]), a == b), z3.MultiPattern(t[a][b], t[b][a]))

# is a more specific than b:  some parameter of a is a proper descendant of the
# corresponding one of b, and none is a proper ancestor
VL, VA = z3.ArraySort(Ref, I), z3.ArraySort(Ref, z3.ArraySort(I, Ref))
MS_ = z3.Function('more_specific', VL, VA, TDS, Ref, Ref, B)
BASE_ = z3.Function('is_base', VL, VA, TDS, Ref, Ref, B)

def ms_def(vl, va, td, p, q):
    some = Ex(i, And(0 <= i, i < vl[p], va[p][i] != va[q][i], td[va[q][i]][va[p][i]]))
    none = All(j, Imp(And(0 <= j, j < vl[p], va[p][j] != va[q][j]),
                      Not(td[va[p][j]][va[q][j]])))
    return And(some, none)

def base_def(vl, va, td, p, q):
    every = All(j, Imp(And(0 <= j, j < vl[p], va[p][j] != va[q][j]), td[va[p][j]][va[q][j]]))
    some = Ex(i, And(0 <= i, i < vl[p], va[p][i] != va[q][i]))
    return And(some, every)

def MS(c, p, q):
    v = c.fld('overrider.vp').c
    return MS_(v['len'], v['arr'], td_arr(c), p, q)

def ISBASE(c, p, q):
    v = c.fld('overrider.vp').c
    return BASE_(v['len'], v['arr'], td_arr(c), p, q)

def same_arity(c, p, q):
    v = c.fld('overrider.vp')
    return And(v(p).len == v(q).len)

def nonnull_vp(c, p):
    v = c.fld('overrider.vp')(p)
    return All(i, Imp(And(0 <= i, i < v.len), v.arr[i] != NULL), v.arr[i])

class IsMoreSpecific(Contract):
    """C01: dominance of overriders"""
    match = r'compiler<.*>::is_more_specific\('
    name = 'is_more_specific'
    def requires(c):
        p, q = c.a(0).t, c.a(1).t
        return [('a, b not null', And(p != NULL, q != NULL)),
                ('same arity', same_arity(c, p, q)),
                ('parameters are classes', And(nonnull_vp(c, p), nonnull_vp(c, q))),
                ('inheritance is antisymmetric', antisym(c))]
    def axioms(c):
        p, q = c.old.a(0).t, c.old.a(1).t
        v = c.fld('overrider.vp').c
        if c.result is not None:
            return []      # opaque to callers
        return [MS(c, p, q) == ms_def(v['len'], v['arr'], td_arr(c), p, q)]
    def ensures(c):
        return [('result is the dominance relation',
                 c.result.t == MS(c.old, c.old.a(0).t, c.old.a(1).t))]
    def inv(c):
        p, q = c.old.a(0).t, c.old.a(1).t
        v, td = c.fld('overrider.vp'), td_arr(c)
        A, Bv = v(p).arr, v(q).arr
        r = c.v('result').t
        sp = lambda u, w: And(u != w, td[w][u])
        return [('iterators advance together', And(c.v('a_iter').idx == c.k, c.v('b_iter').idx == c.k,
                                                   c.k <= v(p).len)),
                ('result: a parameter is more derived so far',
                 r == Ex(i, And(0 <= i, i < c.k, sp(A[i], Bv[i])))),
                ('no parameter is less derived so far',
                 All(j, Imp(And(0 <= j, j < c.k), Not(sp(Bv[j], A[j])))))]
    loops = (inv,)

class IsBase(Contract):
    """C03: pointwise generality"""
    match = r'compiler<.*>::is_base\('
    name = 'is_base'
    requires = IsMoreSpecific.requires
    def axioms(c):
        p, q = c.old.a(0).t, c.old.a(1).t
        v = c.fld('overrider.vp').c
        if c.result is not None:
            return []
        return [ISBASE(c, p, q) == base_def(v['len'], v['arr'], td_arr(c), p, q)]
    def ensures(c):
        return [('result is pointwise generality',
                 c.result.t == ISBASE(c.old, c.old.a(0).t, c.old.a(1).t))]
    def inv(c):
        p, q = c.old.a(0).t, c.old.a(1).t
        v, td = c.fld('overrider.vp'), td_arr(c)
        A, Bv = v(p).arr, v(q).arr
        r = c.v('result').t
        return [('iterators advance together', And(c.v('a_iter').idx == c.k, c.v('b_iter').idx == c.k,
                                                   c.k <= v(p).len)),
                ('result: some parameter differs so far',
                 r == Ex(i, And(0 <= i, i < c.k, A[i] != Bv[i]))),
                ('every parameter is the same or a base so far',
                 All(j, Imp(And(0 <= j, j < c.k, A[j] != Bv[j]), td[A[j]][Bv[j]])))]
    loops = (inv,)


# ------------------------------------------------------- selecting the best
OV = z3.ArraySort(I, Ref)
def undominated(c, arr, n, p):
    """arr[p] is a candidate that no candidate dominates"""
    return And(arr[p] != NULL, All(j, Imp(And(0 <= j, j < n, arr[j] != NULL),
                                          Not(MS(c, arr[j], arr[p])))))

def candidates_wf(c):
    """candidates are overriders of one method"""
    v = c.a(0)
    vp = c.fld('overrider.vp')
    P, Q = v.arr[i], v.arr[j]
    rng = And(0 <= i, i < v.len, P != NULL)
    return [('parameters are classes', All([i, x], Imp(And(rng, 0 <= x, x < vp(P).len),
                                                      vp(P).arr[x] != NULL))),
            ('same arity', All([i, j], Imp(And(rng, 0 <= j, j < v.len, Q != NULL),
                                           vp(P).len == vp(Q).len))),
            ('inheritance is antisymmetric', antisym(c))]

def counted(arr, lo, n, pick, rem):
    """rem is 0, 1 or more like the number of entries in [0,n) that are not null; pick is one"""
    return [('no candidate left iff remaining is 0',
             (rem == 0) == All(i, Imp(And(0 <= i, i < n), arr[i] == NULL))),
            ('pick designates a remaining candidate',
             Imp(rem > 0, And(0 <= pick, pick < n, arr[pick] != NULL))),
            ('remaining is 1 iff pick is the only one',
             Imp(rem == 1, All(i, Imp(And(0 <= i, i < n, arr[i] != NULL), i == pick)))),
            ('remaining above 1 iff there is another one',
             Imp(rem > 1, Ex(i, And(0 <= i, i < n, arr[i] != NULL, i != pick)))),
            ('remaining is not negative', rem >= 0)]

class SelectDominant(Contract):
    """C01, C02, C03: the candidates left are exactly the undominated ones; if
    dominance is circular, all of them"""
    match = r'compiler<>::select_dominant_overriders\('
    name = 'select_dominant_overriders'
    mod_args = (0, 1, 2)
    def requires(c):
        return candidates_wf(c)
    def ensures(c):
        o, v = c.old.a(0), c.a(0)
        pick, rem = c.a(1).t, c.a(2).t
        n = o.len
        some = Ex(i, And(0 <= i, i < n, undominated(c, o.arr, n, i)))
        return [('size unchanged', v.len == n)] + counted(v.arr, 0, n, pick, rem) + [
            ('remaining is 0 only if there was no candidate',
             Imp(rem == 0, All(i, Imp(And(0 <= i, i < n), o.arr[i] == NULL)))),
            ('survivors are the undominated candidates, if any',
             Imp(some, All(i, Imp(And(0 <= i, i < n),
                 v.arr[i] == z3.If(undominated(c, o.arr, n, i), o.arr[i], NULL))))),
            ('circular dominance keeps every candidate',
             Imp(Not(some), All(i, Imp(And(0 <= i, i < n), v.arr[i] == o.arr[i]))))]
    def outer(c):
        o, v = c.old.a(0), c.a(0)
        k, n = c.k, o.len
        return [('index', And(c.v('i').t == k, k <= n, v.len == n)),
                ('entries done', All(i, Imp(And(0 <= i, i < k),
                    v.arr[i] == z3.If(undominated(c, o.arr, n, i), o.arr[i], NULL)))),
                ('entries to do', All(i, Imp(And(k <= i, i < n), v.arr[i] == o.arr[i]))),
                ] + counted(v.arr, 0, k, c.a(1).t, c.a(2).t)
    def inner(c):
        o, v, e = c.old.a(0), c.a(0), c.ent.a(0)
        k, n = c.k, o.len
        ii = c.v('i').t
        return [('index', And(c.v('j').t == k, k <= n, v.len == n)),
                ('candidate alive', And(v.arr == e.arr, v.arr[ii] != NULL)),
                ('no dominator so far', All(j, Imp(And(0 <= j, j < k, o.arr[j] != NULL),
                                                  Not(MS(c, o.arr[j], o.arr[ii])))))]
    def recount(c):
        o, v = c.old.a(0), c.a(0)
        k, n = c.k, o.len
        return [('index', And(c.v('i').t == k, k <= n, v.len == n)),
                ('candidates restored', All(i, Imp(And(0 <= i, i < n), v.arr[i] == o.arr[i]))),
                ] + counted(v.arr, 0, k, c.a(1).t, c.a(2).t)
    loops = (outer, inner, recount)

# with the N2216 option: the return types break the tie
RTM = z3.ArraySort(Ref, Ref)
SOME_ = z3.Function('some_undominated', OV, I, VL, VA, TDS, B)
TOP_ = z3.Function('best_candidate', OV, I, VL, VA, TDS, I, B)
BEST_ = z3.Function('best_return_type', OV, I, VL, VA, TDS, RTM, I, B)
j2 = z3.Int('j2')
def rt_arr(c): return c.fld('overrider.covariant_return_type').c['']
class SelectDominantN2216(Contract):
    """C15: one of the undominated candidates (of all, if dominance is circular) is
    picked; if there is a single one, that one; if one of them returns a class more
    derived than those all the others return, that one"""
    match = r'compiler<boost::openmethod::n2216>::select_dominant_overriders\('
    name = 'select_dominant_overriders.n2216'
    first = 'cvc5'
    mod_args = (0, 1, 2)
    def requires(c):
        v = c.a(0)
        rt = rt_arr(c)
        return candidates_wf(c) + [
            ('all of them return a registered class, or none', All([i, j], Imp(And(0 <= i, i < v.len, 0 <= j, j < v.len, v.arr[i] != NULL, v.arr[j] != NULL, rt[v.arr[i]] != NULL), rt[v.arr[j]] != NULL), z3.MultiPattern(v.arr[i], v.arr[j]))),
            ('candidates are distinct', All([i, j], Imp(And(0 <= i, i < j, j < v.len, v.arr[i] != NULL), v.arr[i] != v.arr[j]), z3.MultiPattern(v.arr[i], v.arr[j])))]
    # the candidates the return types decide among, and the one that wins, if any
    def env(c):
        o, v = c.old.a(0), c.fld('overrider.vp').c
        return (o.arr, o.len, v['len'], v['arr'], td_arr(c))
    def SOME(c): return SOME_(*SelectDominantN2216.env(c))
    def TOP(c, ii): return TOP_(*SelectDominantN2216.env(c), ii)
    def BEST(c, ii): return BEST_(*SelectDominantN2216.env(c), rt_arr(c), ii)
    def definitions(c):
        W = SelectDominantN2216
        o, rt, td = c.old.a(0), rt_arr(c), td_arr(c)
        A, n = o.arr, o.len
        return [W.SOME(c) == Ex(i, And(0 <= i, i < n, undominated(c, A, n, i)), A[i]),
                All(i, W.TOP(c, i) == And(0 <= i, i < n, A[i] != NULL, Or(Not(W.SOME(c)), undominated(c, A, n, i))), W.TOP(c, i)),
                All(i, W.BEST(c, i) == And(W.TOP(c, i), rt[A[i]] != NULL,
                    All(j, Imp(And(W.TOP(c, j), j != i), And(rt[A[j]] != rt[A[i]], td[rt[A[j]]][rt[A[i]]])), W.TOP(c, j))), W.BEST(c, i))]
    def axioms(c):
        return SelectDominantN2216.definitions(c)
    def tops(c, arr):
        W, o = SelectDominantN2216, c.old.a(0)
        return All(i, Imp(And(0 <= i, i < o.len, arr[i] != NULL), And(arr[i] == o.arr[i], W.TOP(c, i))), arr[i])
    def ensures(c):
        o, v = c.old.a(0), c.a(0)
        pick, rem = c.a(1).t, c.a(2).t
        n = o.len
        W = SelectDominantN2216
        return [('size unchanged', v.len == n)] + counted(v.arr, 0, n, pick, rem) + [
            ('remaining is 0 only if there was no candidate', Imp(rem == 0, All(i, Imp(And(0 <= i, i < n), o.arr[i] == NULL)))),
            ('candidates left are undominated, if any is', W.tops(c, v.arr)),
            ('the pick is one of them', Imp(rem > 0, And(v.arr[pick] == o.arr[pick], W.TOP(c, pick)))),
            ('the only undominated candidate is picked', All(i, Imp(And(W.TOP(c, i), All(j, Imp(W.TOP(c, j), j == i), W.TOP(c, j))), And(W.TOP(c, pick), pick == i)), W.TOP(c, i))),
            ('the one that returns the most derived class is picked', All(i, Imp(W.BEST(c, i), And(W.TOP(c, pick), pick == i)), W.BEST(c, i)))]
    def by_return(c):
        W, o, v = SelectDominantN2216, c.old.a(0), c.a(0)
        k, n = c.k, o.len
        arr = fresh(v.arr.sort(), 'candidates_left')     # a name that patterns can hold
        return [('#the candidates', arr == v.arr),
                ('index', And(c.v('i').t == k, k <= n, v.len == n)),
                ('candidates left are undominated, if any is', W.tops(c, arr)),
                ('one is left', Or(c.a(2).t > 0, Ex(i, And(k <= i, i < n, arr[i] != NULL), arr[i])))] + counted(arr, 0, k, c.a(1).t, c.a(2).t) + [
                ('the best one stays, alone once it was reached', All(j2, Imp(W.BEST(c, j2),
                    And(arr[j2] == o.arr[j2], All(j, Imp(And(0 <= j, j < n, j != j2, Or(j2 < k, j < k)), arr[j] == NULL), arr[j]))), W.BEST(c, j2)))]
    def others(c):
        v, E = c.a(0), c.ent.a(0)
        ii, k = c.v('i').t, c.k
        rt, td = rt_arr(c), td_arr(c)
        n = c.old.a(0).len
        return [('index', And(c.v('j').t == k + ii + 1, k + ii + 1 <= n, v.len == n)),
                ('candidates are only dropped', All(i, And(Or(v.arr[i] == E.arr[i], v.arr[i] == NULL), Imp(i <= ii, v.arr[i] == E.arr[i])), v.arr[i])),
                ('this one is alive', v.arr[ii] != NULL),
                ('no other returns a class derived from its own, nor one its own is derived from', All(j, Imp(And(ii < j, j < ii + 1 + k, v.arr[j] != NULL),
                    And(Not(td[rt[v.arr[ii]]][rt[v.arr[j]]]), Not(td[rt[v.arr[j]]][rt[v.arr[ii]]]))), v.arr[j])),
                ('one that does not return a more general class is not dropped', All(j, Imp(And(ii < j, j < n, E.arr[j] != NULL, Not(td[rt[E.arr[j]]][rt[E.arr[ii]]])), v.arr[j] == E.arr[j]), v.arr[j], E.arr[j]))]
    loops = (SelectDominant.outer, SelectDominant.inner, SelectDominant.recount, by_return, others)

# ----------------------------------------------------------- bit operations
class MergeInto(Contract):
    """C04: b becomes the union of a and b"""
    match = r'detail::merge_into\('
    name = 'merge_into'
    mod_args = (1,)
    def ensures(c):
        A, B0, B1 = c.old.a(0), c.old.a(1), c.a(1)
        return [('union', All(i, B1.bits[i] == Or(A.bits[i], B0.bits[i]), B1.bits[i])),
                ('size', B1.len == z3.If(A.len > B0.len, A.len, B0.len))]
    def inv(c):
        A, B0, B1, E = c.old.a(0), c.old.a(1), c.a(1), c.ent.a(1)
        return [('index', And(c.v('i').t == c.k, c.k <= A.len)),
                ('size', B1.len == z3.If(A.len > B0.len, A.len, B0.len)),
                ('bits done', All(i, B1.bits[i] == Or(And(i < c.k, A.bits[i]), B0.bits[i]), B1.bits[i]))]
    loops = (inv,)

class SetBit(Contract):
    """C04"""
    match = r'detail::set_bit\('
    name = 'set_bit'
    mod_args = (0,)
    def requires(c):
        return [('bit index', c.a(1).t >= 0)]
    def ensures(c):
        A, n, b0 = c.a(0), c.old.a(1).t, c.old.a(0)
        return [('one more bit', All(i, A.bits[i] == Or(i == n, b0.bits[i]), A.bits[i])),
                ('size', A.len == z3.If(n >= b0.len, n + 1, b0.len))]

class Accumulate(Contract):
    """C07: the totals count methods that have at least one such cell"""
    match = r'generic_compiler::accumulate\('
    name = 'accumulate'
    mod_args = (1,)
    def ensures(c):
        p, t0, t1 = c.old.a(0), c.old.a(1), c.a(1)
        f = lambda v, n: v.field(n).t
        one = lambda g: z3.If(g, z3.IntVal(1), z3.IntVal(0))
        return [('cells add up', f(t1, 'cells') == f(t0, 'cells') + f(p, 'cells')),
                ('not_implemented counts methods',
                 f(t1, 'not_implemented') == f(t0, 'not_implemented') + one(f(p, 'not_implemented') != 0)),
                ('ambiguous counts methods',
                 f(t1, 'ambiguous') == f(t0, 'ambiguous') + one(f(p, 'ambiguous') != 0))]


# --------------------------------------------------- the set of descendants
# R(c, d): d is c or a descendant of c, by the direct_derived links; defined by
# its fixpoint equation, which has one solution when the links are acyclic
# (height decreases along them)
DDL, DDA = z3.ArraySort(Ref, I), z3.ArraySort(Ref, z3.ArraySort(I, Ref))
R_ = z3.Function('descendant', DDL, DDA, Ref, Ref, B)
height = z3.Function('height', Ref, I)
def R(c, p, q):
    v = c.fld('class_.direct_derived').c
    return R_(v['len'], v['arr'], p, q)
def R_axioms(c):
    dd = c.fld('class_.direct_derived')
    return [All([a, b], R(c, a, b) == And(ISC(a), Or(a == b, Ex(i, And(0 <= i, i < dd(a).len, R(c, dd(a).arr[i], b))))),
                R(c, a, b)),
            All(a, Imp(ISC(a), R(c, a, a)), ISC(a)),
            All([a, b, i], Imp(And(ISC(a), 0 <= i, i < dd(a).len, R(c, dd(a).arr[i], b)), R(c, a, b)),
                z3.MultiPattern(dd(a).arr[i], R(c, dd(a).arr[i], b)))]
ISC = z3.Function('is_class', Ref, B)      # the classes of the compiler
def dd_classes(c):
    dd = c.fld('class_.direct_derived')
    return All([a, i], Imp(And(0 <= i, i < dd(a).len), And(ISC(a), ISC(dd(a).arr[i]))), dd(a).arr[i])
def R_direct(c):
    dd = c.fld('class_.direct_derived')
    return All([a, i], Imp(And(0 <= i, i < dd(a).len), And(R(c, a, dd(a).arr[i]), R(c, dd(a).arr[i], dd(a).arr[i]))), dd(a).arr[i])
def acyclic(c):
    dd = c.fld('class_.direct_derived')
    return And(All([a, i], Imp(And(0 <= i, i < dd(a).len),
                               And(dd(a).arr[i] != NULL, height(dd(a).arr[i]) < height(a))), dd(a).arr[i]),
               All(a, height(a) >= 0, height(a)))
def R_height(c):
    """consequence of acyclicity (by induction on height; stated as a lemma)"""
    return All([a, b], Imp(And(R(c, a, b), a != b), height(b) < height(a)), R(c, a, b))
def R_refl(c):
    return All([a, b], Imp(R(c, a, b), And(R(c, a, a), R(c, b, b))), R(c, a, b))
def R_trans(c):
    """the same"""
    return All([a, b, d], Imp(And(R(c, a, b), R(c, b, d)), R(c, a, d)), z3.MultiPattern(R(c, a, b), R(c, b, d)))
def empty(s):
    return All(x_, Not(s[x_]), s[x_])
x_ = z3.Const('x_', Ref)
def full(c, p):
    t = td_arr(c)[p]
    return All(x_, t[x_] == R(c, p, x_), t[x_], R(c, p, x_))
def empty_or_full(c, p):
    return Or(empty(td_arr(c)[p]), full(c, p))

class CalculateTransitiveDerived(Contract):
    """C05: transitive_derived becomes the reflexive transitive closure"""
    match = r'compiler<.*>::calculate_transitive_derived\('
    name = 'calculate_transitive_derived'
    modifies = ('class_.transitive_derived',)
    def requires(c):
        r = c.a(0).t
        return [('a class', ISC(r)), ('derived classes are classes', dd_classes(c)), ('acyclic inheritance', acyclic(c)),
                ('closure decreases height', R_height(c)),
                ('sets below are empty or complete', All(a, Imp(R(c, r, a), empty_or_full(c, a)), R(c, r, a)))]
    def axioms(c):
        return R_axioms(c)
    def decreases(c):
        return height(c.a(0).t)
    def ensures(c):
        r = c.a(0).t
        t0, t1 = td_arr(c.old), td_arr(c)
        return [('the set of the class is complete', full(c, r)),
                ('sets below are empty or complete', All(a, Imp(R(c, r, a), empty_or_full(c, a)), R(c, r, a))),
                ('sets elsewhere are unchanged', All(a, Imp(Not(R(c, r, a)), t1[a] == t0[a]), t1[a])),
                ('complete sets stay complete', All(a, Or(empty(t0[a]), t1[a] == t0[a]), t1[a]))]
    def inv(c):
        r = c.a(0).t
        t0, t1 = td_arr(c.old), td_arr(c)
        dd = c.fld('class_.direct_derived')
        return [('set so far', All(x_, t1[r][x_] == Or(x_ == r, Ex(i, And(0 <= i, i < c.k, R(c, dd(r).arr[i], x_)))), t1[r][x_])),
                ('sets below are empty or complete', All(a, Imp(And(a != r, R(c, r, a)), empty_or_full(c, a)), R(c, r, a))),
                ('sets elsewhere are unchanged', All(a, Imp(Not(R(c, r, a)), t1[a] == t0[a]), t1[a])),
                ('complete sets stay complete', All(a, Or(a == r, empty(t0[a]), t1[a] == t0[a]), t1[a]))]
    loops = (inv,)


# ------------------------------------------------------------ v-table slots
PAR = z3.Function('is_param', Ref, I, B)        # (method, index) is a virtual parameter
upos = z3.Function('use_index', Ref, I, I)      # position in used_by_vp of its class
m, m2 = z3.Consts('m m2', Ref)
p, p2, q = z3.Ints('p p2 q')

def vp_of(c, mm, pp):
    return c.fld('method.vp')(mm).arr[pp]
def slot_of(c, mm, pp):
    return c.fld('method.slots')(mm).arr[pp]

def is_param_def(c):
    v = c.fld('method.vp')
    return All([m, p], PAR(m, p) == And(is_method(c, m), 0 <= p, p < v(m).len), PAR(m, p))
ISM = z3.Function('is_method', Ref, B)
def is_method(c, mm):
    return ISM(mm)

def uses_wf(c):
    """used_by_vp lists, for each class, the virtual parameters of that class,
    once each; every parameter has a slot cell"""
    u = c.fld('class_.used_by_vp')
    um, up_ = sub(u.c, 'arr')['method'], sub(u.c, 'arr')['param']
    sl = c.fld('method.slots')
    return [('entries of used_by_vp are parameters of the class',
             All([a, q], Imp(And(0 <= q, q < u(a).len),
                 And(PAR(um[a][q], up_[a][q]), vp_of(c, um[a][q], up_[a][q]) == a,
                     upos(um[a][q], up_[a][q]) == q)), um[a][q])),
            ('every parameter is listed by its class',
             All([m, p], Imp(PAR(m, p), And(0 <= upos(m, p), upos(m, p) < u(vp_of(c, m, p)).len,
                 um[vp_of(c, m, p)][upos(m, p)] == m, up_[vp_of(c, m, p)][upos(m, p)] == p)), PAR(m, p))),
            ('every parameter has a slot cell and a class',
             All([m, p], Imp(PAR(m, p), And(0 <= p, p < sl(m).len, m != NULL, vp_of(c, m, p) != NULL)), PAR(m, p)))]

# base slot of a class in a tree: after the slots of its base
tb = z3.Function('tree_base', Ref, I)
def tb_axiom(c):
    db, u = c.fld('class_.direct_bases'), c.fld('class_.used_by_vp')
    return [All(a, tb(a) == z3.If(db(a).len == 0, 0, tb(db(a).arr[0]) + u(db(a).arr[0]).len), tb(a)),
            All(a, tb(a) >= 0, tb(a))]

def dd_inverse(c):
    dd, db = c.fld('class_.direct_derived'), c.fld('class_.direct_bases')
    return All([a, i], Imp(And(0 <= i, i < dd(a).len),
               Ex(j, And(0 <= j, j < db(dd(a).arr[i]).len, db(dd(a).arr[i]).arr[j] == a))), dd(a).arr[i])

def same_ubv(c):
    """a class and the derived that list it share nothing else"""
    return []

class AssignTreeSlots(Contract):
    """C04 (single inheritance): slots follow those of the base class"""
    match = r'compiler<.*>::assign_tree_slots\('
    name = 'assign_tree_slots'
    modifies = ('method.slots', 'class_.first_slot', 'class_.vtbl')
    def requires(c):
        r = c.a(0).t
        db = c.fld('class_.direct_bases')
        return [('a class', ISC(r)), ('derived classes are classes', dd_classes(c)), ('acyclic inheritance', acyclic(c)), ('closure decreases height', R_height(c)),
                ('derived classes list their bases', dd_inverse(c)),
                ('no multiple inheritance below', All(a, Imp(R(c, r, a), db(a).len <= 1), R(c, r, a))),
                ('base slot', c.a(1).t == tb(r)), ('base slot not negative', c.a(1).t >= 0)] + uses_wf(c)
    def axioms(c):
        return R_axioms(c) + tb_axiom(c) + [R_direct(c)]
    def decreases(c):
        return height(c.a(0).t)
    def done(c, cond_mp, cond_c):
        fs, vt, u = c.fld('class_.first_slot'), c.fld('class_.vtbl'), c.fld('class_.used_by_vp')
        fs0, vt0 = c.old.fld('class_.first_slot'), c.old.fld('class_.vtbl')
        sl, sl0 = c.fld('method.slots'), c.old.fld('method.slots')
        return [('slots of the parameters below', All([m, p], Imp(PAR(m, p), slot_of(c, m, p) == z3.If(cond_mp(m, p),
                    tb(vp_of(c, m, p)) + upos(m, p), slot_of(c.old, m, p))), PAR(m, p))),
                ('number of slot cells unchanged', All(m, sl(m).len == sl0(m).len, sl(m).len)),
                ('v-table of the classes below spans their slots', All(a, z3.If(cond_c(a),
                    And(fs(a).t == 0, vt(a).len == tb(a) + u(a).len),
                    And(fs(a).t == fs0(a).t, vt(a).len == vt0(a).len)), vt(a).len))]
    def ensures(c):
        r = c.a(0).t
        return AssignTreeSlots.done(c, lambda m, p: R(c, r, vp_of(c, m, p)), lambda a: R(c, r, a))
    def inv1(c):
        r = c.a(0).t
        sl, sl0 = c.fld('method.slots'), c.old.fld('method.slots')
        return [('next slot', c.v('next_slot').t == tb(r) + c.k),
                ('number of slot cells unchanged', All(m, sl(m).len == sl0(m).len, sl(m).len)),
                ('slots so far', All([m, p], Imp(PAR(m, p), slot_of(c, m, p) == z3.If(And(vp_of(c, m, p) == r, upos(m, p) < c.k),
                    tb(r) + upos(m, p), slot_of(c.old, m, p))), PAR(m, p)))]
    def inv2(c):
        r = c.a(0).t
        dd = c.fld('class_.direct_derived')
        below = lambda a: Or(a == r, Ex(i, And(0 <= i, i < c.k, R(c, dd(r).arr[i], a))))
        u = c.fld('class_.used_by_vp')
        return [('derived classes start after this one', All(i, Imp(And(0 <= i, i < dd(r).len), tb(dd(r).arr[i]) == tb(r) + u(r).len), dd(r).arr[i])),
                ('next slot', c.v('next_slot').t == tb(r) + u(r).len)] + AssignTreeSlots.done(c, lambda m, p: below(vp_of(c, m, p)), below)
    loops = (inv1, inv2)

def bases_are_inverse(c):
    """transitive_bases lists the proper bases"""
    tbs, td = c.fld('class_.transitive_bases'), td_arr(c)
    return [('listed bases are bases', All([a, i], Imp(And(0 <= i, i < tbs(a).len),
                And(tbs(a).arr[i] != NULL, tbs(a).arr[i] != a, td[tbs(a).arr[i]][a])), tbs(a).arr[i])),
            ('bases are listed', All([a, b], Imp(And(td[b][a], a != b),
                Ex(i, And(0 <= i, i < tbs(a).len, tbs(a).arr[i] == b))), td[b][a]))]
def td_is_closure(c):
    return And(All(a, full(c, a)))
def td_wf(c):
    td = td_arr(c)
    return [('derived sets are the closure', All([a, b], td[a][b] == R(c, a, b), td[a][b], R(c, a, b))),
            ('no null class in a set', All([a, b], Imp(td[a][b], b != NULL) , td[a][b]))]

def bit(c, key, p_, s_):
    return c.fld(key).c['bits'][p_][s_]
USED, RESV = 'class_.used_slots', 'class_.reserved_slots'

def lattice_inv(c, assigned):
    """what every assigned parameter guarantees"""
    td = td_arr(c)
    s1 = lambda mm, pp: slot_of(c, mm, pp)
    A = lambda mm, pp: vp_of(c, mm, pp)
    return [('slot is used in every class below',
             All([m, p, d], Imp(And(PAR(m, p), assigned(m, p), td[A(m, p)][d]), bit(c, USED, d, s1(m, p))),
                 z3.MultiPattern(PAR(m, p), td[A(m, p)][d]))),
            ('slot is reserved in every base of a class below',
             All([m, p, d, b], Imp(And(PAR(m, p), assigned(m, p), td[A(m, p)][d], td[b][d], b != d),
                 Or(bit(c, RESV, b, s1(m, p)), bit(c, USED, b, s1(m, p)))),
                 z3.MultiPattern(PAR(m, p), td[A(m, p)][d], td[b][d]))),
            ('no two parameters share a slot in a class',
             All([m, p, m2, p2, d], Imp(And(PAR(m, p), PAR(m2, p2), assigned(m, p), assigned(m2, p2),
                    td[A(m, p)][d], td[A(m2, p2)][d], s1(m, p) == s1(m2, p2)), And(m == m2, p == p2)),
                 z3.MultiPattern(PAR(m, p), PAR(m2, p2), td[A(m, p)][d], td[A(m2, p2)][d])))]

class AssignLatticeSlots(Contract):
    """C04 (multiple inheritance)"""
    match = r'compiler<.*>::assign_lattice_slots\('
    name = 'assign_lattice_slots'
    modifies = ('method.slots', 'class_.used_slots', 'class_.reserved_slots', 'class_.mark')
    def marked(c, r):
        return c.fld('class_.mark')(r).t == c.fld('compiler.class_mark')(c.this).t
    def requires(c):
        r = c.a(0).t
        mk = lambda r_: AssignLatticeSlots.marked(c, r_)
        return [('a class', ISC(r)), ('derived classes are classes', dd_classes(c)), ('acyclic inheritance', acyclic(c)), ('closure decreases height', R_height(c)),
                ('closure is transitive', R_trans(c)),
                ('marks are closed below', All([a, b], Imp(And(R(c, r, a), mk(a), R(c, a, b)), mk(b)),
                                               z3.MultiPattern(R(c, r, a), R(c, a, b))))] + \
            uses_wf(c) + td_wf(c) + bases_are_inverse(c) + AssignLatticeSlots.state(c)
    def state(c):
        return lattice_inv(c, lambda mm, pp: AssignLatticeSlots.marked(c, vp_of(c, mm, pp)))
    def axioms(c):
        return R_axioms(c)
    def decreases(c):
        return height(c.a(0).t)
    def frame(c, r, strict=False):
        mk0, mk1 = c.old.fld('class_.mark'), c.fld('class_.mark')
        sl, sl0 = c.fld('method.slots'), c.old.fld('method.slots')
        us, us0 = c.fld(USED), c.old.fld(USED)
        return [('marks elsewhere unchanged', All(a, Imp(Not(R(c, r, a)), mk1(a).t == mk0(a).t), mk1(a).t)),
                ('marks are kept', All(a, Imp(AssignLatticeSlots.marked(c.old, a), AssignLatticeSlots.marked(c, a)), mk1(a).t)),
                ('number of slot cells unchanged', All(m, sl(m).len == sl0(m).len, sl(m).len)),
                ('slots of parameters elsewhere unchanged', All([m, p], Imp(And(PAR(m, p), Not(R(c, r, vp_of(c, m, p)))),
                    slot_of(c, m, p) == slot_of(c.old, m, p)), PAR(m, p))),
                ('used slots elsewhere unchanged', All(a, Imp(Not(R(c, r, a)),
                    And(us(a).len == us0(a).len, us(a).bits == us0(a).bits)), us(a).len))]
    def ensures(c):
        r = c.a(0).t
        return [('every class below is marked', All(a, Imp(R(c, r, a), AssignLatticeSlots.marked(c, a)), R(c, r, a)))] + \
            AssignLatticeSlots.state(c) + AssignLatticeSlots.frame(c, r)
    def params(c):
        """loop over the parameters of the class"""
        r = c.a(0).t
        mk = lambda r_: AssignLatticeSlots.marked(c, r_)
        mk0 = c.old.fld('class_.mark')
        return lattice_inv(c, lambda mm, pp: z3.If(vp_of(c, mm, pp) == r, upos(mm, pp) < c.k, mk(vp_of(c, mm, pp)))) + \
            AssignLatticeSlots.frame(c, r)
    def probe(c):
        """search for the first free slot"""
        uv = c.v('unavailable_slots')
        s_ = c.v('slot').t
        return [('slots below are taken', And(s_ == c.k, s_ <= uv.len, All(i, Imp(And(0 <= i, i < s_), uv.bits[i]), uv.bits[i])))]
    def cur(c, r):
        """bits only get added"""
        us, us0 = c.fld(USED).c['bits'], c.ent.fld(USED).c['bits']
        rs, rs0 = c.fld(RESV).c['bits'], c.ent.fld(RESV).c['bits']
        return rs, rs0, us, us0
    def reserve_in_bases(c):
        r = c.a(0).t
        tbs = c.fld('class_.transitive_bases')(r)
        rs, rs0, us, us0 = AssignLatticeSlots.cur(c, r)
        return [('reserved slots only grow', All([a, i], Imp(rs0[a][i], rs[a][i]), rs[a][i])),
                ('bases done', All(j, Imp(And(0 <= j, j < c.k), All(i, Imp(us[r][i], rs[tbs.arr[j]][i]))), tbs.arr[j]))]
    def assign_in_derived(c):
        r = c.a(0).t
        td = td_arr(c)
        rs, rs0, us, us0 = AssignLatticeSlots.cur(c, r)
        e = c.en
        dn = lambda d_: And(td[r][d_], d_ != r, e.idx(d_) < c.k)
        ul, ul0 = c.fld(USED).c['len'], c.ent.fld(USED).c['len']
        return [('reserved slots only grow', All([a, i], Imp(rs0[a][i], rs[a][i]), rs[a][i])),
                ('used slots only grow', All([a, i], Imp(us0[a][i], us[a][i]), us[a][i])),
                ('used slots of the class unchanged', us[r] == us0[r]),
                ('derived done', All([d, i], Imp(And(dn(d), us[r][i]), us[d][i]), z3.MultiPattern(td[r][d], us[r][i]))),
                ('bases of derived done', All([d, b, i], Imp(And(dn(d), td[b][d], b != d, us[r][i]), rs[b][i]),
                    z3.MultiPattern(td[r][d], td[b][d], us[r][i]))),
                ('used slots elsewhere unchanged', All(a, Imp(Not(R(c, r, a)),
                    And(ul[a] == ul0[a], us[a] == us0[a])), us[a]))]
    def reserve_in_bases_of_derived(c):
        r = c.a(0).t
        cov = c.v('covariant').t
        tbs = c.fld('class_.transitive_bases')(cov)
        rs, rs0, us, us0 = AssignLatticeSlots.cur(c, r)
        return [('reserved slots only grow', All([a, i], Imp(rs0[a][i], rs[a][i]), rs[a][i])),
                ('bases done', All(j, Imp(And(0 <= j, j < c.k), All(i, Imp(us[r][i], rs[tbs.arr[j]][i]))), tbs.arr[j]))]
    def recurse(c):
        r = c.a(0).t
        dd = c.fld('class_.direct_derived')
        mk = lambda r_: AssignLatticeSlots.marked(c, r_)
        return [('derived done', All(i, Imp(And(0 <= i, i < c.k), All(a, Imp(R(c, dd(r).arr[i], a), mk(a)), R(c, dd(r).arr[i], a))), dd(r).arr[i])),
                ('the class is marked', mk(r)),
                ('marks are closed below', All([a, b], Imp(And(a != r, R(c, r, a), mk(a), R(c, a, b)), mk(b)),
                                               z3.MultiPattern(R(c, r, a), R(c, a, b))))] + \
            AssignLatticeSlots.state(c) + AssignLatticeSlots.frame(c, r)
    loops = (params, probe, reserve_in_bases, assign_in_derived, reserve_in_bases_of_derived, recurse)

# ------------------------------------------- the slots of the whole lattice
TREE = z3.Function('is_tree', Ref, B)   # a root with no multiple inheritance below
r_, r2_ = z3.Consts('r_ r2_', Ref)
def tree_def(c):
    db = c.fld('class_.direct_bases')
    return All(r_, TREE(r_) == And(db(r_).len == 0, All(a, Imp(R(c, r_, a), db(a).len <= 1), R(c, r_, a))), TREE(r_))
def tree_lemmas(c):
    """by induction on the depth (lemma:closure)"""
    db, u = c.fld('class_.direct_bases'), c.fld('class_.used_by_vp')
    return [('a class below the root of a tree has no other root',
             All([r_, r2_, a], Imp(And(TREE(r_), db(r2_).len == 0, R(c, r_, a), R(c, r2_, a)), r_ == r2_),
                 z3.MultiPattern(TREE(r_), R(c, r_, a), R(c, r2_, a)))),
            ('bases in a tree are comparable',
             All([r_, a, b, d], Imp(And(TREE(r_), R(c, r_, a), R(c, r_, b), R(c, a, d), R(c, b, d)), Or(R(c, a, b), R(c, b, a))),
                 z3.MultiPattern(TREE(r_), R(c, r_, a), R(c, r_, b), R(c, a, d), R(c, b, d)))),
            ('slots of a class in a tree follow those of its bases',
             All([r_, a, d], Imp(And(TREE(r_), R(c, r_, a), R(c, a, d), a != d), tb(a) + u(a).len <= tb(d)),
                 z3.MultiPattern(TREE(r_), R(c, r_, a), R(c, a, d))))]
rootix = z3.Function('root_index', Ref, I)
cidx = z3.Function('objidx', Ref, I)
def classes(c):
    return c.fld('compiler.classes')(c.this)
def lattice_wf(c):
    """what augment_classes leaves"""
    db, dd = c.fld('class_.direct_bases'), c.fld('class_.direct_derived')
    v = classes(c)
    td = td_arr(c)
    return [('classes of the compiler', All(i, Imp(And(0 <= i, i < v.len), ISC(v.arr[i])), v.arr[i])),
            ('derived classes are classes', dd_classes(c)), ('acyclic inheritance', acyclic(c)), ('closure decreases height', R_height(c)), ('closure is transitive', R_trans(c)),
            ('derived classes list their bases', dd_inverse(c)),
            ('derived classes of a class are in the compiler',
             All([a, b], Imp(td[a][b], And(0 <= cidx(b), cidx(b) < v.len, v.arr[cidx(b)] == b)), td[a][b])),
            ('every class has a root',
             All([m, p], Imp(PAR(m, p), And(0 <= rootix(vp_of(c, m, p)), rootix(vp_of(c, m, p)) < v.len,
                 db(v.arr[rootix(vp_of(c, m, p))]).len == 0, R(c, v.arr[rootix(vp_of(c, m, p))], vp_of(c, m, p)))), PAR(m, p)))] + \
        td_wf(c) + bases_are_inverse(c)

def slot_ok(c, done=None):
    """C04: the slot of every parameter lies in the v-table of every class that can be passed"""
    fs, vt, td = c.fld('class_.first_slot'), c.fld('class_.vtbl'), td_arr(c)
    return All([m, p, d], Imp(And(PAR(m, p), td[vp_of(c, m, p)][d]),
               And(fs(d).t <= slot_of(c, m, p), slot_of(c, m, p) < fs(d).t + vt(d).len)),
               z3.MultiPattern(PAR(m, p), td[vp_of(c, m, p)][d]))
def slot_distinct(c):
    td = td_arr(c)
    return All([m, p, m2, p2, d], Imp(And(PAR(m, p), PAR(m2, p2), td[vp_of(c, m, p)][d], td[vp_of(c, m2, p2)][d],
                   slot_of(c, m, p) == slot_of(c, m2, p2)), And(m == m2, p == p2)),
               z3.MultiPattern(PAR(m, p), PAR(m2, p2), td[vp_of(c, m, p)][d], td[vp_of(c, m2, p2)][d]))

class AssignSlots(Contract):
    """C04: the whole lattice"""
    match = r'compiler<.*>::assign_slots\('
    name = 'assign_slots'
    own_axioms = True           # the definition of the closure is not needed here, and it unfolds without end
    modifies = ('method.slots', 'class_.first_slot', 'class_.vtbl', 'class_.used_slots', 'class_.reserved_slots', 'class_.mark', 'compiler.class_mark')
    def requires(c):
        us, rs, vt = c.fld(USED), c.fld(RESV), c.fld('class_.vtbl')
        return lattice_wf(c) + uses_wf(c) + tree_lemmas(c) + [
            ('no slot is used yet', All(a, And(us(a).len == 0, All(i, Not(us(a).bits[i]), us(a).bits[i])), us(a).len)),
            ('marks are old', All(a, c.fld('class_.mark')(a).t <= c.fld('compiler.class_mark')(c.this).t, c.fld('class_.mark')(a).t)),
            ('classes of parameters are in the compiler', All([m, p], Imp(PAR(m, p), td_arr(c)[vp_of(c, m, p)][vp_of(c, m, p)]), PAR(m, p)))]
    def axioms(c):
        db = c.fld('class_.direct_bases')
        return [All(a, Imp(db(a).len == 0, tb(a) == 0), tb(a)), All(a, tb(a) >= 0, tb(a)), R_refl(c), tree_def(c),
                All(a, c.fld('class_.used_by_vp')(a).len >= 0, c.fld('class_.used_by_vp')(a).len)]
    def ensures(c):
        sl, sl0 = c.fld('method.slots'), c.old.fld('method.slots')
        return [('every slot lies in the v-tables of its classes', slot_ok(c)),
                ('no two parameters share a slot in a class', slot_distinct(c)),
                ('number of slot cells unchanged', All(m, sl(m).len == sl0(m).len, sl(m).len))]
    def trees(c, k):
        v, fs, vt, u, us = classes(c), c.fld('class_.first_slot'), c.fld('class_.vtbl'), c.fld('class_.used_by_vp'), c.fld(USED)
        # arr[i] is a tree that has been visited
        return [('trees are laid out', All([i, a], Imp(And(0 <= i, i < k, TREE(v.arr[i]), R(c, v.arr[i], a)),
                    And(fs(a).t == 0, vt(a).len == tb(a) + u(a).len, us(a).len == 0)), z3.MultiPattern(v.arr[i], R(c, v.arr[i], a)))),
                ('slots in trees', All([i, m, p], Imp(And(0 <= i, i < k, TREE(v.arr[i]), PAR(m, p), R(c, v.arr[i], vp_of(c, m, p))),
                    slot_of(c, m, p) == tb(vp_of(c, m, p)) + upos(m, p)), z3.MultiPattern(v.arr[i], PAR(m, p))))]
    def each(c):
        v, db = classes(c), c.fld('class_.direct_bases')
        us = c.fld(USED)
        mk = lambda r: AssignLatticeSlots.marked(c, r)
        sl, sl0 = c.fld('method.slots'), c.old.fld('method.slots')
        return [('marked classes have a root that is not a tree', All(a, Imp(mk(a), Ex(i, And(0 <= i, i < c.k, db(v.arr[i]).len == 0, Not(TREE(v.arr[i])), R(c, v.arr[i], a)))), c.fld('class_.mark')(a).t)),
                ('classes of visited lattices are marked', All([i, a], Imp(And(0 <= i, i < c.k, db(v.arr[i]).len == 0, Not(TREE(v.arr[i])), R(c, v.arr[i], a)), mk(a)), z3.MultiPattern(v.arr[i], R(c, v.arr[i], a)))),
                ('slots are used in marked classes only', All(a, Imp(Not(mk(a)), us(a).len == 0), us(a).len)),
                ('number of slot cells unchanged', All(m, sl(m).len == sl0(m).len, sl(m).len))] + \
            AssignSlots.trees(c, c.k) + AssignLatticeSlots.state(c)
    def mi(c):
        v, fs, vt, us = classes(c), c.fld('class_.first_slot'), c.fld('class_.vtbl'), c.fld(USED)
        e = c.ent
        fs0, vt0 = e.fld('class_.first_slot'), e.fld('class_.vtbl')
        return [('classes without used slots unchanged', All(a, Imp(us(a).len == 0, And(fs(a).t == fs0(a).t, vt(a).len == vt0(a).len)), vt(a).len)),
                ('v-tables span the used slots', All(j, Imp(And(0 <= j, j < c.k, us(v.arr[j]).len != 0),
                    And(fs(v.arr[j]).t + vt(v.arr[j]).len == us(v.arr[j]).len, All(i, Imp(us(v.arr[j]).bits[i], fs(v.arr[j]).t <= i), us(v.arr[j]).bits[i]))), v.arr[j]))]
    loops = (each, mi)

CONTRACTS = [IsMoreSpecific, IsBase, SelectDominant, SelectDominantN2216, MergeInto, SetBit, Accumulate,
    CalculateTransitiveDerived, AssignTreeSlots, AssignLatticeSlots, AssignSlots]
