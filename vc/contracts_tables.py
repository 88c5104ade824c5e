"""Contracts on the construction and the installation of the dispatch tables
(initialize.hpp): every cell holds the overrider the property calls for."""
import z3
from engine import *
from contracts_compiler import *
import contracts_compiler as cc

RECORDS.setdefault('group', [('classes', VEC(cl)), ('has_concrete_classes', BOOL)])
GMAP = MAP(BITS, REC('group'))
GVEC = VEC(GMAP)
KS = keysort(BITS)
DOMS = z3.ArraySort(I, z3.ArraySort(KS, B))
mkey, midx, msize = enum_fns(KS)

# --------------------------------------------------- what a cell must hold
# CELL(m, mask, e): e is right for arguments that the overriders in mask accept
TDS_ = cc.TDS
CELL_ = z3.Function('cell', z3.ArraySort(Ref, I), z3.ArraySort(Ref, z3.ArraySort(I, Ref)), VL, VA, TDS_, Ref, BitArr, Ref, B)
NB_ = z3.Function('general', z3.ArraySort(Ref, I), z3.ArraySort(Ref, z3.ArraySort(I, Ref)), VL, VA, TDS_, Ref, Ref, BitArr)
CLOSED_ = z3.Function('closed', z3.ArraySort(Ref, I), z3.ArraySort(Ref, z3.ArraySort(I, Ref)), VL, VA, TDS_, Ref, BitArr, B)
def env(c):
    o, v = c.fld('method.overriders').c, c.fld('overrider.vp').c
    return (o['len'], o['arr'], v['len'], v['arr'], td_arr(c))
def CELL(c, mm, bits, e): return CELL_(*env(c), mm, bits, e)
def NB(c, mm, o): return NB_(*env(c), mm, o)
def CLOSED(c, mm, bits): return CLOSED_(*env(c), mm, bits)
NI, AMB = subobject('method.not_implemented'), subobject('method.ambiguous')
bs, bs2, bs3 = z3.Consts('bs bs2 bs3', BitArr)
e_ = z3.Const('e_', Ref)
oix = z3.Function('objidx', Ref, I)      # position of an object in its vector

def ovs(c, mm): return c.fld('method.overriders')(mm)
def cand(c, mm, bits, ii): return And(0 <= ii, ii < ovs(c, mm).len, bits[ii])
def und(c, mm, bits, ii):
    A = ovs(c, mm).arr
    return And(cand(c, mm, bits, ii), All(j, Imp(cand(c, mm, bits, j), Not(MS(c, A[j], A[ii]))), A[j]))
def unique(c, mm, bits, ii):
    A = ovs(c, mm).arr
    jj = z3.Int('jj')
    return And(und(c, mm, bits, ii), All(jj, Imp(und(c, mm, bits, jj), jj == ii), A[jj]))
def cell_def(c, mm, bits, e):
    A = ovs(c, mm).arr
    return Or(And(e == NI(mm), All(i, Not(cand(c, mm, bits, i)), A[i])),
              Ex(i, And(unique(c, mm, bits, i), e == A[i])),
              And(e == AMB(mm), Ex(i, cand(c, mm, bits, i)), All(i, Not(unique(c, mm, bits, i)), A[i])))
def cell_axiom(c, mm):
    return All([bs, e_], CELL(c, mm, bs, e_) == cell_def(c, mm, bs, e_), CELL(c, mm, bs, e_))
def nb_axiom(c, mm):
    A = ovs(c, mm).arr
    return All([e_, i], NB(c, mm, e_)[i] == And(0 <= i, i < ovs(c, mm).len, ISBASE(c, A[i], e_)), NB(c, mm, e_)[i])
def closed_axioms(c, mm):
    A = ovs(c, mm).arr
    return [All(bs, CLOSED(c, mm, bs) == All([i, j], Imp(And(0 <= i, i < ovs(c, mm).len, 0 <= j, j < ovs(c, mm).len, bs[j], ISBASE(c, A[i], A[j])), bs[i]),
                z3.MultiPattern(bs[j], ISBASE(c, A[i], A[j]))), CLOSED(c, mm, bs))]
def closed_and(c, mm):
    return All([bs, bs2], Imp(And(CLOSED(c, mm, bs), CLOSED(c, mm, bs2)), CLOSED(c, mm, bits_and(bs, bs2))), bits_and(bs, bs2))
def overriders_wf(c, mm):
    """overriders are distinct objects, with the arity of the method"""
    A, n = ovs(c, mm).arr, ovs(c, mm).len
    vp = c.fld('overrider.vp')
    return [('overriders are distinct objects',
             All(i, Imp(And(0 <= i, i < n), And(oix(A[i]) == i, A[i] != NULL, A[i] != NI(mm), A[i] != AMB(mm))), A[i])),
            ('parameters of the overriders are classes', All([i, x], Imp(And(0 <= i, i < n, 0 <= x, x < vp(A[i]).len), vp(A[i]).arr[x] != NULL), vp(A[i]).arr[x])),
            ('same arity', All([i, j], Imp(And(0 <= i, i < n, 0 <= j, j < n), vp(A[i]).len == vp(A[j]).len), z3.MultiPattern(A[i], A[j]))),
            ('synthetic overriders are distinct', NI(mm) != AMB(mm))]
def is_ovr(c, mm, a):
    return And(0 <= oix(a), oix(a) < ovs(c, mm).len, a == ovs(c, mm).arr[oix(a)])

# ----------------------------------------------------- linear index of a cell
SZ = z3.Function('cells_upto', DOMS, I, I)              # product of the numbers of groups of dimensions 0..d
GM = z3.Function('group_mask', DOMS, I, I, BitArr)      # intersection of the masks of the groups a linear index stands for
TRUE_ = z3.Const('all_overriders', BitArr)
D_ = z3.Const('D_', DOMS)
r3 = z3.Int('r3')
def prod(x, y): return mul_uf(x, y)
def kbits(k): return Key.kbits(k)
def linear_axioms(D, dim):
    """definition of SZ and GM at one dimension"""
    return [SZ(D, -1) == 1, SZ(D, dim - 1) >= 0,
            Imp(dim >= 0, SZ(D, dim) == prod(SZ(D, dim - 1), msize(D[dim]))),
            All(r3, GM(D, -1, r3) == TRUE_, GM(D, -1, r3)),
            All([x, r3], Imp(And(dim >= 0, 0 <= x, x < msize(D[dim]), prod(SZ(D, dim - 1), x) <= r3, r3 < prod(SZ(D, dim - 1), x) + SZ(D, dim - 1)),
                GM(D, dim, r3) == bits_and(kbits(mkey(D[dim], x)), GM(D, dim - 1, r3 - prod(SZ(D, dim - 1), x)))),
                z3.MultiPattern(GM(D, dim, r3), mkey(D[dim], x))),
            All([bs, bs2, bs3], bits_and(bits_and(bs, bs2), bs3) == bits_and(bs, bits_and(bs2, bs3)), bits_and(bits_and(bs, bs2), bs3)),
            All(bs, bits_and(bs, TRUE_) == bs, bits_and(bs, TRUE_))]
d1 = z3.Int('d1')
RANK = z3.Function('bits_below', BitArr, I, I)     # number of bits set below: RANK(b, 0) = 0, RANK(b, i+1) = RANK(b, i) + b[i]

def group_iter(eng, st):
    v = mkfresh(GVEC, 'groups')
    st.assume(v.len >= 0)
    return It(Tmp(v), fresh(I, 'group_iter'))

class BuildDispatchTable(Contract):
    """C01, C02, C03, C06: one cell for each combination of groups, in order;
    each holds the overrider that the applicable ones designate, whose `next`
    is the one the more general overriders designate"""
    match = r'compiler<>::build_dispatch_table\('
    name = 'build_dispatch_table'
    param_types = {2: group_iter}
    modifies = ('method.dispatch_table', 'method.report', 'overrider.next')
    def groups(c):
        it = c.arg_lv(2)
        if not isinstance(it, It):
            raise Skeleton('group iterator')
        return it.cont.read(c._s), it.idx
    def doms(c):
        return BuildDispatchTable.groups(c)[0].c['arr.dom']
    def requires(c):
        mm, dim, cb = c.a(0).t, c.a(1).t, c.a(3)
        g, ix = BuildDispatchTable.groups(c)
        n = ovs(c, mm).len
        D = g.c['arr.dom']
        kk = z3.Const('kk', KS)
        return overriders_wf(c, mm) + [
            ('inheritance is antisymmetric', antisym(c)),
            ('the iterator designates the groups of the dimension', And(ix == dim, 0 <= dim, dim < g.len)),
            ('masks have a bit for each overrider', And(cb.len == n,
                All([d1, kk], Imp(And(0 <= d1, d1 <= dim, D[d1][kk]), Key.klen(kk) == n), D[d1][kk]))),
            ('candidates include all that are more general', CLOSED(c, mm, cb.bits)),
            ('overriders applicable to a group include all that are more general',
             All([d1, kk], Imp(And(0 <= d1, d1 <= dim, D[d1][kk]), CLOSED(c, mm, kbits(kk))), D[d1][kk]))]
    def axioms(c):
        mm = c.a(0).t
        if c.fr is not c._e.frame:
            return []
        return [cell_axiom(c, mm), nb_axiom(c, mm), closed_and(c, mm)] + closed_axioms(c, mm) + linear_axioms(BuildDispatchTable.doms(c), c.a(1).t) + [
            All(a, Not(MS(c, a, a)), MS(c, a, a))]
    def decreases(c):
        return c.a(1).t
    def cells(c, count, n2216=False):
        o = c.old
        mm, dim, cb = c.a(0).t, c.a(1).t, c.a(3)
        D = BuildDispatchTable.doms(c)
        dt, dt0 = c.fld('method.dispatch_table'), o.fld('method.dispatch_table')
        nx, nx0 = c.fld('overrider.next'), o.fld('overrider.next')
        L = dt0(mm).len
        rp, rp0 = c.fld('method.report'), o.fld('method.report')
        A = ovs(c, mm).arr
        okn = lambda e: CELL(c, mm, NB(c, mm, e), nx(e).t)
        here = [dt(mm).arr[x]] + ([c.it.fld('method.dispatch_table')(mm).arr[x]] if c.it is not None else [])
        appended = lambda v: Or(And(dt(mm).len > L, dt(mm).arr[dt(mm).len - 1] == v), Ex(x, And(L <= x, x < L + count, dt(mm).arr[x] == v), *here))
        f = lambda v, n: v.field(n).t
        return [('one cell for each combination of groups', dt(mm).len == L + count),
                ('cells written before unchanged', All(x, Imp(x < L, dt(mm).arr[x] == dt0(mm).arr[x]), dt(mm).arr[x])),
                ('tables of other methods unchanged', All(m2, Imp(m2 != mm, And(dt(m2).len == dt0(m2).len, dt(m2).arr == dt0(m2).arr)), dt(m2).len)),
                ('each cell holds the overrider its groups call for',
                 All(x, Imp(And(L <= x, x < L + count), CELL(c, mm, bits_and(cb.bits, GM(D, dim, x - L)), dt(mm).arr[x])), dt(mm).arr[x])),
                ('next of an overrider in a cell is the best of the more general ones',
                 All(x, Imp(And(L <= x, x < L + count, is_ovr(c, mm, dt(mm).arr[x])), okn(dt(mm).arr[x])), dt(mm).arr[x])),
                ('next changes to the best of the more general ones only',
                 All(a, Or(nx(a).t == nx0(a).t, And(is_ovr(c, mm, a), okn(a))), nx(a).t)),
                ('report: other methods unchanged', All(m2, Imp(m2 != mm, And(*[f(rp(m2), n) == f(rp0(m2), n) for n in ('cells', 'not_implemented', 'ambiguous')])), *[f(rp(m2), n) for n in ('cells', 'not_implemented', 'ambiguous')])),
                ('report: cells unchanged', f(rp(mm), 'cells') == f(rp0(mm), 'cells')),
                ] + ([('report: ambiguous does not shrink', f(rp(mm), 'ambiguous') >= f(rp0(mm), 'ambiguous'))] if n2216 else []) + [
                it for nm, val in (('not_implemented', NI(mm)), ('ambiguous', AMB(mm))) if not (n2216 and nm == 'ambiguous') for it in (
                ('report: %s does not shrink' % nm, f(rp(mm), nm) >= f(rp0(mm), nm)),
                ('report: %s grows with each such cell' % nm, All(x, Imp(And(L <= x, x < L + count, dt(mm).arr[x] == val), f(rp(mm), nm) > f(rp0(mm), nm)), dt(mm).arr[x])),
                ('report: %s grows with such cells only' % nm, Imp(f(rp(mm), nm) > f(rp0(mm), nm), appended(val))))]
    def ensures(c):
        return BuildDispatchTable.cells(c, SZ(BuildDispatchTable.doms(c), c.a(1).t))
    def each_group(c, n2216=False):
        D, dim = BuildDispatchTable.doms(c), c.a(1).t
        s = SZ(D, dim - 1)
        return [('=multiplication', And(prod(s, c.k + 1) == prod(s, c.k) + s, prod(s, 0) == 0, prod(1, c.k) == c.k)),
                ('dimensions have cells', s >= 0), ('cells so far', prod(s, c.k) >= 0)] + \
            BuildDispatchTable.cells(c, prod(s, c.k), n2216)
    def collect(c):
        """overriders = those of the method that are in the mask, in order"""
        mm = c.a(0).t
        A = ovs(c, mm).arr
        l, mask = c.v('overriders'), c.v('mask')
        ix = lambda q_: oix(l.arr[q_])
        return [('#rank', And(RANK(mask.bits, 0) == 0, RANK(mask.bits, c.k + 1) == RANK(mask.bits, c.k) + z3.If(mask.bits[c.k], z3.IntVal(1), z3.IntVal(0)))),
                ('index', And(c.v('i').t == c.k)),
                ('listed overriders are applicable', All(q, Imp(And(0 <= q, q < l.len), And(0 <= ix(q), ix(q) < c.k, mask.bits[ix(q)], l.arr[q] == A[ix(q)])), l.arr[q])),
                ('applicable overriders are listed', All(i, Imp(And(0 <= i, i < c.k, mask.bits[i]), And(0 <= RANK(mask.bits, i), RANK(mask.bits, i) < l.len, l.arr[RANK(mask.bits, i)] == A[i])), A[i])),
                ('as many as there are applicable ones', l.len == RANK(mask.bits, c.k)),
                ('listed once', All([q, x], Imp(And(0 <= q, q < x, x < l.len), ix(q) < ix(x)), z3.MultiPattern(l.arr[q], l.arr[x])))]
    def general(c):
        """overriders keeps those more general than the selected one"""
        l, l0 = c.v('overriders'), c.ent.v('overriders')
        o, rem = c.v('overrider').t, c.v('remaining').t
        mm, mask = c.a(0).t, c.v('mask')
        return [('the selected overrider is an applicable one', And(is_ovr(c, mm, o), mask.bits[oix(o)])),
                ('same size', l.len == l0.len), ('remaining not negative', rem >= 0),
                ('entries done', All(q, Imp(And(0 <= q, q < c.k), l.arr[q] == z3.If(ISBASE(c, l0.arr[q], o), l0.arr[q], NULL)), l.arr[q])),
                ('entries to do', All(q, Imp(And(c.k <= q, q < l.len), l.arr[q] == l0.arr[q]), l.arr[q])),
                ('more general overriders stay listed', All(i, Imp(And(0 <= i, i < ovs(c, mm).len, ISBASE(c, ovs(c, mm).arr[i], o)),
                    And(0 <= RANK(mask.bits, i), RANK(mask.bits, i) < l.len, l.arr[RANK(mask.bits, i)] == ovs(c, mm).arr[i])), ovs(c, mm).arr[i])),
                ('those that stay are more general', All(q, Imp(And(0 <= q, q < c.k, l.arr[q] != NULL), And(is_ovr(c, mm, l.arr[q]), ISBASE(c, l.arr[q], o))), l.arr[q])),
                ('listed once', All([q, x], Imp(And(0 <= q, q < x, x < l.len, l.arr[q] != NULL), l.arr[q] != l.arr[x]), z3.MultiPattern(l.arr[q], l.arr[x]))),
                ('remaining is 0 iff none is more general', (rem == 0) == All(q, Imp(And(0 <= q, q < c.k), Not(ISBASE(c, l0.arr[q], o))), l0.arr[q]))]
    loops = (each_group, collect, general)
    def selected(c):
        mm, mask = c.a(0).t, c.v('mask')
        A, n = ovs(c, mm).arr, ovs(c, mm).len
        o, l, pick, rem = c.before(0), c.now(0), c.now(1).t, c.now(2).t
        if c.nth == 1:
            bits = mask.bits
        elif c.nth == 2:
            bits = NB(c, mm, c.v('overrider').t)
        else:
            return []
        pos = lambda ii: RANK(mask.bits, ii)
        lst = lambda ii: And(0 <= pos(ii), pos(ii) < o.len, o.arr[pos(ii)] == A[ii])
        un = lambda q_: undominated(c, o.arr, o.len, q_)
        return [('candidates are listed', All(i, Imp(cand(c, mm, bits, i), lst(i)), A[i])),
                ('those listed are candidates', All(q, Imp(And(0 <= q, q < o.len, o.arr[q] != NULL), And(is_ovr(c, mm, o.arr[q]), bits[oix(o.arr[q])], pos(oix(o.arr[q])) == q)), o.arr[q])),
                ('undominated in the list are so among the candidates', All(q, Imp(And(0 <= q, q < o.len, un(q)), und(c, mm, bits, oix(o.arr[q]))), o.arr[q])),
                ('undominated candidates are so in the list', All(i, Imp(und(c, mm, bits, i), un(pos(i))), A[i])),
                ('none', Imp(rem == 0, CELL(c, mm, bits, NI(mm)))),
                ('the one is undominated', Imp(rem == 1, And(is_ovr(c, mm, l.arr[pick]), pos(oix(l.arr[pick])) == pick, Or(un(pick), Not(Ex(q, And(0 <= q, q < o.len, un(q)), o.arr[q])))))),
                ('it is the only one', Imp(rem == 1, unique(c, mm, bits, oix(l.arr[pick])))),
                ('the one', Imp(rem == 1, CELL(c, mm, bits, l.arr[pick]))),
                ('several', Imp(rem > 1, CELL(c, mm, bits, AMB(mm))))]
    after = {'select_dominant_overriders': selected}

# with the N2216 option: CELL means something else
SU_ = z3.Function('some_und', *[CELL_.domain(d) for d in range(7)], B)
TOPN_ = z3.Function('best_overrider', *[CELL_.domain(d) for d in range(7)], I, B)
BESTN_ = z3.Function('best_returning', *[CELL_.domain(d) for d in range(7)], cc.RTM, I, B)
def SU(c, mm, bits): return SU_(*env(c), mm, bits)
def TOPN(c, mm, bits, ii): return TOPN_(*env(c), mm, bits, ii)
def BESTN(c, mm, bits, ii): return BESTN_(*env(c), mm, bits, cc.rt_arr(c), ii)
def n2216_axioms(c, mm):
    A, rt, td = ovs(c, mm).arr, cc.rt_arr(c), td_arr(c)
    return [All(bs, SU(c, mm, bs) == Ex(i, und(c, mm, bs, i), A[i]), SU(c, mm, bs)),
            All([bs, i], TOPN(c, mm, bs, i) == And(cand(c, mm, bs, i), Or(Not(SU(c, mm, bs)), und(c, mm, bs, i))), TOPN(c, mm, bs, i)),
            All([bs, i], BESTN(c, mm, bs, i) == And(TOPN(c, mm, bs, i), rt[A[i]] != NULL,
                All(j, Imp(And(TOPN(c, mm, bs, j), j != i), And(rt[A[j]] != rt[A[i]], td[rt[A[j]]][rt[A[i]]])), TOPN(c, mm, bs, j))), BESTN(c, mm, bs, i)),
            All([bs, e_], CELL(c, mm, bs, e_) == Or(And(e_ == NI(mm), All(i, Not(cand(c, mm, bs, i)), A[i])),
                Ex(i, And(TOPN(c, mm, bs, i), e_ == A[i], All(j, Imp(BESTN(c, mm, bs, j), j == i), BESTN(c, mm, bs, j))), A[i])), CELL(c, mm, bs, e_))]

class BuildDispatchTableN2216(BuildDispatchTable):
    """C15: each cell holds one of the overriders that no applicable one dominates (of all
    the applicable ones, if all are dominated), the one that returns the most derived
    class if there is one; not-implemented only if none is applicable; `next` likewise"""
    match = r'compiler<boost::openmethod::n2216>::build_dispatch_table\('
    name = 'build_dispatch_table.n2216'
    first = 'cvc5'
    def requires(c):
        mm = c.a(0).t
        A, n, rt = ovs(c, mm).arr, ovs(c, mm).len, cc.rt_arr(c)
        return BuildDispatchTable.requires(c) + [
            ('all overriders return a registered class, or none', All([i, j], Imp(And(0 <= i, i < n, 0 <= j, j < n, rt[A[i]] != NULL), rt[A[j]] != NULL), z3.MultiPattern(A[i], A[j])))]
    def axioms(c):
        mm = c.a(0).t
        if c.fr is not c._e.frame:
            return []
        return n2216_axioms(c, mm) + BuildDispatchTable.axioms(c)[1:]
    def ensures(c):
        return BuildDispatchTable.cells(c, SZ(BuildDispatchTable.doms(c), c.a(1).t), True)
    loops = (lambda c: BuildDispatchTable.each_group(c, True), BuildDispatchTable.collect, BuildDispatchTable.general)
    def selected(c):
        mm, mask = c.a(0).t, c.v('mask')
        A = ovs(c, mm).arr
        o, l, pick, rem = c.before(0), c.now(0), c.now(1).t, c.now(2).t
        if c.nth == 1:
            bits = mask.bits
        elif c.nth == 2:
            bits = NB(c, mm, c.v('overrider').t)
        else:
            return []
        W, v = cc.SelectDominantN2216, c.fld('overrider.vp').c
        ev = (o.arr, o.len, v['len'], v['arr'], td_arr(c))
        TOP = lambda q_: cc.TOP_(*ev, q_)
        BEST = lambda q_: cc.BEST_(*ev, cc.rt_arr(c), q_)
        pos = lambda ii: RANK(mask.bits, ii)
        un = lambda q_: undominated(c, o.arr, o.len, q_)
        p_ = l.arr[pick]
        return [('candidates are listed', All(i, Imp(cand(c, mm, bits, i), And(0 <= pos(i), pos(i) < o.len, o.arr[pos(i)] == A[i])), A[i])),
                ('those listed are candidates', All(q, Imp(And(0 <= q, q < o.len, o.arr[q] != NULL), And(is_ovr(c, mm, o.arr[q]), bits[oix(o.arr[q])], pos(oix(o.arr[q])) == q)), o.arr[q])),
                ('undominated in the list are so among the candidates', All(q, Imp(And(0 <= q, q < o.len, un(q)), und(c, mm, bits, oix(o.arr[q]))), o.arr[q])),
                ('undominated candidates are so in the list', All(i, Imp(und(c, mm, bits, i), un(pos(i))), A[i])),
                ('some is undominated in both or in none', cc.SOME_(*ev) == SU(c, mm, bits)),
                ('best in the list are best candidates', All(q, Imp(TOP(q), TOPN(c, mm, bits, oix(o.arr[q]))), TOP(q))),
                ('best candidates are best in the list', All(i, Imp(TOPN(c, mm, bits, i), TOP(pos(i))), TOPN(c, mm, bits, i))),
                ('likewise with the return types', All(i, Imp(BESTN(c, mm, bits, i), BEST(pos(i))), BESTN(c, mm, bits, i))),
                ('no candidate', Imp(rem == 0, All(i, Not(cand(c, mm, bits, i)), A[i]))),
                ('none', Imp(rem == 0, CELL(c, mm, bits, NI(mm)))),
                ('the pick is a best candidate', Imp(rem > 0, And(is_ovr(c, mm, p_), pos(oix(p_)) == pick, TOPN(c, mm, bits, oix(p_))))),
                ('the one that returns the most derived class is picked', Imp(rem > 0, All(i, Imp(BESTN(c, mm, bits, i), i == oix(p_)), BESTN(c, mm, bits, i)))),
                ('the pick', Imp(rem > 0, CELL(c, mm, bits, p_)))]
    after = {'select_dominant_overriders.n2216': selected}

# ------------------------------------------------------- all the dispatch tables
OVE = (z3.ArraySort(Ref, I), z3.ArraySort(Ref, z3.ArraySort(I, Ref)), VL, VA, TDS_)
APK_ = z3.Function('applicability', *OVE, Ref, I, Ref, KS)  # key of the overriders applicable to a class
GROUPS = z3.Function('groups_of', Ref, DOMS)                # ghost: the keys of the groups made for each dimension of a method
ALLB = z3.Function('all_bits', I, BitArr)
owner = oowner
def APK(c, mm, pp, a): return APK_(*env(c), mm, pp, a)
def apk_axiom(c):
    k = APK(c, m, p, a)
    vp = c.fld('overrider.vp')
    return [All([m, p, a], Key.klen(k) == ovs(c, m).len, k),
            All([m, p, a, i], kbits(k)[i] == And(0 <= i, i < ovs(c, m).len, td_arr(c)[vp(ovs(c, m).arr[i]).arr[p]][a]), kbits(k)[i])]
def isbase_axiom(c):
    vp, td = c.fld('overrider.vp'), td_arr(c)
    return All([a, b, x], Imp(And(ISBASE(c, a, b), 0 <= x, x < vp(a).len), Or(vp(a).arr[x] == vp(b).arr[x], td[vp(a).arr[x]][vp(b).arr[x]])),
               z3.MultiPattern(ISBASE(c, a, b), vp(a).arr[x]))
def meths(c): return c.fld('compiler.methods')(c.this)
def for_methods(c, fs):
    """facts about every method"""
    v = meths(c)
    return [(l, All(i, Imp(And(0 <= i, i < v.len), f(v.arr[i])), v.arr[i])) for l, f in fs]
def methods_wf(c):
    v, mv = meths(c), c.fld('method.vp')
    A = lambda q_: ovs(c, q_).arr
    vp, td = c.fld('overrider.vp'), td_arr(c)
    rng = lambda q_, i_: And(ISM(q_), 0 <= i_, i_ < ovs(c, q_).len)
    return [('methods are distinct objects', All(i, Imp(And(0 <= i, i < v.len), And(ISM(v.arr[i]), v.arr[i] != NULL, oix(v.arr[i]) == i)), v.arr[i])),
            ('methods are in the compiler', All(m, Imp(ISM(m), And(0 <= oix(m), oix(m) < v.len, v.arr[oix(m)] == m)), ISM(m))),
            ('parameters of methods', is_param_def(c)),
            ('methods have virtual parameters, which are classes', All(m, Imp(ISM(m), And(mv(m).len >= 1, NI(m) != AMB(m))), ISM(m))),
            ('virtual parameters are classes', All([m, p], Imp(PAR(m, p), vp_of(c, m, p) != NULL), PAR(m, p))),
            ('overriders are distinct objects', All([m, i], Imp(rng(m, i), And(oix(A(m)[i]) == i, owner(A(m)[i]) == m, A(m)[i] != NULL)), A(m)[i])),
            ('overriders are not the synthetic ones', All([m, m2, i], Imp(And(rng(m, i), ISM(m2)), And(A(m)[i] != NI(m2), A(m)[i] != AMB(m2))), z3.MultiPattern(A(m)[i], NI(m2)), z3.MultiPattern(A(m)[i], AMB(m2)))),
            ('overriders have the arity of the method', All([m, i], Imp(rng(m, i), vp(A(m)[i]).len == mv(m).len), A(m)[i])),
            ('parameters of the overriders are classes', All([m, i, x], Imp(And(rng(m, i), 0 <= x, x < vp(A(m)[i]).len), vp(A(m)[i]).arr[x] != NULL), vp(A(m)[i]).arr[x])),
            ('inheritance is antisymmetric', antisym(c)),
            ('inheritance is transitive', All([a, b, d], Imp(And(td[a][b], td[b][d]), td[a][d]), z3.MultiPattern(td[a][b], td[b][d]))),
            ('no null class in a set', All([a, b], Imp(td[a][b], b != NULL), td[a][b])),
            ('every parameter has a slot cell', All([m, p], Imp(PAR(m, p), p < c.fld('method.slots')(m).len), PAR(m, p)))]

class BuildDispatchTables(Contract):
    """C01, C03, C06, C07: every method gets its table, its strides, and the
    entries of its slots in the v-tables"""
    match = r'compiler<>::build_dispatch_tables\(\)$'
    name = 'build_dispatch_tables'
    modifies = ('method.dispatch_table', 'method.strides', 'method.report', 'overrider.next', 'class_.vtbl', 'compiler.report')
    def requires(c):
        dt, st, rp = c.fld('method.dispatch_table'), c.fld('method.strides'), c.fld('method.report')
        return methods_wf(c) + [('every slot lies in the v-tables of its classes', slot_ok(c)),
                ('no two parameters share a slot in a class', slot_distinct(c)),
                ('methods have no table yet', All(m, Imp(ISM(m), And(dt(m).len == 0, st(m).len == 0, *[rp(m).field(n).t == 0 for n in ('cells', 'not_implemented', 'ambiguous')])), ISM(m)))]
    def axioms(c):
        if c.fr is not c._e.frame:
            return []
        return apk_axiom(c) + [isbase_axiom(c), All([x, i], ALLB(x)[i] == And(0 <= i, i < x), ALLB(x)[i])] + \
            [All([m, bs], CLOSED(c, m, bs) == All([i, j], Imp(And(0 <= i, i < ovs(c, m).len, 0 <= j, j < ovs(c, m).len, bs[j], ISBASE(c, ovs(c, m).arr[i], ovs(c, m).arr[j])), bs[i]),
                z3.MultiPattern(bs[j], ISBASE(c, ovs(c, m).arr[i], ovs(c, m).arr[j]))), CLOSED(c, m, bs))]
    # -- what is known of one method
    def entry_ok(c, mm, pp, a):
        vt, fs = c.fld('class_.vtbl').c, c.fld('class_.first_slot')
        ix = slot_of(c, mm, pp) - fs(a).t
        g = lambda n: vt['arr.' + n][a][ix]
        return And(g('method_index') == oix(mm), g('vp_index') == pp, g('group_index') == midx(GROUPS(mm)[pp], APK(c, mm, pp, a)))
    def grouped(c, mm, pp):
        return All(a, Imp(td_arr(c)[vp_of(c, mm, pp)][a], GROUPS(mm)[pp][APK(c, mm, pp, a)]), td_arr(c)[vp_of(c, mm, pp)][a])
    def table(c, mm):
        dt, sd, nx, rp = c.fld('method.dispatch_table')(mm), c.fld('method.strides')(mm), c.fld('overrider.next'), c.fld('method.report')(mm)
        D, n = GROUPS(mm), c.fld('method.vp')(mm).len
        f = lambda nm: rp.field(nm).t
        out = [('a cell for each combination of groups', dt.len == SZ(D, n - 1)),
                ('each cell holds the overrider its groups call for',
                 All(x, Imp(And(0 <= x, x < dt.len), CELL(c, mm, bits_and(ALLB(ovs(c, mm).len), GM(D, n - 1, x)), dt.arr[x])), dt.arr[x])),
                ('next of an overrider in a cell is the best of the more general ones',
                 All(x, Imp(And(0 <= x, x < dt.len, is_ovr(c, mm, dt.arr[x])), CELL(c, mm, NB(c, mm, dt.arr[x]), nx(dt.arr[x]).t)), dt.arr[x])),
                ('strides are products of the numbers of groups', And(sd.len == n - 1, All(x, Imp(And(0 <= x, x < n - 1), sd.arr[x] == SZ(D, x)), sd.arr[x]))),
                ('report: cells', f('cells') == z3.If(n > 1, SZ(D, n - 1), 0))]
        for nm, val in (('not_implemented', NI(mm)), ('ambiguous', AMB(mm))):
            if nm == 'ambiguous' and getattr(c._e.con, 'n2216', False):
                continue
            out += [('report: %s counts such cells' % nm, And(f(nm) >= 0, All(x, Imp(And(0 <= x, x < dt.len, dt.arr[x] == val), f(nm) > 0), dt.arr[x]))),
                    ('report: %s counts such cells only' % nm, Imp(f(nm) > 0, Ex(x, And(0 <= x, x < dt.len, dt.arr[x] == val))))]
        return out
    def tables(c, upto):
        v = meths(c)
        out = []
        for k_, (l, _) in enumerate(BuildDispatchTables.table(c, v.arr[0])):
            out.append((l, All(y, Imp(And(0 <= y, y < upto), BuildDispatchTables.table(c, v.arr[y])[k_][1]), v.arr[y])))
        return out
    def entries(c, which):
        td = td_arr(c)
        return [('classes are in the groups of their applicable overriders', All([m, p, a], Imp(And(PAR(m, p), which(m, p), td[vp_of(c, m, p)][a]), GROUPS(m)[p][APK(c, m, p, a)]), z3.MultiPattern(PAR(m, p), td[vp_of(c, m, p)][a]))),
                ('v-table entries', All([m, p, a], Imp(And(PAR(m, p), which(m, p), td[vp_of(c, m, p)][a]), BuildDispatchTables.entry_ok(c, m, p, a)),
                    z3.MultiPattern(PAR(m, p), td[vp_of(c, m, p)][a])))]
    def sizes(c):
        vt, vt0 = c.fld('class_.vtbl'), c.old.fld('class_.vtbl')
        return [('size of the v-tables unchanged', All(a, vt(a).len == vt0(a).len, vt(a).len))]
    def ensures(c):
        return BuildDispatchTables.entries(c, lambda m, p: z3.BoolVal(True)) + BuildDispatchTables.tables(c, meths(c).len) + BuildDispatchTables.sizes(c)
    def fresh_methods(c, k):
        dt, st, rp, v = c.fld('method.dispatch_table'), c.fld('method.strides'), c.fld('method.report'), meths(c)
        return [('methods to do have no table', All(i, Imp(And(k <= i, i < v.len),
                    And(dt(v.arr[i]).len == 0, st(v.arr[i]).len == 0, *[rp(v.arr[i]).field(n).t == 0 for n in ('cells', 'not_implemented', 'ambiguous')])), v.arr[i]))]
    def each_method(c):
        return [('a method', Imp(c.k < meths(c).len, ISM(meths(c).arr[c.k])))] + BuildDispatchTables.tables(c, c.k) + BuildDispatchTables.entries(c, lambda m, p: oix(m) < c.k) + \
            BuildDispatchTables.fresh_methods(c, c.k) + BuildDispatchTables.sizes(c)
    # -- the groups
    def gmap(c, d):
        g = c.v('groups').c
        return {k[len('arr.'):]: g[k][d] for k in g if k.startswith('arr.')}
    def listed(c, d, a, key, arrs=()):
        M = BuildDispatchTables.gmap(c, d)
        n, A = M['val.classes.len'][key], M['val.classes.arr'][key]
        pats = [A[x]] + [arr[key][x] for arr in arrs]
        return Or(And(n > 0, A[n - 1] == a), Ex(x, And(0 <= x, x < n, A[x] == a), *pats))
    def group_inv(c, mm, d, seen, arrs=()):
        M = BuildDispatchTables.gmap(c, d)
        kk = z3.Const('kk', KS)
        n, A = M['val.classes.len'], M['val.classes.arr']
        return [('classes seen are in the group of their applicable overriders', All(a, Imp(seen(a),
                    And(M['dom'][APK(c, mm, d, a)], BuildDispatchTables.listed(c, d, a, APK(c, mm, d, a), arrs))), td_arr(c)[vp_of(c, mm, d)][a])),
                ('groups are not empty', All(kk, Imp(M['dom'][kk], And(n[kk] > 0, kk == APK(c, mm, d, A[kk][0]))), M['dom'][kk])),
                ('classes of a group', All([kk, x], Imp(And(M['dom'][kk], 0 <= x, x < n[kk]), And(seen(A[kk][x]), kk == APK(c, mm, d, A[kk][x]))), A[kk][x]))]
    def each_param(c):
        mm = c.v('m').t
        g = c.v('groups')
        d2 = z3.Int('d2')
        kk = z3.Const('kk', KS)
        td = td_arr(c)
        n, A, dom = [lambda d, k_=k_: g.c['arr.' + k_][d] for k_ in ('val.classes.len', 'val.classes.arr', 'dom')]
        rng = And(0 <= d2, d2 < c.k)
        return [('index', And(c.v('dim').t == c.k, g.len == c.fld('method.vp')(mm).len, Imp(c.k < c.fld('method.vp')(mm).len, PAR(mm, c.k)))),
                ('more general overriders are applicable too', All([d2, a], Imp(And(0 <= d2, d2 < g.len), CLOSED(c, mm, kbits(APK(c, mm, d2, a)))), APK(c, mm, d2, a))),
                ('classes are in the group of their applicable overriders', All([d2, a], Imp(And(rng, td[vp_of(c, mm, d2)][a]),
                    And(dom(d2)[APK(c, mm, d2, a)], BuildDispatchTables.listed(c, d2, a, APK(c, mm, d2, a)))), td[vp_of(c, mm, d2)][a])),
                ('groups are not empty', All([d2, kk], Imp(And(rng, dom(d2)[kk]), And(n(d2)[kk] > 0, kk == APK(c, mm, d2, A(d2)[kk][0]))), dom(d2)[kk])),
                ('classes of a group', All([d2, kk, x], Imp(And(rng, dom(d2)[kk], 0 <= x, x < n(d2)[kk]),
                    And(td[vp_of(c, mm, d2)][A(d2)[kk][x]], kk == APK(c, mm, d2, A(d2)[kk][x]))), A(d2)[kk][x])),
                ('no group yet', All([d2, kk], Imp(And(c.k <= d2, d2 < g.len), Not(dom(d2)[kk])), dom(d2)[kk]))]
    def each_class(c):
        mm, d = c.v('m').t, c.v('dim').t
        g, g0 = c.v('groups'), c.ent.v('groups')
        d2 = z3.Int('d2')
        td = td_arr(c)
        e = c.en
        seen = lambda a_: And(td[vp_of(c, mm, d)][a_], e.idx(a_) < c.k)
        arrs = [c.it.v('groups').c['arr.val.classes.arr'][d]] if c.it is not None else []
        return [('groups of other dimensions unchanged', And(g.len == g0.len, *[All(d2, Imp(d2 != d, g.c[k][d2] == g0.c[k][d2]), g.c[k][d2]) for k in g.c if k != 'len']))] + \
            BuildDispatchTables.group_inv(c, mm, d, seen, arrs)
    def each_spec(c):
        mm, d = c.v('m').t, c.v('dim').t
        mask, a_ = c.v('mask'), c.v('covariant_class').t
        vp = c.fld('overrider.vp')
        A = ovs(c, mm).arr
        return [('index', c.v('group_index').t == c.k),
                ('mask so far', And(mask.len == ovs(c, mm).len, All(i, mask.bits[i] == And(0 <= i, i < c.k, td_arr(c)[vp(A[i]).arr[d]][a_]), mask.bits[i])))]
    # -- the strides
    def strides(c):
        mm = c.v('m').t
        g = c.v('groups')
        D = g.c['arr.dom']
        sd, sd0 = c.fld('method.strides'), c.ent.fld('method.strides')
        dd_ = c.v('dim').t
        return [('#the groups of the method', GROUPS(mm) == D),
                ('#cells', And(SZ(D, -1) == 1, SZ(D, 0) == prod(SZ(D, -1), msize(D[0])), SZ(D, c.k) == prod(SZ(D, c.k - 1), msize(D[c.k])), SZ(D, c.k + 1) == prod(SZ(D, c.k), msize(D[c.k + 1])))),
                ('=multiplication', All(x, prod(1, x) == x, prod(1, x))),
                ('index', And(dd_ == c.k + 1, dd_ <= g.len)),
                ('stride', c.v('stride').t == SZ(D, c.k - 1)),
                ('strides so far', And(sd(mm).len == c.k, All(x, Imp(And(0 <= x, x < c.k), sd(mm).arr[x] == SZ(D, x)), sd(mm).arr[x]))),
                ('strides of other methods unchanged', All(m, Imp(m != mm, And(sd(m).len == sd0(m).len, sd(m).arr == sd0(m).arr)), sd(m).len))]
    # -- the entries of the v-tables
    def each_dim(c):
        mm = c.v('m').t
        return [('index', And(c.v('dim').t == c.k, c.k <= c.fld('method.vp')(mm).len, Imp(c.k < c.fld('method.vp')(mm).len, PAR(mm, c.k))))] + \
            BuildDispatchTables.entries(c, lambda m_, p_: Or(oix(m_) < oix(mm), And(m_ == mm, p_ < c.k))) + BuildDispatchTables.sizes(c)
    def each_entry_group(c):
        mm, d = c.v('m').t, c.v('dim').t
        td = td_arr(c)
        return [('index', c.v('group_num').t == c.k)] + \
            BuildDispatchTables.entries(c, lambda m_, p_: Or(oix(m_) < oix(mm), And(m_ == mm, p_ < d)))[1:] + \
            [('entries so far', All(a, Imp(And(td[vp_of(c, mm, d)][a], midx(GROUPS(mm)[d], APK(c, mm, d, a)) < c.k), BuildDispatchTables.entry_ok(c, mm, d, a)), td[vp_of(c, mm, d)][a]))] + \
            BuildDispatchTables.sizes(c)
    def each_entry(c):
        mm, d = c.v('m').t, c.v('dim').t
        td = td_arr(c)
        K = mkey(GROUPS(mm)[d], c.v('group_num').t)
        cls = c.v('groups').c['arr.val.classes.arr'][d][K]
        return BuildDispatchTables.entries(c, lambda m_, p_: Or(oix(m_) < oix(mm), And(m_ == mm, p_ < d)))[1:] + \
            [('entries of the groups done', All(a, Imp(And(td[vp_of(c, mm, d)][a], midx(GROUPS(mm)[d], APK(c, mm, d, a)) < c.v('group_num').t), BuildDispatchTables.entry_ok(c, mm, d, a)), td[vp_of(c, mm, d)][a])),
             ('entries of the group so far', All(x, Imp(And(0 <= x, x < c.k), BuildDispatchTables.entry_ok(c, mm, d, cls[x])), cls[x]))] + \
            BuildDispatchTables.sizes(c)
    def cells(c):
        mm = c.v('m').t
        D = GROUPS(mm)
        rp, rp0 = c.fld('method.report'), c.ent.fld('method.report')
        f = lambda v, n: v.field(n).t
        return [('#cells', And(SZ(D, -1) == 1, SZ(D, c.k) == prod(SZ(D, c.k - 1), msize(D[c.k])))),
                ('cells so far', f(rp(mm), 'cells') == SZ(D, c.k - 1)),
                ('rest of the reports unchanged', All(m, And(Imp(m != mm, f(rp(m), 'cells') == f(rp0(m), 'cells')), f(rp(m), 'not_implemented') == f(rp0(m), 'not_implemented'),
                    f(rp(m), 'ambiguous') == f(rp0(m), 'ambiguous')), *[f(rp(m), n_) for n_ in ('cells', 'not_implemented', 'ambiguous')]))]
    def nothing(c):
        return []
    loops = (each_method, each_param, each_class, each_spec, strides, each_dim, each_entry_group, each_entry, cells, nothing)

class BuildDispatchTablesN2216(BuildDispatchTables):
    """C15: the same with the N2216 option, where the cells are those of that option"""
    match = r'compiler<boost::openmethod::n2216>::build_dispatch_tables\(\)$'
    name = 'build_dispatch_tables.n2216'
    n2216 = True
    def requires(c):
        rt = cc.rt_arr(c)
        return BuildDispatchTables.requires(c) + [
            ('all overriders of a method return a registered class, or none', All([m, i, j], Imp(And(ISM(m), 0 <= i, i < ovs(c, m).len, 0 <= j, j < ovs(c, m).len, rt[ovs(c, m).arr[i]] != NULL),
                rt[ovs(c, m).arr[j]] != NULL), z3.MultiPattern(ovs(c, m).arr[i], ovs(c, m).arr[j])))]


def ext_vptr(eng, st, n, *rest):
    """vptr policy: fills its own tables, from the static v-table pointers of the classes (contracts vptr.initialize.*), and touches nothing else"""
    return None
EXTERNS = [(r'policies::vptr_vector::fn<.*>::initialize<', ext_vptr)]

# ------------------------------------------------ installation in memory
FIELDS.update({'method_info.slots_strides_ptr': ADDR, 'method_info.vp_begin': ADDR, 'method_info.vp_end': ADDR, 'overrider_info.next': ADDR,
               'static.dispatch_data': VEC(ADDR)})
AK = z3.Function('static_cell', I, I)        # 0: not a static variable of a registration, 1: v-table pointer of a class, 2: next of an overrider, 3: slots and strides of a method
AO = z3.Function('cell_owner', I, Ref)
AI = z3.Function('cell_index', I, I)
at_ = z3.Function('at', I, I, I)             # at(p, i) = p + i
p_, r_ = z3.Ints('p_ r_')
AT_AXIOM = All([p_, r_], at_(p_, r_) == p_ + r_, at_(p_, r_))
def block_of(e, st, o):
    """storage of a vector of words: a fresh block of memory, where no static variable lies"""
    v = o.read(st)
    if o.ct != VEC(ADDR):
        return It(o, z3.IntVal(0))
    d = fresh(I, 'block')
    st.assume(d > 0)
    st.assume(All(p_, Or(AK(p_) == 0, p_ < d, p_ >= d + v.len), AK(p_)))
    st.ghost['block'] = d
    return S(ADDR, d)
Calls.data_hook = staticmethod(block_of)
def clss(c): return c.fld('compiler.classes')(c.this)
def isc(c, a_): return And(0 <= oix(a_), oix(a_) < clss(c).len, clss(c).arr[oix(a_)] == a_)
def sv(c, a_): return c.fld('class_.static_vptr')(a_).t
def ssp(c, mm): return c.fld('method_info.slots_strides_ptr')(c.fld('method.info')(mm).t).t
def nxt_cell(c, o): return c.fld('overrider_info.next')(c.fld('overrider.info')(o).t).t
def pf(c, o): return c.fld('overrider.pf')(o).t
def vlen(c, mm): return c.fld('method.vp')(mm).len
s_ = z3.Int('s_')

def entry_word(c, a_, s):
    """what the word of slot s of a class must be"""
    vt, fs = c.fld('class_.vtbl').c, c.fld('class_.first_slot')
    g = lambda n: vt['arr.' + n][a_][s - fs(a_).t]
    mm = meths(c).arr[g('method_index')]
    return z3.If(vlen(c, mm) == 1, pf(c, c.fld('method.dispatch_table')(mm).arr[g('group_index')]),
                 z3.If(g('vp_index') == 0, at_(c.fld('method.gv_dispatch_table')(mm).t, g('group_index')), g('group_index')))

class WriteGlobalData(Contract):
    """C01, C02, C03, C06, C13: the tables the calls read hold what
    build_dispatch_tables computed; `next` of the overriders is set"""
    match = r'compiler<>::write_global_data\(\)$'
    name = 'write_global_data'
    modifies = ('mem', 'static.dispatch_data', 'method.gv_dispatch_table')
    def requires(c):
        v, k = meths(c), clss(c)
        sl, sd, dt = c.fld('method.slots'), c.fld('method.strides'), c.fld('method.dispatch_table')
        vb, ve, inf = c.fld('method_info.vp_begin'), c.fld('method_info.vp_end'), c.fld('method.info')
        vt = c.fld('class_.vtbl')
        g = lambda n: vt.c['arr.' + n][a][x]
        W = WriteGlobalData
        return [('methods are distinct objects', All(i, Imp(And(0 <= i, i < v.len), And(ISM(v.arr[i]), v.arr[i] != NULL, oix(v.arr[i]) == i)), v.arr[i])),
                ('methods are in the compiler', All(m, Imp(ISM(m), And(0 <= oix(m), oix(m) < v.len, v.arr[oix(m)] == m)), ISM(m))),
                ('methods have virtual parameters, those of their registration', All(m, Imp(ISM(m), And(vlen(c, m) >= 1, inf(m).t != NULL, ve(inf(m).t).t - vb(inf(m).t).t == vlen(c, m))), ISM(m))),
                ('slots for the parameters, strides for all but the first', All(m, Imp(ISM(m), And(sl(m).len == vlen(c, m), sd(m).len == vlen(c, m) - 1, dt(m).len >= 1)), ISM(m))),
                ('cells of the tables are overriders', All([m, x], Imp(And(ISM(m), 0 <= x, x < dt(m).len), dt(m).arr[x] != NULL), z3.MultiPattern(ISM(m), dt(m).arr[x]))),
                ('slots and strides of a method have their own storage', All([m, x], Imp(And(ISM(m), 0 <= x, x < 2 * vlen(c, m) - 1),
                    And(AK(at_(ssp(c, m), x)) == 3, AO(at_(ssp(c, m), x)) == m, AI(at_(ssp(c, m), x)) == x)), z3.MultiPattern(ISM(m), at_(ssp(c, m), x)))),
                ('a method has one storage', All([m, p_, r_], Imp(And(ISM(m), ssp(c, m) <= at_(p_, r_), at_(p_, r_) < ssp(c, m) + 2 * vlen(c, m) - 1),
                    And(AK(at_(p_, r_)) == 3, AO(at_(p_, r_)) == m)), z3.MultiPattern(ISM(m), at_(p_, r_)))),
                ('overriders are distinct objects', All([m, i], Imp(And(ISM(m), 0 <= i, i < ovs(c, m).len), And(ovs(c, m).arr[i] != NULL, c.fld('overrider.info')(ovs(c, m).arr[i]).t != NULL, oix(ovs(c, m).arr[i]) == i, owner(ovs(c, m).arr[i]) == m)), ovs(c, m).arr[i])),
                ('next of an overrider has its own storage', All([m, i], Imp(And(ISM(m), 0 <= i, i < ovs(c, m).len), And(AK(nxt_cell(c, ovs(c, m).arr[i])) == 2, AO(nxt_cell(c, ovs(c, m).arr[i])) == ovs(c, m).arr[i])), ovs(c, m).arr[i])),
                ('classes are distinct objects', All(i, Imp(And(0 <= i, i < k.len), And(k.arr[i] != NULL, oix(k.arr[i]) == i)), k.arr[i])),
                ('the v-table pointer of a class has its own storage', All(i, Imp(And(0 <= i, i < k.len), And(AK(sv(c, k.arr[i])) == 1, AO(sv(c, k.arr[i])) == k.arr[i])), k.arr[i])),
                ('entries of the v-tables designate a method and a row', All([a, x], Imp(And(isc(c, a), 0 <= x, x < vt(a).len), And(0 <= g('method_index'), g('method_index') < v.len,
                    0 <= g('vp_index'), 0 <= g('group_index'), Imp(vlen(c, v.arr[g('method_index')]) == 1, g('group_index') < dt(v.arr[g('method_index')]).len))), g('method_index')))]
    def axioms(c):
        if c.fr is not c._e.frame:
            return []
        vt, dt = c.fld('class_.vtbl'), c.fld('method.dispatch_table')
        return [AT_AXIOM, All(a, vt(a).len >= 0, vt(a).len), All(m, dt(m).len >= 0, dt(m).len)]
    # -- what is installed
    def slots(c, done):
        mem, sl, sd = c.mem(), c.fld('method.slots'), c.fld('method.strides')
        return [('slots of the methods', All([m, x], Imp(And(ISM(m), done(m), 0 <= x, x < vlen(c, m)), mem[at_(ssp(c, m), x)] == sl(m).arr[x]), mem[at_(ssp(c, m), x)])),
                ('strides of the methods', All([m, x], Imp(And(ISM(m), done(m), vlen(c, m) <= x, x < 2 * vlen(c, m) - 1), mem[at_(ssp(c, m), x)] == sd(m).arr[x - vlen(c, m)]), mem[at_(ssp(c, m), x)]))]
    def cells(c, done, lo, hi):
        mem, gv, dt = c.mem(), c.fld('method.gv_dispatch_table'), c.fld('method.dispatch_table')
        return [('tables of the methods lie in the block', All(m, Imp(And(ISM(m), done(m), vlen(c, m) > 1), And(lo <= gv(m).t, gv(m).t + dt(m).len <= hi)), gv(m).t)),
                ('cells of the tables', All([m, x], Imp(And(ISM(m), done(m), vlen(c, m) > 1, 0 <= x, x < dt(m).len), mem[at_(gv(m).t, x)] == pf(c, dt(m).arr[x])), mem[at_(gv(m).t, x)]))]
    def nexts(c, done):
        mem, nx = c.mem(), c.fld('overrider.next')
        o = lambda: ovs(c, m).arr[i]
        return [('next of the overriders', All([m, i], Imp(And(ISM(m), 0 <= i, i < ovs(c, m).len, done(m, i), nx(o()).t != NULL), mem[nxt_cell(c, o())] == pf(c, nx(o()).t)), o()))]
    def vtables(c, done, lo, hi):
        mem, fs, vt = c.mem(), c.fld('class_.first_slot'), c.fld('class_.vtbl')
        b = mem[sv(c, a)]
        inr = And(fs(a).t <= s_, s_ < fs(a).t + vt(a).len)
        return [('v-tables lie in the block', All(a, Imp(And(isc(c, a), done(a)), And(lo <= b + fs(a).t, b + fs(a).t + vt(a).len <= hi)), b)),
                ('entries of the v-tables', All([a, s_], Imp(And(isc(c, a), done(a), inr), mem[at_(b, s_)] == entry_word(c, a, s_)), mem[at_(b, s_)]))]
    def installed(c):
        T = lambda *q_: z3.BoolVal(True)
        W = WriteGlobalData
        return W.slots(c, T) + [('cells of the tables', dict(W.cells(c, T, z3.IntVal(0), z3.IntVal(0)))['cells of the tables'])] + W.nexts(c, T) + \
            [('entries of the v-tables', dict(W.vtables(c, T, z3.IntVal(0), z3.IntVal(0)))['entries of the v-tables'])]
    def ensures(c):
        return WriteGlobalData.installed(c)
    def base(c):
        return c.v('gv_first').t
    def folds(c):
        f = c._s.ghost.get('folds', ())
        if len(f) != 2:
            raise Skeleton('sums')
        return f
    def each_method(c):
        W, k = WriteGlobalData, c.k
        f1, f2 = W.folds(c)
        D, it = W.base(c), c.v('gv_iter').t
        dn = lambda m_: oix(m_) < k
        return [('a method', Imp(k < meths(c).len, ISM(meths(c).arr[k]))),
                ('#first slot', at_(ssp(c, meths(c).arr[k]), 0) == ssp(c, meths(c).arr[k])),
                ('#sizes', Imp(And(0 <= k, k < meths(c).len), f1(k + 1) == f1(k) + c.fld('method.dispatch_table')(meths(c).arr[k]).len)),
                ('room', And(D <= it, it <= D + f1(k)))] + W.slots(c, dn) + W.cells(c, dn, D, it)
    def each_next(c):
        W = WriteGlobalData
        T = lambda *q_: z3.BoolVal(True)
        return [('a method', Imp(c.k < meths(c).len, ISM(meths(c).arr[c.k])))] + W.slots(c, T) + W.cells(c, T, W.base(c), c.v('gv_iter').t) + W.nexts(c, lambda m_, i_: oix(m_) < c.k)
    def each_overrider(c):
        W = WriteGlobalData
        T = lambda *q_: z3.BoolVal(True)
        mm = c.en.ref if hasattr(c.en, 'ref') else None
        mm = c.v('m').t
        return W.slots(c, T) + W.cells(c, T, W.base(c), c.v('gv_iter').t) + W.nexts(c, lambda m_, i_: Or(oix(m_) < oix(mm), And(m_ == mm, i_ < c.k)))
    def each_class(c):
        W, k = WriteGlobalData, c.k
        T = lambda *q_: z3.BoolVal(True)
        f1, f2 = W.folds(c)
        D, it = W.base(c), c.v('gv_iter').t
        return [('#sizes', Imp(And(0 <= k, k < clss(c).len), f2(k + 1) == f2(k) + c.fld('class_.vtbl')(clss(c).arr[k]).len)),
                ('room', And(D <= it, it <= D + f2(k)))] + W.slots(c, T) + W.cells(c, T, D, it) + W.nexts(c, T) + W.vtables(c, lambda a_: oix(a_) < k, D, it)
    def each_entry(c):
        W, k = WriteGlobalData, c.k
        T = lambda *q_: z3.BoolVal(True)
        D, it = W.base(c), c.v('gv_iter').t
        cls = c.v('cls').t
        mem, fs = c.mem(), c.fld('class_.first_slot')(cls).t
        b = mem[sv(c, cls)]
        return [('position', it == c.ent.v('gv_iter').t + k), ('the class', b == c.ent.v('gv_iter').t - fs)] + \
            W.slots(c, T) + W.cells(c, T, D, c.ent.v('gv_iter').t) + W.nexts(c, T) + W.vtables(c, lambda a_: oix(a_) < oix(cls), D, c.ent.v('gv_iter').t) + \
            [('entries so far', All(s_, Imp(And(fs <= s_, s_ < fs + k), mem[at_(b, s_)] == entry_word(c, cls, s_)), mem[at_(b, s_)]))]
    loops = (each_method, each_next, each_overrider, each_class, each_entry)

CONTRACTS = [BuildDispatchTable, BuildDispatchTableN2216, BuildDispatchTables, BuildDispatchTablesN2216, WriteGlobalData]
