"""compile(): the phases compose.  What each phase requires is proved of what the
phases before it leave (C01, C04, C05, C14), for every set of registrations."""
import z3
from engine import *
from contracts_compiler import *
from contracts_policies import init_ghost
from contracts_tables import oix, NI, AMB, meths, clss, owner, BuildDispatchTables, methods_wf
from contracts_aug import AugmentClasses as AC, AugmentMethods as AM, TI, BP, bp_axioms, sub_axioms, t_, depth, LOOK

LINK = z3.Function('direct_link', Ref, Ref, B)
FIELDS.setdefault('compiler.compilation_done', BOOL)

class Compile(Contract):
    match = r'compiler<>::compile\(\)$'
    name = 'compile'
    own_axioms = True
    modifies = ('alloc',) + tuple(k for k in FIELDS if k.startswith(('compiler.', 'class_.', 'method.', 'overrider.')))
    def requires(c):
        keep = ('no method yet', 'registered methods have virtual parameters', 'overriders have the arity of their method')
        return AC.requires(c) + [x_ for x_ in AM.requires(c) if x_[0] in keep]
    def axioms(c):
        if c.fr is not c._e.frame:
            return []
        return bp_axioms() + sub_axioms() + [All([a, q], LOOK(a, q), LOOK(a, q)), All(a, And(c.fld('class_.direct_bases')(a).len >= 0, c.fld('class_.used_by_vp')(a).len >= 0), depth(a))] + [AM.n(c) >= 0, AC.n(c) >= 0]
    def classes_made(c):
        v, db, dd = classes(c), c.fld('class_.direct_bases'), c.fld('class_.direct_derived')
        root = lambda a_, i_: And(0 <= i_, i_ < v.len, db(v.arr[i_]).len == 0, R(c, v.arr[i_], a_))
        return [('#definition of the closure', And(*R_axioms(c))),
                ('#links', And(All([a, b], LINK(a, b) == Ex(q, And(0 <= q, q < db(b).len, db(b).arr[q] == a), db(b).arr[q]), LINK(a, b)),
                               All([b, q], Imp(And(0 <= q, q < db(b).len), LINK(db(b).arr[q], b)), db(b).arr[q]))),
                ('derived classes are linked', All([a, i], Imp(And(0 <= i, i < dd(a).len), LINK(a, dd(a).arr[i])), dd(a).arr[i])),
                ('direct bases list their derived classes', All([a, q], Imp(And(0 <= q, q < db(a).len), And(LOOK(a, q), R(c, a, a), R(c, db(a).arr[q], a))), db(a).arr[q])),
                ('links are descent', All([a, b], Imp(LINK(a, b), And(R(c, a, b), BP(a, b), depth(a) < depth(b))), LINK(a, b))),
                ('@a path has a last step', ([a, b], height(a), Imp(And(R(c, a, b), a != b), Ex(x_, And(R(c, a, x_), LINK(x_, b)))), [R(c, a, b)])),
                ('classes have their place in the compiler', All(a, Imp(ISC(a), And(R(c, a, a), 0 <= cidx(a), cidx(a) < v.len, v.arr[cidx(a)] == a)), ISC(a))),
                ('#lengths are not negative', All(a, db(a).len >= 0, db(a).len)),
                ('classes that are not roots have a base', All(a, Imp(And(ISC(a), db(a).len != 0), And(LINK(db(a).arr[0], a), ISC(db(a).arr[0]))), ISC(a), db(a).len)),
                ('@every class has a root', ([a], depth(a), Imp(ISC(a), Ex(i, root(a, i))), [ISC(a)])),
                ('#root', All(a, Imp(Ex(i, root(a, i)), root(a, rootix(a))), rootix(a)))]
    def methods_made(c):
        mv = c.fld('method.vp')
        db, u = c.fld('class_.direct_bases'), c.fld('class_.used_by_vp')
        tl = [f for l, f in tree_lemmas(c)]
        mp = z3.MultiPattern
        tree = [('@a class below the root of a tree has no other root', ([r_, r2_, a], depth(a), Imp(And(TREE(r_), db(r2_).len == 0, R(c, r_, a), R(c, r2_, a)), r_ == r2_),
                    [mp(TREE(r_), R(c, r_, a), R(c, r2_, a))])),
                ('@bases in a tree are comparable', ([r_, a, b, d], depth(d), Imp(And(TREE(r_), R(c, r_, a), R(c, r_, b), R(c, a, d), R(c, b, d)), Or(R(c, a, b), R(c, b, a))),
                    [mp(TREE(r_), R(c, r_, a), R(c, r_, b), R(c, a, d), R(c, b, d))], [d], [R(c, a, d)])),
                ('@slots of a class in a tree follow those of its bases', ([r_, a, d], depth(d), Imp(And(TREE(r_), R(c, r_, a), R(c, a, d), a != d), tb(a) + u(a).len <= tb(d)),
                    [mp(TREE(r_), R(c, r_, a), R(c, a, d))], [d], [R(c, a, d)]))]
        return [('#methods', All(m, ISM(m) == AM.ism(c, m), ISM(m))), ('#methods of the vector', All(y, Imp(And(0 <= y, y < meths(c).len), ISM(meths(c).arr[y])), meths(c).arr[y])),
                ('#parameters', is_param_def(c)), ('#trees', tree_def(c)), ('#slots of trees', And(*tb_axiom(c))), ('#lengths are not negative', And(All(a, u(a).len >= 0, u(a).len), All(a, db(a).len >= 0, db(a).len))),
                ('a class in a tree has the slots after those of its base', All([a, b], Imp(And(LINK(a, b), db(b).len == 1), And(db(b).arr[0] == a, tb(b) == tb(a) + u(a).len)), LINK(a, b)))] + tree + [
                ('classes of parameters are classes', All([m, p], Imp(PAR(m, p), And(ISC(vp_of(c, m, p)), vp_of(c, m, p) != NULL)), PAR(m, p)))]
    after = {'augment_classes': classes_made, 'augment_methods': methods_made}
    def ensures(c):
        W = AC
        td = td_arr(c)
        T = lambda *q_: z3.BoolVal(True)
        return [('compiled', c.fld('compiler.compilation_done')(c.this).t)] + \
            [('a class is derived from its registered bases', W.links(c, T, lambda bs, cls: td[bs][cls])),
             ('derived classes are those the registrations imply', All([a, b], Imp(td[a][b], Or(a == b, BP(a, b))), td[a][b]))] + \
            [('every slot lies in the v-tables of its classes', slot_ok(c)), ('no two parameters share a slot in a class', slot_distinct(c))] + \
            AM.methods_new(c)[:1] + BuildDispatchTables.entries(c, T) + BuildDispatchTables.tables(c, meths(c).len)
    def aborts(c):
        err, rep, o = c._s.ghost['error'], c._s.ghost['reported'], c.old
        return [('refused for a class that is not registered or an overrider that does not fit', Or(err == 1, err == 4)),
                ('the reported class is not registered', Imp(err == 1, All(x, Imp(And(0 <= x, x < AC.n(o)), TI(AC.type(o, x)) != TI(rep)), AC.rc(o, x))))]

# the same with the N2216 option: the phases are other instances of the same templates
class AugmentClassesN2216(AC):
    match = r'compiler<boost::openmethod::n2216>::augment_classes\(\)$'
    name = 'augment_classes.n2216'
class AugmentMethodsN2216(AM):
    match = r'compiler<boost::openmethod::n2216>::augment_methods\(\)$'
    name = 'augment_methods.n2216'
class CompileN2216(Compile):
    """C15: what the construction of the tables with the N2216 option requires is proved
    of what the phases before it leave"""
    match = r'compiler<boost::openmethod::n2216>::compile\(\)$'
    name = 'compile.n2216'
    n2216 = True
    after = {k + '.n2216': f for k, f in Compile.after.items()}

CONTRACTS = [Compile, AugmentClassesN2216, AugmentMethodsN2216, CompileN2216]
