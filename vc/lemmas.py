"""Lemmas over the contracts: how the postconditions of the functions compose
into the property.  Each is a list of (label, SMT-LIB text) to be refuted."""
import z3
import solve
from engine import I, Ref

def ob(label, hyps, goal):
    return (label, solve.smt2(hyps, goal))

def inplace_life():
    """For a class C with any number of bases, whose root subobjects are disjoint.
    Induction over the hierarchy: the contracts of the constructors and
    destructors of a base (its roots, and only those, hold its v-table) give
    those of the class, and what every body sees."""
    R = z3.Function('root_of_base', I, Ref, z3.BoolSort())
    svb = z3.Function('vtable_of_base', I, I)
    sv = z3.Int('vtable')
    s, t = z3.Function('cell', Ref, I), z3.Function('cell_after', Ref, I)
    i, j, k, n = z3.Ints('i j k n')
    x = z3.Const('x', Ref)
    disjoint = z3.ForAll([i, j, x], z3.Implies(z3.And(R(i, x), R(j, x)), i == j))
    upto = lambda f, b: z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < b, R(i, x)), f(x) == svb(i)))
    allr = lambda f: z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < n, R(i, x)), f(x) == sv))
    built = [z3.ForAll([x], z3.Implies(R(k, x), t(x) == svb(k))), z3.ForAll([x], z3.Implies(z3.Not(R(k, x)), t(x) == s(x)))]
    gone = [z3.ForAll([x], z3.Implies(z3.Not(R(k, x)), t(x) == s(x)))]
    return [
        ob('bases are constructed in order: each leaves the earlier ones as they were', [disjoint, 0 <= k, k < n, upto(s, k)] + built, upto(t, k + 1)),
        ob('the constructor of the class then gives every root its v-table, which its body sees',
           [upto(s, n), z3.ForAll([x], z3.Implies(z3.Exists([i], z3.And(0 <= i, i < n, R(i, x))), t(x) == sv))], allr(t)),
        ob('the destructor of the class, after its body, hands every base its own v-table',
           [allr(s), z3.ForAll([i, x], z3.Implies(z3.And(0 <= i, i < n, R(i, x)), t(x) == svb(i)))], upto(t, n)),
        ob('bases are destroyed in reverse order: the body of each sees its own v-table', [disjoint, 0 <= k, k < n, upto(s, k + 1)] + gone,
           z3.And(z3.ForAll([x], z3.Implies(R(k, x), s(x) == svb(k))), upto(t, k))),
    ]

def closure():
    """The descendant relation of contracts_compiler: what the contracts use as
    lemmas follows from its fixpoint equation by induction on the height."""
    R = z3.Function('R', Ref, Ref, z3.BoolSort())
    dd = z3.Function('dd', Ref, I, Ref)
    n = z3.Function('ndd', Ref, I)
    h = z3.Function('height', Ref, I)
    a, b, d, a0, b0, d0 = z3.Consts('a b d a0 b0 d0', Ref)
    i = z3.Int('i')
    C = z3.Function('is_class', Ref, z3.BoolSort())
    hyp = [z3.ForAll([a, b], R(a, b) == z3.And(C(a), z3.Or(a == b, z3.Exists([i], z3.And(0 <= i, i < n(a), R(dd(a, i), b)))))),
           z3.ForAll([a, i], z3.Implies(z3.And(0 <= i, i < n(a)), z3.And(C(a), C(dd(a, i))))),
           z3.ForAll([a, i], z3.Implies(z3.And(0 <= i, i < n(a)), h(dd(a, i)) < h(a))), z3.ForAll([a], h(a) >= 0)]
    ih1 = z3.ForAll([a, b], z3.Implies(z3.And(h(a) < h(a0), R(a, b), a != b), h(b) < h(a)))
    ih2 = z3.ForAll([a, b, d], z3.Implies(z3.And(h(a) < h(a0), R(a, b), R(b, d)), R(a, d)))
    ih3 = z3.ForAll([a, b], z3.Implies(z3.And(h(a) < h(a0), R(a, b)), C(b)))
    return [ob('descendants of classes are classes (step of the induction on height)', hyp + [ih3], z3.Implies(R(a0, b0), z3.And(C(a0), C(b0)))),
            ob('what descends or is descended from descends from itself', hyp + [z3.ForAll([a, b], z3.Implies(R(a, b), z3.And(C(a), C(b))), patterns=[R(a, b)])], z3.Implies(R(a0, b0), z3.And(R(a0, a0), R(b0, b0)))),
            ob('descendants are lower (step of the induction on height)', hyp + [ih1], z3.Implies(z3.And(R(a0, b0), a0 != b0), h(b0) < h(a0))),
            ob('descent is transitive (step of the induction on height)', hyp + [ih2], z3.Implies(z3.And(R(a0, b0), R(b0, d0)), R(a0, d0))),
            ob('direct links are descent', hyp, z3.Implies(z3.And(0 <= i, i < n(a0)), z3.And(R(a0, dd(a0, i)), R(dd(a0, i), dd(a0, i)))))]

def tree():
    """Over the classes: what assign_slots uses about trees, by induction on the depth (which
    direct links increase)."""
    R = z3.Function('R', Ref, Ref, z3.BoolSort())
    link = z3.Function('link', Ref, Ref, z3.BoolSort())     # a direct base of b
    nb = z3.Function('bases', Ref, I)
    d0 = z3.Function('first_base', Ref, Ref)
    h, tb, u, depth = [z3.Function(n, Ref, I) for n in ('height', 'tb', 'uses', 'depth')]
    T = z3.Function('tree', Ref, z3.BoolSort())
    a, b, d, x, r, s = z3.Consts('a b d x r s', Ref)
    A0, B0, D0, R0, S0 = z3.Consts('A0 B0 D0 R0 S0', Ref)
    And, Imp, All, Ex, Or = z3.And, z3.Implies, z3.ForAll, z3.Exists, z3.Or
    base = [All([a, b], R(a, b) == Or(a == b, Ex([x], And(link(a, x), R(x, b)))), patterns=[R(a, b)]),
            All([a, x, b], Imp(And(link(a, x), R(x, b)), R(a, b)), patterns=[z3.MultiPattern(link(a, x), R(x, b))]),
            All([a], R(a, a)),
            All([a, b], Imp(link(a, b), h(b) < h(a)), patterns=[link(a, b)]), All([a], h(a) >= 0)]
    last = lambda q, w: Imp(And(R(q, w), q != w), Ex([x], And(R(q, x), link(x, w))))
    out = [ob('a path has a last step (step of the induction on height)',
              base + [All([a, b], Imp(h(a) < h(A0), last(a, b)), patterns=[R(a, b)])], last(A0, B0))]
    links = [All([a, b], Imp(And(R(a, b), a != b), Ex([x], And(R(a, x), link(x, b)))), patterns=[R(a, b)]),
             All([a, b, d], Imp(And(R(a, b), R(b, d)), R(a, d)), patterns=[z3.MultiPattern(R(a, b), R(b, d))]),
             All([a], R(a, a)), All([a, b], Imp(link(a, b), R(a, b)), patterns=[link(a, b)]),
             All([a, b], Imp(link(a, b), And(nb(b) >= 1, Imp(nb(b) == 1, a == d0(b)), depth(a) < depth(b))), patterns=[link(a, b)]),
             All([a], z3.And(depth(a) >= 0, nb(a) >= 0, u(a) >= 0)),
             All([r], T(r) == And(nb(r) == 0, All([a], Imp(R(r, a), nb(a) <= 1), patterns=[R(r, a)])), patterns=[T(r)])]
    root = lambda r_, s_, a_: Imp(And(T(r_), nb(s_) == 0, R(r_, a_), R(s_, a_)), r_ == s_)
    out.append(ob('a class below the root of a tree has no other root (step of the induction on depth)',
                  links + [All([r, s, a], Imp(depth(a) < depth(A0), root(r, s, a)), patterns=[z3.MultiPattern(T(r), R(r, a), R(s, a))])], root(R0, S0, A0)))
    comp = lambda r_, a_, b_, d_: Imp(And(T(r_), R(r_, a_), R(r_, b_), R(a_, d_), R(b_, d_)), Or(R(a_, b_), R(b_, a_)))
    out.append(ob('bases in a tree are comparable (step of the induction on depth)',
                  links + [All([d], Imp(depth(d) < depth(D0), comp(R0, A0, B0, d)), patterns=[R(A0, d)])], comp(R0, A0, B0, D0)))
    tbs = [All([a], Imp(nb(a) != 0, tb(a) == tb(d0(a)) + u(d0(a))), patterns=[nb(a)])]
    foll = lambda r_, a_, d_: Imp(And(T(r_), R(r_, a_), R(a_, d_), a_ != d_), tb(a_) + u(a_) <= tb(d_))
    out.append(ob('slots of a class in a tree follow those of its bases (step of the induction on depth)',
                  links + tbs + [All([d], Imp(depth(d) < depth(D0), foll(R0, A0, d)), patterns=[R(A0, d)])], foll(R0, A0, D0)))
    rooted = lambda a_: Ex([r], And(nb(r) == 0, R(r, a_)))
    out.append(ob('every class has a root (step of the induction on depth)',
                  links + [All([a], Imp(nb(a) != 0, link(d0(a), a)), patterns=[nb(a)]),
                           All([a], Imp(depth(a) < depth(A0), rooted(a)), patterns=[depth(a)])], rooted(A0)))
    return out

LEMMAS = {'tree': tree, 'inplace.life': inplace_life, 'closure': closure}
