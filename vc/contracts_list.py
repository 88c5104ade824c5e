"""static_list (C11): the list is a sequence.

Ghost: S[0..N) is the sequence of nodes.  The invariant ties it to the
pointers; each operation maps the invariant for one sequence to the invariant
for the sequence the documentation prescribes, and touches no other node."""
import z3
from engine import *

nd = 'class_info'
i, j = z3.Ints('i j')
r = z3.Const('r', Ref)
S_, N_ = z3.Const('ghost.S', z3.ArraySort(I, Ref)), z3.Const('ghost.N', I)

def And(*f): return z3.And(*f)
def Imp(p, q): return z3.Implies(p, q)
def All(vs, f, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return z3.ForAll(list(vs), f, patterns=list(pats)) if pats else z3.ForAll(list(vs), f)

def setup(node):
    FIELDS.update({node + '.prev_ptr': REF(node), node + '.next_ptr': REF(node), 'list_%s.first' % node: REF(node)})

def heap(c):
    node = c._e.con.node
    return (c.fld('list_%s.first' % node)(c.this).t if isinstance(c.this, z3.ExprRef) else None,
            c.fld(node + '.prev_ptr').c[''], c.fld(node + '.next_ptr').c[''])

def inv(c, s, n, pat=lambda k: []):
    """first/prev/next represent the sequence s(0..n-1)"""
    first, prev, nxt = heap(c)
    rng = lambda k: And(0 <= k, k < n)
    return [('n is a length', n >= 0),
            ('empty iff no first node', (first == NULL) == (n == 0)),
            ('first', Imp(n > 0, first == s(0))),
            ('nodes are not null', All(i, Imp(rng(i), s(i) != NULL), *pat(i))),
            ('nodes are distinct', All([i, j], Imp(And(rng(i), rng(j), i != j), s(i) != s(j)))),
            ('prev of the first node is the last', Imp(n > 0, prev[s(0)] == s(n - 1))),
            ('prev', All(i, Imp(And(1 <= i, i < n), prev[s(i)] == s(i - 1)), *pat(i))),
            ('next', All(i, Imp(And(0 <= i, i < n - 1), nxt[s(i)] == s(i + 1)), *pat(i))),
            ('next of the last node is null', Imp(n > 0, nxt[s(n - 1)] == NULL))]

seq = lambda k: S_[k]
pre = lambda c: inv(c, seq, N_, lambda k: [S_[k]])
member = lambda x: z3.Exists([i], And(0 <= i, i < N_, S_[i] == x))
def frame(c, also=None):
    _, p, n = heap(c)
    _, p0, n0 = heap(c.old)
    out = All(r, Imp(And(All(i, Imp(And(0 <= i, i < N_), S_[i] != r)), r != also) if also is not None
                     else All(i, Imp(And(0 <= i, i < N_), S_[i] != r)),
                     And(p[r] == p0[r], n[r] == n0[r])), p[r], n[r])
    return [('other nodes untouched', out)]

CONTRACTS = []
def for_node(node):
    setup(node)
    L = r'static_list<boost::openmethod::detail::%s>::' % node
    common = dict(unit_name='tu_list.cpp', this_class='list_' + node, node=node, props=('C11',))
    mod = (node + '.prev_ptr', node + '.next_ptr', 'list_%s.first' % node)
    def mk(name, **kw):
        CONTRACTS.append(type(name, (Contract,), dict(common, name=name, **{k: v for k, v in kw.items()})))

    def pb_req(c):
        x = c.a(0).t
        _, p, n = heap(c)
        return pre(c) + [('the node is not linked', And(x != NULL, z3.Not(member(x)))),
                         ('the node is zero-initialized', And(p[x] == NULL, n[x] == NULL))]
    def pb_ens(c):
        x = c.old.a(0).t
        return inv(c, lambda k: z3.If(k == N_, x, S_[k]), N_ + 1) + frame(c, x)
    mk('static_list.push_back' + ('' if node == nd else '.' + node), match=L + r'push_back\(', requires=pb_req, ensures=pb_ens, modifies=mod)

    P_ = z3.Const('ghost.P', I)
    def rm_req(c):
        return pre(c) + [('the node is in the list', And(0 <= P_, P_ < N_, S_[P_] == c.a(0).t))]
    def rm_ens(c):
        x = c.old.a(0).t
        _, p, n = heap(c)
        return inv(c, lambda k: z3.If(k < P_, S_[k], S_[k + 1]), N_ - 1) + \
            [('the node is unlinked', And(p[x] == NULL, n[x] == NULL))] + frame(c)
    mk('static_list.remove' + ('' if node == nd else '.' + node), match=L + r'remove\(', requires=rm_req, ensures=rm_ens, modifies=mod)

    def cl_ens(c):
        f, p, n = heap(c)
        return [('the list is empty', f == NULL),
                ('every node is unlinked', All(i, Imp(And(0 <= i, i < N_), And(p[S_[i]] == NULL, n[S_[i]] == NULL)), S_[i]))] + frame(c)
    def cl_inv(c):
        f, p, n = heap(c)
        _, p0, n0 = heap(c.old)
        x = c.outer(REF(node)).t
        return [('the list is empty', f == NULL),
                ('position', And(c.k <= N_, x == z3.If(c.k < N_, S_[c.k], NULL))),
                ('visited nodes are unlinked', All(i, Imp(And(0 <= i, i < c.k), And(p[S_[i]] == NULL, n[S_[i]] == NULL)), S_[i])),
                ('nodes ahead are as they were', All(i, Imp(And(c.k <= i, i < N_), And(p[S_[i]] == p0[S_[i]], n[S_[i]] == n0[S_[i]])), S_[i]))] + frame(c)
    mk('static_list.clear' + ('' if node == nd else '.' + node), match=L + r'clear\(', requires=pre, ensures=cl_ens, modifies=mod, loops=(cl_inv,))
    mk('static_list.empty' + ('' if node == nd else '.' + node), match=L + r'empty\(', requires=pre,
       ensures=lambda c: [('empty iff the sequence is', c.result.t == (N_ == 0))])
    for it in ('iterator', 'const_iterator'):
        const = ' const' if it[0] == 'c' else ''
        rec = '%s_%s' % (node, it)
        RECORDS[rec] = [('ptr', REF(node))]
        EXTRA_TYPES.append(lambda t, it=it, rec=rec: REC(rec) if t == 'static_list<%s>::%s' % (node, it) else None)
        sfx = ('' if node == nd else '.' + node) + ('.const' if const else '')
        mk('static_list.begin' + sfx, match=L + r'begin\(\)' + const + '$', requires=pre,
           ensures=lambda c: [('begin designates the first node, or is end()',
                               c.result.field('ptr').t == z3.If(N_ > 0, S_[0], NULL))])
        mk('static_list.end' + sfx, match=L + r'end\(\)' + const + '$',
           ensures=lambda c: [('end()', c.result.field('ptr').t == NULL)])
        K_ = z3.Const('ghost.K', I)
        def inc_req(c):
            return [f for f in list_facts(c)] + [('the iterator is at node K', And(0 <= K_, K_ < N_, c.thisv().field('ptr').t == S_[K_]))]
        def inc_ens(c):
            return [('it moves to node K + 1, or to the end',
                     c.thisv().field('ptr').t == z3.If(K_ + 1 < N_, S_[K_ + 1], NULL))]
        mk('static_list.++' + sfx, match=L + it + r'::operator\+\+\(\)$', requires=inc_req, ensures=inc_ens, this_value=REC(rec), mod_this=True, this_class=None)
        mk('static_list.*' + sfx, match=L + it + r'::operator\*\(\)$', this_value=REC(rec), this_class=None, requires=lambda c: [('not end', c.thisv().field('ptr').t != NULL)],
           ensures=lambda c: [('dereference', c.result.t == c.old.thisv().field('ptr').t)])
        for o, neg in (('==', False), ('!=', True)):
            mk('static_list.%s%s' % (o, sfx), match=r'operator%s\(boost::openmethod::detail::%s%s const&' % (o, L, it), param_types={0: REC(rec), 1: REC(rec)}, this_class=None,
               ensures=lambda c, neg=neg: [('compares positions', c.result.t == ((c.a(0).field('ptr').t != c.a(1).field('ptr').t) if neg else
                                                                     (c.a(0).field('ptr').t == c.a(1).field('ptr').t)))])

def list_facts(c):
    """the next pointers only (an iterator does not know its list)"""
    node = c._e.con.node
    nxt = c.fld(node + '.next_ptr').c['']
    return [('next', All(i, Imp(And(0 <= i, i < N_ - 1), nxt[S_[i]] == S_[i + 1]), S_[i])),
            ('next of the last node is null', Imp(N_ > 0, nxt[S_[N_ - 1]] == NULL)),
            ('nodes are not null', All(i, Imp(And(0 <= i, i < N_), S_[i] != NULL), S_[i]))]

for_node('class_info')
for_node('method_info')
for_node('overrider_info')
