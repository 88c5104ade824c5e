"""The policies that map type identifiers to v-table pointers (C08, C09, C10).

REG is the set of registered identifiers: the identifiers of the classes the
initialization context enumerates.  H is the hash function in effect."""
import z3
from engine import *

FIELDS.setdefault('class_.type_ids', VEC(ADDR))
FIELDS.setdefault('class_.static_vptr', ADDR)
FIELDS.setdefault('compiler.classes', VEC(OBJ('class_')))
for f in ('mult', 'shift', 'min_value', 'max_value'):
    FIELDS['static.' + f] = INT
    GLOBALS.add('static.' + f)
FIELDS['static.fast_perfect_hash_control'] = VEC(ADDR)
FIELDS['static.vptr_vector_vptrs'] = VEC(ADDR)
FIELDS['static.vptr_vector_indirect_vptrs'] = VEC(ADDR)
FIELDS['static.vptrs'] = MAP(ADDR, ADDR)
for k in ('fast_perfect_hash_control', 'vptr_vector_vptrs', 'vptr_vector_indirect_vptrs', 'vptrs'):
    GLOBALS.add('static.' + k)
EXTRA_TYPES.append(lambda t: OBJ('user') if t == 'Animal' else None)

UMAX = U64 - 1
c_, k_, c2, k2, t_, x_ = z3.Ints('c k c2 k2 t x')
def And(*f): return z3.And(*f)
def Or(*f): return z3.Or(*f)
def Not(f): return z3.Not(f)
def Imp(p, q): return z3.Implies(p, q)
def All(vs, f, *pats):
    vs = vs if isinstance(vs, (list, tuple)) else [vs]
    return z3.ForAll(list(vs), f, patterns=list(pats)) if pats else z3.ForAll(list(vs), f)

# ---------------------------------------------------------------- vocabulary
regc, regk = z3.Function('regc', I, I), z3.Function('regk', I, I)     # where an identifier is
REGS = z3.Const('ghost.REG', z3.ArraySort(I, B))                       # the registered identifiers
SVP = z3.Const('ghost.SVP', z3.ArraySort(I, I))                        # id -> address of the static v-table pointer
def REG(t): return REGS[t]

def tables(c):
    """classes, ids and static v-table pointers of the context"""
    r = c.a(0).t
    cls = c.fld('compiler.classes')(r)
    ids = c.fld('class_.type_ids').c
    sv = c.fld('class_.static_vptr').c['']
    return cls.len, cls.arr, ids['len'], ids['arr'], sv
def ID(c, i, k):
    n, ca, il, ia, sv = tables(c)
    return ia[ca[i]][k]
def rng(c, i, k):
    n, ca, il, ia, sv = tables(c)
    return And(0 <= i, i < n, 0 <= k, k < il[ca[i]])
def registered(c):
    """the ghost names of the registered identifiers are those of the context"""
    n, ca, il, ia, sv = tables(c)
    t = ID(c, c_, k_)
    return [('identifiers are registered once', All([c_, k_], Imp(rng(c, c_, k_), And(REG(t), regc(t) == c_, regk(t) == k_, SVP[t] == sv[ca[c_]])), ia[ca[c_]][k_])),
            ('registered identifiers come from a class', All(t_, Imp(REG(t_), And(rng(c, regc(t_), regk(t_)), ID(c, regc(t_), regk(t_)) == t_)), REG(t_))),
            ('fewer than 2^24 classes', And(0 <= n, n <= 2 ** 24)),
            ('identifiers', All([c_, k_], Imp(rng(c, c_, k_), And(0 <= t, t < UMAX)), ia[ca[c_]][k_])),
            ('lengths', All(c_, il[ca[c_]] >= 0, il[ca[c_]]))]

def idrange():
    return ('identifiers are addresses, not the reserved value', All(t_, Imp(REG(t_), And(0 <= t_, t_ < UMAX)), REG(t_)))

def g(c, name): return c.glob('static.' + name)
def H(c, t): return shr_(mul_uf(g(c, 'mult').t, t), g(c, 'shift').t)

def perfect(c, checks):
    """the hash function is perfect on the registered identifiers and its bounds are right"""
    mn, mx = g(c, 'min_value').t, g(c, 'max_value').t
    r = [('shift in range', And(35 <= g(c, 'shift').t, g(c, 'shift').t <= 63)),
         ('hashes lie within the reported bounds', All(t_, Imp(REG(t_), And(mn <= H(c, t_), H(c, t_) <= mx)), REG(t_))),
         ('no two identifiers collide', All([t_, x_], Imp(And(REG(t_), REG(x_), t_ != x_), H(c, t_) != H(c, x_)), z3.MultiPattern(REG(t_), REG(x_)))),
         ('bounds are not negative', And(0 <= mx, mx < UMAX, 0 <= mn))]
    if checks:
        b = g(c, 'fast_perfect_hash_control')
        r += [('bounds within the control table', mx < b.len),
              ('the control table finds every identifier', All(t_, Imp(REG(t_), b.arr[H(c, t_)] == t_), REG(t_))),
              ('the control table holds registered identifiers only', All(x_, Imp(And(0 <= x_, x_ < b.len), Or(b.arr[x_] == UMAX, REG(b.arr[x_]))), b.arr[x_]))]
    return r

def init_ghost(c):
    c._s.ghost.setdefault('reported', z3.IntVal(-1))
    c._s.ghost.setdefault('error', z3.IntVal(0))
    return []

# ------------------------------------------------- error handler (assumed)
KIND = {'missing_class': 1, 'search_error': 2, 'not_initialized': 3, 'missing_base': 4}
def ext_error(e, st, n, *rest):
    args = rest[-1]
    v = e.rv(st, args[0])
    st.ghost['error'] = z3.IntVal(KIND.get(v.ct.a[0], 9) if v.ct.kind == 'rec' else 9)
    if v.ct == REC('missing_class'):
        st.ghost['reported'] = v.field('type').t
    elif v.ct.kind == 'rec':
        for f, t in RECORDS[v.ct.a[0]]:
            if t in (ADDR, INT):
                st.ghost[f] = v.field(f).t
            elif t.kind == 'vec':
                st.ghost[f] = v.field(f)
    st.ghost['at'] = [k for k in (x.k for x in getattr(e, 'loopstack', [])) if k is not None]
    st.ghost['aborts'] = st.ghost.get('aborts', ()) + (st.copy(),)   # the handler may throw
    return None
RECORDS['search_error'] = [('attempts', INT), ('buckets', INT)]
RECORDS['fast_perfect_hashsearch_error'] = RECORDS['search_error']
KIND['fast_perfect_hashsearch_error'] = 2
EXTERNS = [(r'error_handler::fn<.*>::error<', ext_error)]

CONTRACTS = []
PRE = r'registry<boost::openmethod::policies::std_rtti, boost::openmethod::policies::default_error_handler, boost::openmethod::policies::stderr_output, %s>'
def reg(*pols):
    return PRE % ', '.join(r'boost::openmethod::policies::%s' % p for p in pols)
VV, FH, RC, IV = 'vptr_vector', 'fast_perfect_hash', 'runtime_checks', 'indirect_vptr'
VM = 'vptr_map<boost::mp11::mp_quote<std::unordered_map> >'
REGISTRIES = {'A': (VV, FH, RC), 'B': (VV, FH), 'C': (VV, FH, IV, RC), 'D': (VM, RC), 'E': (VM, IV), 'F': (VV, RC), 'G': (VV, IV)}

def mk(name, **kw):
    CONTRACTS.append(type(name, (Contract,), dict(kw, name=name, unit_name='tu_policies.cpp')))

HASH_STATE = ('static.mult', 'static.shift', 'static.min_value', 'static.max_value', 'static.fast_perfect_hash_control')

def hash_contracts(R, pols):
    checks = RC in pols
    F = r'fast_perfect_hash::fn<boost::openmethod::' + reg(*pols) + ' >::'
    # ---- initialize(ctx, options)
    def ens(c):
        r = perfect(c, checks)
        if isinstance(c.result, Pair):
            a, b = c._e.deref_val(c._s, c.result.a), c._e.deref_val(c._s, c.result.b)
            r.append(('the reported bounds are returned', And(a.t == g(c, 'min_value').t, b.t == g(c, 'max_value').t)))
        return r
    def ab(c):
        return [('only after reporting that the search failed', c._s.ghost['error'] == 2)]
    def buckets(c):
        if checks:
            return g(c, 'fast_perfect_hash_control')
        return c.v('buckets')
    def l_size(c):
        m, sz = c.v('M').t, c.v('size').t
        return [('M grows as size shrinks', Or(*[And(m == q, 0 <= sz, sz < 2 ** (26 - q)) for q in range(1, 26)]))]
    def l_pass(c):
        m, p = c.v('M').t, c.v('pass').t
        return [('M', And(1 <= m - p, m - p <= 26, 0 <= p, p <= 4))]
    def geom(c):
        m = c.v('M').t
        b = buckets(c)
        return [('number of buckets', And(b.len == pow2(m), 1 <= m, m <= 29, g(c, 'shift').t == 64 - m)),
                ('the largest hash is below', And(0 <= g(c, 'max_value').t, g(c, 'max_value').t < b.len, 0 <= g(c, 'min_value').t))]
    def l_attempt(c):
        return geom(c) + l_pass(c)[0:0]
    def done(c, upto_c, upto_k):
        """identifiers visited: classes before upto_c, and the first upto_k of class upto_c"""
        return lambda i, k: And(rng(c, i, k), Or(i < upto_c, And(i == upto_c, k < upto_k)))
    def visited(c, kc, kk):
        n, ca, il, ia, sv = tables(c)
        v = done(c, kc, kk)
        b = buckets(c)
        mn, mx = g(c, 'min_value').t, g(c, 'max_value').t
        t = ID(c, c_, k_)
        vt = lambda t: And(REG(t), v(regc(t), regk(t)))
        return geom(c) + [
            ('identifiers so far are in their bucket', All([c_, k_], Imp(v(c_, k_), And(b.arr[H(c, t)] == t, mn <= H(c, t), H(c, t) <= mx)), ia[ca[c_]][k_])),
            ('buckets are free or hold an identifier visited', All(x_, Imp(And(0 <= x_, x_ < b.len), Or(b.arr[x_] == UMAX, And(vt(b.arr[x_]), H(c, b.arr[x_]) == x_))), b.arr[x_]))]
    def l_cls(c):
        return c.rng(tables(c)[0]) + visited(c, c.k, z3.IntVal(0))
    def l_ids(c):
        n, ca, il, ia, sv = tables(c)
        return c.rng(il[ca[c.loops[-1].k]]) + visited(c, c.loops[-1].k, c.k)
    mods = HASH_STATE
    mk('hash.initialize.' + R, match=F + r'initialize<[^()]*>\(boost::openmethod::registry<[^()]*const&, std::tuple<> const&\)$',
       requires=lambda c: init_ghost(c) + registered(c), ensures=ens, aborts=ab, modifies=mods,
       loops=(l_size, l_pass, l_attempt, l_cls, l_ids), ret=lambda e, st: Pair(mkfresh(INT, 'minv'), mkfresh(INT, 'maxv')))
    # ---- hash
    def h_req(c):
        return init_ghost(c) + perfect(c, checks) + [idrange(), ('the identifier', And(0 <= c.a(0).t, c.a(0).t < UMAX))]
    def h_ens(c):
        r = [('the hash value', c.result.t == H(c, c.old.a(0).t))]
        if checks:
            r.append(('returns for registered identifiers only', REG(c.old.a(0).t)))
        return r
    def h_ab(c):
        return [('only unregistered identifiers are refused', Not(REG(c.old.a(0).t))),
                ('the identifier is reported', And(c._s.ghost['error'] == 1, c._s.ghost['reported'] == c.old.a(0).t))]
    mk('hash.hash.' + R, match=F + r'hash\(void const\*\)$', requires=h_req, ensures=h_ens, aborts=h_ab if checks else None)
    def f_ens(c):
        return [('the control table is empty', g(c, 'fast_perfect_hash_control').len == 0)]
    mk('hash.finalize.' + R, match=F + r'finalize<>', ensures=f_ens, modifies=('static.fast_perfect_hash_control',))

for R, pols in REGISTRIES.items():
    if FH in pols:
        hash_contracts(R, pols)

# --------------------------------------------------------- v-table pointers
TABLE = {}      # registry -> the invariant of an initialized registry
def SV(c, t):
    """the address of the static v-table pointer of the class of an identifier"""
    return SVP[t]
def vptr_contracts(R, pols):
    checks, hashed, indirect, isvec = RC in pols, FH in pols, IV in pols, VV in pols
    F = (r'vptr_vector::fn<boost::openmethod::' if isvec else r'vptr_map<boost::mp11::mp_quote<std::unordered_map> >::fn<boost::openmethod::') + reg(*pols) + ' >::'
    key = 'static.vptr_vector_indirect_vptrs' if isvec and indirect else 'static.vptr_vector_vptrs' if isvec else 'static.vptrs'
    T = lambda c: c.glob(key)
    index = (lambda c, t: H(c, t)) if hashed else (lambda c, t: t)
    content = lambda c, t: SV(c, t) if indirect else c.mem()[SV(c, t)]
    def stored(c, which=lambda t: z3.BoolVal(True)):
        v = T(c)
        if isvec:
            return All(t_, Imp(And(REG(t_), which(t_)), And(0 <= index(c, t_), index(c, t_) < v.len, v.arr[index(c, t_)] == content(c, t_))), REG(t_))
        return All(t_, Imp(And(REG(t_), which(t_)), And(v.dom[t_], v.c['val'][t_] == content(c, t_))), REG(t_))
    def table(c):
        r = [('every registered identifier finds the v-table pointer of its class', stored(c)), idrange()]
        if hashed:
            r += perfect(c, checks)
        if not isvec:
            r.append(('only registered identifiers are in the map', All(t_, Imp(T(c).dom[t_], REG(t_)), T(c).dom[t_])))
        return r
    TABLE[R] = table
    def l_max_c(c):
        n, ca, il, ia, sv = tables(c)
        z = c.v('size').t
        return c.rng(n) + [('size bounds the identifiers so far', And(z >= 0, z < UMAX, All([c_, k_], Imp(And(rng(c, c_, k_), c_ < c.k), ID(c, c_, k_) <= z), ia[ca[c_]][k_])))]
    def l_max_k(c):
        n, ca, il, ia, sv = tables(c)
        z = c.v('size').t
        kc = c.loops[-1].k
        return c.rng(il[ca[kc]]) + [('size bounds the identifiers so far', And(z >= 0, z < UMAX, All([c_, k_], Imp(And(rng(c, c_, k_), Or(c_ < kc, And(c_ == kc, k_ < c.k))), ID(c, c_, k_) <= z), ia[ca[c_]][k_])))]
    def fill(c, kc, kk):
        v = lambda t: Or(regc(t) < kc, And(regc(t) == kc, regk(t) < kk))
        if isvec:
            t0 = T(c)
            r = [('identifiers so far have their v-table pointer', stored(c, v)),
                 ('every identifier has a place', All(t_, Imp(REG(t_), And(0 <= index(c, t_), index(c, t_) < t0.len)), REG(t_)))]
            return r + (perfect(c, checks) if hashed else [])
        m = c.outer(MAP(ADDR, ADDR))
        return [('identifiers so far have their v-table pointer', All(t_, Imp(And(REG(t_), v(t_)), And(m.dom[t_], m.c['val'][t_] == content(c, t_))), REG(t_))),
                ('only identifiers visited are in the map', All(t_, Imp(m.dom[t_], And(REG(t_), v(t_))), m.dom[t_]))]
    def l_fill_c(c):
        return c.rng(tables(c)[0]) + fill(c, c.k, z3.IntVal(0))
    def l_fill_k(c):
        n, ca, il, ia, sv = tables(c)
        kc = c.loops[-1].k
        return c.rng(il[ca[kc]]) + fill(c, kc, c.k)
    mods = (key,) + (HASH_STATE if hashed else ())
    ini = lambda c: init_ghost(c) + registered(c)
    def i_ab(c):
        return [('only after reporting an error', c._s.ghost['error'] == 2)]
    def ens(c):
        r = table(c)
        if not isvec:
            r = [x for x in r if x[0] != idrange()[0]]
        return r
    mk('vptr.initialize.' + R, match=F + r'initialize<', requires=lambda c: ini(c) + [idrange()], ensures=table, modifies=mods,
       aborts=i_ab if hashed else None, loops=((l_max_c, l_max_k) if isvec and not hashed else ()) + (l_fill_c, l_fill_k))
    # ---- dynamic_vptr
    dt = lambda c: dyn_type(c.old.a(0).t)
    def unreg(c):
        """without a hash function, the size of the table is all that can be checked"""
        return Not(REG(dt(c)))
    def d_req(c):
        r = init_ghost(c) + table(c) + [('an identifier', And(0 <= dt(c), dt(c) < UMAX))]
        if not checks:
            r.append(('the class of the object is registered', REG(dt(c))))
        return r
    def d_ens(c):
        v = c._e.deref_val(c._s, c.result)
        if not (checks and isvec and not hashed):
            r = [('the v-table pointer of the class of the object', And(REG(dt(c)), v.t == c.mem()[SV(c, dt(c))] if indirect else v.t == c.old.mem()[SV(c, dt(c))]))]
        else:
            r = [('the v-table pointer of the class of the object', Imp(REG(dt(c)), v.t == c.mem()[SV(c, dt(c))]))]
        if indirect and isinstance(c.result, Mem):
            r.append(('it is the static v-table pointer itself', c.result.addr == SV(c, dt(c))))
        return r
    def d_ab(c):
        return [('only unregistered classes are refused', unreg(c)),
                ('the class is reported', And(c._s.ghost['error'] == 1, c._s.ghost['reported'] == dt(c)))]
    mk('vptr.dynamic_vptr.' + R, match=F + r'dynamic_vptr<', requires=d_req, ensures=d_ens, aborts=d_ab if checks else None, also=('tu_core.cpp', 'tu_vptr.cpp'),
       ret=lambda e, st: Mem(fresh(I, 'vp')))
    def f_ens(c):
        if isvec:
            return [('the table is empty', T(c).len == 0)]
        return [('the map is empty', All(t_, Not(T(c).dom[t_]), T(c).dom[t_]))]
    mk('vptr.finalize.' + R, match=F + r'finalize<>', ensures=f_ens, modifies=(key,))

for R, pols in REGISTRIES.items():
    vptr_contracts(R, pols)
