"""A deductive verifier for the C++ that the library's templates instantiate to.

Input: clang AST of real functions (vc/ast.py) and contracts (vc/contracts_*.py).
Output: proof obligations (z3 formulas), one list per function under contract.
A caller sees only the contract of a callee that has one; other library
functions are inlined; standard library operations have built-in semantics
(the trusted base, listed in STD_MODEL)."""
import re, itertools
import z3
from cxxast import *

class Unsupported(Exception):
    pass

class Skeleton(Unsupported):
    """The shape of the code no longer matches the annotations."""

# ---------------------------------------------------------------- sorts, types
Ref = z3.DeclareSort('Ref')
NULL = z3.Const('null', Ref)
I, B = z3.IntSort(), z3.BoolSort()
BitArr = z3.ArraySort(I, B)
Key = z3.Datatype('Key')
Key.declare('mk', ('klen', I), ('kbits', BitArr))
Key = Key.create()

class CT:
    def __init__(self, kind, *a):
        self.kind, self.a = kind, a
    def __eq__(self, o):
        return isinstance(o, CT) and self.kind == o.kind and self.a == o.a
    def __hash__(self):
        return hash((self.kind, self.a))
    def __repr__(self):
        return self.kind + (repr(self.a) if self.a else '')

INT, BOOL, ADDR, BITS, VOID = CT('int'), CT('bool'), CT('addr'), CT('bits'), CT('void')
def REF(c): return CT('ref', c)
def VEC(t): return CT('vec', t)
def SET(t): return CT('set', t)
def MAP(k, v): return CT('map', k, v)
def REC(n): return CT('rec', n)
def OBJ(c): return CT('obj', c)

IDENTITY = {'class_', 'method', 'overrider', 'class_info', 'method_info',
            'overrider_info', 'deferred_class_info', 'deferred_method_info',
            'deferred_overrider_info', 'compiler', 'generic_compiler'}
# static_list elements and compile-time info: identity by address
ALIAS = {'deferred_class_info': 'class_info', 'deferred_method_info': 'method_info',
         'deferred_overrider_info': 'overrider_info', 'generic_compiler': 'compiler'}

RECORDS = {
    'parameter': [('method', REF('method')), ('param', INT)],
    'vtbl_entry': [('method_index', INT), ('vp_index', INT), ('group_index', INT)],
    'group': [('classes', VEC(REF('class_'))), ('has_concrete_classes', BOOL)],
    'method_report': [('cells', INT), ('not_implemented', INT), ('ambiguous', INT)],
    'report': [('cells', INT), ('not_implemented', INT), ('ambiguous', INT)],
    'missing_class': [('type', ADDR)],
    'missing_base': [('base', ADDR), ('derived', ADDR)],
    'not_initialized': [],
    'odr_violation': [],
}
EXTRA_TYPES = []   # functions: normalised type string -> CT or None

def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '<' or ch == '(':
            d += 1
        elif ch == '>' or ch == ')':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur); cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]

_pre = re.compile(r'\b(?:boost::openmethod::detail::generic_compiler::|'
                  r'boost::openmethod::detail::|boost::openmethod::policies::|'
                  r'boost::openmethod::|detail::generic_compiler::|detail::|'
                  r'generic_compiler::|std::|policies::|boost::|::)')
def norm(t):
    t = _pre.sub('', t)
    t = re.sub(r'\b(const|volatile|struct|class|typename|mutable)\b\s*', '', t)
    t = t.replace('&', '').strip()
    t = re.sub(r'\s+', ' ', t)
    t = re.sub(r' \*', '*', t)
    return t.strip()

INTS = {'unsigned long', 'size_t', 'int', 'unsigned int', 'long', 'unsigned char',
        'uintptr_t', 'ptrdiff_t', 'difference_type', 'size_type', 'unsigned long long',
        'long long', '__uint128_t', 'short', 'char'}
_ctcache = {}
def ctype(t):
    t = norm(t)
    if t in _ctcache:
        return _ctcache[t]
    r = _ctype(t)
    _ctcache[t] = r
    return r

def _ctype(t):
    for f in EXTRA_TYPES:
        r = f(t)
        if r is not None:
            return r
    if t in INTS:
        return INT
    m = re.match(r'(.*)\[\d+\]$', t)
    if m:
        return VEC(ctype(m.group(1)))
    if t == 'bool':
        return BOOL
    if t == 'void':
        return VOID
    if t.endswith('(*)()') or t.endswith('(*)(void)'):
        return ADDR
    if t.startswith('registry<') and re.search(r'::compiler<.*>$', t):
        return OBJ('compiler')
    if t.endswith('*'):
        base = t[:-1].strip()
        b = ctype(base)
        if b.kind == 'obj':
            return REF(b.a[0])
        return ADDR
    if t in ('type_id', 'vptr_type', 'word', 'nullptr_t', 'type_index', 'type_index_type'):
        return ADDR
    if t in IDENTITY:
        return OBJ(ALIAS.get(t, t))
    if t in RECORDS:
        return REC(t)
    if t.startswith('dynamic_bitset<>::reference') or t in ('reference',):
        return BOOL
    if t.startswith('dynamic_bitset<') and t.endswith('::reference'):
        return BOOL
    if re.match(r'dynamic_bitset<.*>$', t) or t == 'bitvec':
        return BITS
    m = re.match(r'(vector|deque|unordered_set|map|unordered_map|static_list)<(.*)>$', t)
    if m:
        a = [ctype(x) for x in split_targs(m.group(2))]
        k = m.group(1)
        if k in ('vector', 'deque', 'static_list'):
            return VEC(a[0])
        if k == 'unordered_set':
            return SET(a[0])
        return MAP(a[0], a[1])
    return CT('opaque', t)

def scalar_sort(ct):
    if ct.kind in ('int', 'addr', 'opaque'):
        return I
    if ct.kind == 'bool':
        return B
    if ct.kind in ('ref', 'obj'):
        return Ref
    raise Unsupported('no scalar sort for %r' % (ct,))

def is_scalar(ct):
    return ct.kind in ('int', 'addr', 'opaque', 'bool', 'ref', 'obj')

def keysort(ct):
    return Key if ct.kind == 'bits' else scalar_sort(ct)

def flatten(ct):
    """component name -> sort"""
    if is_scalar(ct):
        return {'': scalar_sort(ct)}
    if ct.kind == 'bits':
        return {'len': I, 'bits': BitArr}
    if ct.kind == 'vec':
        r = {'len': I}
        for n, s in flatten(ct.a[0]).items():
            r['arr' + ('.' + n if n else '')] = z3.ArraySort(I, s)
        return r
    if ct.kind == 'set':
        return {'set': z3.ArraySort(keysort(ct.a[0]), B)}
    if ct.kind == 'map':
        ks = keysort(ct.a[0])
        r = {'dom': z3.ArraySort(ks, B)}
        for n, s in flatten(ct.a[1]).items():
            r['val' + ('.' + n if n else '')] = z3.ArraySort(ks, s)
        return r
    if ct.kind == 'rec':
        r = {}
        for f, t in RECORDS[ct.a[0]]:
            for n, s in flatten(t).items():
                r[f + ('.' + n if n else '')] = s
        return r
    raise Unsupported('flatten %r' % (ct,))

_fresh = itertools.count()
def fresh(sort, hint='v'):
    return z3.Const('%s!%d' % (hint, next(_fresh)), sort)

# -------------------------------------------------------------------- values
class Val:
    """A value: CT and its components."""
    def __init__(self, ct, comps):
        self.ct, self.c = ct, comps
    @property
    def t(self):
        return self.c['']
    @property
    def len(self):
        return self.c['len']
    @property
    def arr(self):
        return self.c['arr']
    @property
    def bits(self):
        return self.c['bits']
    @property
    def set(self):
        return self.c['set']
    @property
    def dom(self):
        return self.c['dom']
    def field(self, f):
        ct = dict(RECORDS[self.ct.a[0]])[f]
        return Val(ct, sub(self.c, f))
    def __repr__(self):
        return 'Val(%r,%r)' % (self.ct, self.c)

def sub(c, p):
    r = {}
    for k, v in c.items():
        if k == p:
            r[''] = v
        elif k.startswith(p + '.'):
            r[k[len(p) + 1:]] = v
    return r

def pre(p, c):
    return {(p + ('.' + k if k else '')): v for k, v in c.items()}

def S(ct, t):
    return Val(ct, {'': t})

def mkfresh(ct, hint='v'):
    return Val(ct, {k: fresh(s, hint + ('.' + k if k else '')) for k, s in flatten(ct).items()})

def empty_arr(sort):
    return fresh(sort, 'dflt')

def default(ct):
    """value-initialised object"""
    if ct.kind in ('int', 'addr', 'opaque'):
        return S(ct, z3.IntVal(0))
    if ct.kind == 'bool':
        return S(ct, z3.BoolVal(False))
    if ct.kind in ('ref', 'obj'):
        return S(ct, NULL)
    if ct.kind == 'bits':
        return Val(ct, {'len': z3.IntVal(0), 'bits': z3.K(I, z3.BoolVal(False))})
    if ct.kind == 'vec':
        v = mkfresh(ct, 'emptyvec')
        v.c['len'] = z3.IntVal(0)
        return v
    if ct.kind == 'set':
        return Val(ct, {'set': z3.K(keysort(ct.a[0]), z3.BoolVal(False))})
    if ct.kind == 'map':
        v = mkfresh(ct, 'emptymap')
        v.c['dom'] = z3.K(keysort(ct.a[0]), z3.BoolVal(False))
        return v
    if ct.kind == 'rec':
        c = {}
        for f, t in RECORDS[ct.a[0]]:
            c.update(pre(f, default(t).c))
        return Val(ct, c)
    raise Unsupported('default %r' % (ct,))

def wf(ct, c, wrap=lambda f: f):
    """type invariants of a fresh value (lengths are not negative, bits beyond
    the length are clear, elements of vectors of objects are distinct)"""
    out = []
    if ct.kind == 'vec':
        out.append(c['len'] >= 0)
    if ct.kind == 'bits':
        i = z3.Int('wf_i')
        out.append(c['len'] >= 0)
        out.append(z3.ForAll([i], z3.Implies(c['bits'][i], z3.And(0 <= i, i < c['len'])),
                             patterns=[c['bits'][i]]))
    if ct.kind == 'rec':
        for f, t in RECORDS[ct.a[0]]:
            out += wf(t, sub(c, f))
    return out

def keyterm(v):
    if v.ct.kind == 'bits':
        return Key.mk(v.len, v.bits)
    return v.t

def keyval(ct, k):
    if ct.kind == 'bits':
        return Val(BITS, {'len': Key.klen(k), 'bits': Key.kbits(k)})
    return S(ct, k)

# ------------------------------------------------------------------- lvalues
class LV:
    pass

class Var(LV):
    def __init__(self, vid, ct, name=''):
        self.vid, self.ct, self.name = vid, ct, name
    def root(self):
        return ('v', self.vid)
    def read(self, st):
        try:
            return st.env[self.vid]
        except KeyError:
            raise Unsupported('unbound variable ' + self.name)
    def write(self, st, v):
        st.log.add(self.root())
        st.env[self.vid] = v

class Heap(LV):
    """field `key` of object `ref` (ref None: a global)"""
    def __init__(self, key, ref, ct):
        self.key, self.ref, self.ct = key, ref, ct
    def root(self):
        return ('h', self.key)
    def read(self, st):
        c = {}
        for n, s in flatten(self.ct).items():
            a = st.h(self.key + ('.' + n if n else ''), s, self.ref is None)
            c[n] = a if self.ref is None else z3.Select(a, self.ref)
        st.facts_wf(self.ct, c)
        return Val(self.ct, c)
    def write(self, st, v):
        st.log.add(self.root())
        for n, s in flatten(self.ct).items():
            k = self.key + ('.' + n if n else '')
            a = st.h(k, s, self.ref is None)
            st.heap[k] = v.c[n] if self.ref is None else z3.Store(a, self.ref, v.c[n])

ARRAYS = set()      # arrays whose elements are designated by pointers kept in fields
def array_addr(key, ref=None):
    """where an array (a member of ref, or a static one) is"""
    return z3.Const('array:' + key, I) if ref is None else z3.Function('array:' + key, Ref, I)(ref)

class Field(LV):
    def __init__(self, base, f):
        self.base, self.f = base, f
        d = dict(RECORDS[base.ct.a[0]])
        if f not in d:
            raise Unsupported('unknown field %s of %r' % (f, base.ct))
        self.ct = d[f]
    def root(self):
        return self.base.root()
    def read(self, st):
        return self.base.read(st).field(self.f)
    def write(self, st, v):
        b = self.base.read(st)
        c = dict(b.c)
        c.update(pre(self.f, v.c))
        self.base.write(st, Val(b.ct, c))

class Elem(LV):
    def __init__(self, base, idx):
        self.base, self.idx = base, idx
        self.ct = base.ct.a[0]
    def root(self):
        return self.base.root()
    def read(self, st):
        b = self.base.read(st)
        r = Val(self.ct, {k: v[self.idx] for k, v in sub(b.c, 'arr').items()})
        st.facts_wf(self.ct, r.c)
        return r
    def write(self, st, v):
        b = self.base.read(st)
        c = dict(b.c)
        for k, t in v.c.items():
            n = 'arr' + ('.' + k if k else '')
            c[n] = z3.Store(c[n], self.idx, t)
        self.base.write(st, Val(b.ct, c))

class Bit(LV):
    ct = BOOL
    def __init__(self, base, idx):
        self.base, self.idx = base, idx
    def root(self):
        return self.base.root()
    def read(self, st):
        return S(BOOL, self.base.read(st).bits[self.idx])
    def write(self, st, v):
        b = self.base.read(st)
        c = dict(b.c)
        c['bits'] = z3.Store(c['bits'], self.idx, v.t)
        self.base.write(st, Val(BITS, c))

class MapElem(LV):
    def __init__(self, base, key):
        self.base, self.key = base, key
        self.ct = base.ct.a[1]
    def root(self):
        return self.base.root()
    def read(self, st):
        b = self.base.read(st)
        return Val(self.ct, {k: v[self.key] for k, v in sub(b.c, 'val').items()})
    def write(self, st, v):
        b = self.base.read(st)
        c = dict(b.c)
        for k, t in v.c.items():
            n = 'val' + ('.' + k if k else '')
            c[n] = z3.Store(c[n], self.key, t)
        self.base.write(st, Val(b.ct, c))

class Obj(LV):
    """the object designated by a reference (identity struct)"""
    def __init__(self, ref, cls):
        self.ref, self.cls = ref, cls
        self.ct = OBJ(cls)
    def root(self):
        return ('o',)
    def read(self, st):
        return S(self.ct, self.ref)
    def write(self, st, v):
        raise Unsupported('assignment of a whole ' + self.cls)

class Mem(LV):
    """a word of memory"""
    ct = ADDR
    def __init__(self, addr, ct=ADDR):
        self.addr = addr
        self.ct = ct
    def root(self):
        return ('h', 'mem')
    def read(self, st):
        t = st.h('mem', I, True, raw=z3.ArraySort(I, I))[self.addr]
        if self.ct.kind == 'bool':
            t = t != 0
        return S(self.ct, t)
    def write(self, st, v):
        st.log.add(self.root())
        m = st.h('mem', I, True, raw=z3.ArraySort(I, I))
        t = v.t
        if z3.is_bool(t):
            t = z3.If(t, z3.IntVal(1), z3.IntVal(0))
        st.heap['mem'] = z3.Store(m, self.addr, t)

class Tmp(LV):
    def __init__(self, v):
        self.v = v
        self.ct = v.ct
    def root(self):
        return ('t',)
    def read(self, st):
        return self.v
    def write(self, st, v):
        self.v = v

# special (non-storable) values
class It:
    """iterator into a vector-like view"""
    def __init__(self, cont, idx):
        self.cont, self.idx = cont, idx
class FindIt:
    def __init__(self, present, val, extra=None):
        self.present, self.val, self.extra = present, val, extra
class EndIt:
    def __init__(self, cont):
        self.cont = cont
class BeginIt(EndIt):
    pass
class Inserter:
    def __init__(self, cont):
        self.cont = cont
class Pair:
    def __init__(self, a, b):
        self.a, self.b = a, b
class Range:
    def __init__(self, first, last):
        self.first, self.last = first, last
class Closure:
    def __init__(self, node):
        self.node = node
class Ptr:
    """pointer to an lvalue"""
    def __init__(self, lv):
        self.lv = lv
class FnRef:
    def __init__(self, node, this=None):
        self.node, self.this = node, this
class Slice(LV):
    """read-only vector view given by an element function"""
    def __init__(self, ct, n, fn):
        self.ct, self.n, self.fn = ct, n, fn
SPECIAL = (It, FindIt, EndIt, Inserter, Pair, Range, Closure, Ptr, FnRef)

# --------------------------------------------------------------------- state
class State:
    def __init__(self, eng):
        self.eng = eng
        self.env = {}      # decl id -> Val | LV (reference) | special
        self.heap = {}     # key -> term
        self.pc = []       # (is_branch, formula)
        self.log = set()
        self.ghost = {}
        self.names = {}    # name -> decl id (latest)
    def copy(self):
        s = State(self.eng)
        s.env = dict(self.env)
        s.heap = dict(self.heap)
        s.pc = list(self.pc)
        s.log = self.log       # shared on purpose
        s.ghost = dict(self.ghost)
        s.names = dict(self.names)
        return s
    def h(self, key, sort, glob=False, raw=None):
        if key not in self.heap:
            srt = raw if raw is not None else (sort if glob else z3.ArraySort(Ref, sort))
            # the initial heap is shared by all states of the function
            self.heap[key] = self.eng.init_heap(key, srt)
        return self.heap[key]
    def assume(self, f, branch=False):
        f = z3.simplify(f) if z3.is_true(f) else f
        if not z3.is_true(f):
            self.pc.append((branch, f))
    def facts_wf(self, ct, c):
        for f in wf(ct, c):
            key = f.get_id()
            if key not in self.ghost.setdefault('wf', frozenset()):
                self.ghost['wf'] = self.ghost['wf'] | {key}
                self.eng.keep.append(f)
                self.pc.append((False, f))
    def hyps(self):
        return [f for _, f in self.pc]

class Out:
    def __init__(self, kind, st, val=None):
        self.kind, self.st, self.val = kind, st, val

# ----------------------------------------------------------------- contracts
FIELDS = {}          # heap key -> CT, filled by contracts (checked at access)

class View:
    """Values of one state, for contracts."""
    def __init__(self, eng, st, fr):
        self._e, self._s, self.fr = eng, st, fr
    def fld(self, key):
        ct = FIELDS[key]
        s = self._s
        comps = {n: s.h(key + ('.' + n if n else ''), srt) for n, srt in flatten(ct).items()}
        def get(ref):
            return Val(ct, {n: a[ref] for n, a in comps.items()})
        get.c = comps
        return get
    def glob(self, key):
        ct = FIELDS[key]
        return Val(ct, {n: self._s.h(key + ('.' + n if n else ''), srt, True)
                        for n, srt in flatten(ct).items()})
    def mem(self):
        return self._s.h('mem', I, True, raw=z3.ArraySort(I, I))
    def raw(self, key, sort):
        return self._s.h(key, I, True, raw=sort)
    @property
    def this(self):
        t = self.fr.this
        return t.ref if isinstance(t, Obj) else t
    def thisv(self):
        t = self.fr.this
        return t.read(self._s)
    def a(self, i):
        return self._e.deref_val(self._s, self.fr.args[i])
    def local(self, i):
        """what the parameter now holds, by-value ones included"""
        x = self._s.env.get(params(self.fr.fn)[i]['id'])
        return self._e.deref_val(self._s, self.fr.args[i] if x is None else x)
    def arg_lv(self, i):
        return self.fr.args[i]
    def v(self, name):
        vid = self._s.names.get(name)
        if vid is None:
            raise Skeleton('local variable %r not found' % name)
        x = self._s.env[vid]
        return self._e.deref_val(self._s, x)
    def has(self, name):
        return name in self._s.names
    def outer(self, ct):
        """the one variable of this type declared before the loop"""
        s = self.ent._s if self.ent is not None else self._s
        c = {vid for nm, vid in s.names.items() if isinstance(s.env.get(vid), Val) and s.env[vid].ct == ct}
        if len(c) != 1:
            raise Skeleton('%d variables of type %r before the loop' % (len(c), ct))
        return self._e.deref_val(self._s, self._s.env[c.pop()])
    def g(self, name):
        return self._s.ghost.get(name)

class Frame:
    def __init__(self, fn, this, args):
        self.fn, self.this, self.args = fn, this, args

class Ctx(View):
    """What a contract clause sees."""
    old = None      # View at function entry
    ent = None      # View at loop entry
    it = None       # View at the start of this iteration (inner loops: outer view)
    result = None
    k = None
    n = None
    loops = ()      # enclosing loop contexts (outermost first)
    en = None
    ctl = ()        # variables declared in the head of the loop
    def pos(self):
        """position in the range the loop runs over: range-for, iterator or index"""
        if self.en is not None:
            return self.k
        xs = [self._s.env.get(v) for v in self.ctl]
        xs = [x.idx if isinstance(x, It) else x.t for x in xs
              if isinstance(x, It) or isinstance(x, Val) and x.ct == INT]
        if len(xs) != 1:
            raise Skeleton('loop form not recognized')
        return xs[0]
    def rng(self, n):
        """the loop runs over positions 0..n, in order"""
        if self.en is not None:
            return []
        p = self.pos()
        return [('position', z3.And(p == self.k, 0 <= p, p <= n))]

class Contract:
    match = None
    requires = None      # (c) -> [(label, formula)]
    ensures = None       # (c) -> [(label, formula)]
    aborts = None        # (c) -> [(label, formula)] when the call does not return
    modifies = ()        # heap keys
    mod_args = ()        # indices of reference parameters modified
    loops = ()           # invariants, in source order
    first = None         # the back end to try first
    axioms = None        # (c) -> extra definitional axioms
    props = ()
    inline_ok = ()
    noreturn = False
    name = None
    unit_name = 'tu_main.cpp'   # translation unit the function is extracted from
    instances = 1               # template instances verified in the quick tier
    inline = False              # callers see the body, not the contract

class Obligation:
    def __init__(self, fn, label, hyps, goal, kind):
        self.fn, self.label, self.hyps, self.goal, self.kind = fn, label, hyps, goal, kind

NOISE_TYPES = re.compile(r'trace_stream<')

def strip(n):
    while n.get('kind') in ('ExprWithCleanups', 'ParenExpr', 'CXXBindTemporaryExpr',
                            'MaterializeTemporaryExpr', 'SubstNonTypeTemplateParmExpr',
                            'FullExpr', 'ConstantExpr') or (
            n.get('kind') in ('ImplicitCastExpr',) and n.get('castKind') in
            ('NoOp', 'FunctionToPointerDecay', 'LValueToRValue', 'UncheckedDerivedToBase',
             'DerivedToBase', 'ConstructorConversion', 'UserDefinedConversion',
             'ArrayToPointerDecay', 'BuiltinFnToFnPtr', 'IntegralCast', 'NullToPointer', 'BitCast')):
        inner = [c for c in n.get('inner', ()) if c]
        if not inner:
            return n
        n = inner[-1] if n.get('kind') != 'SubstNonTypeTemplateParmExpr' else inner[-1]
    return n

class Engine:
    def __init__(self, unit, contracts, externs=()):
        self.u = unit
        self.contracts = contracts
        self.externs = list(externs)
        self.keep = []
        self.obls = []
        self.quiet = 0
        self.inlined = set()
        self.dropped = 0
        self.used_contracts = set()
        self.used_externs = set()
        self.cache_contract = {}

    # ---- helpers
    def init_heap(self, key, srt):
        if key not in self._init:
            self._init[key] = z3.Const('H.' + key, srt)
        return self._init[key]

    def contract_for(self, fn):
        m = fn['mangledName']
        if m not in self.cache_contract:
            nm = self.u.name(fn)
            r = None
            for c in self.contracts:
                if not c.inline and re.search(c.match, nm):
                    r = c
                    break
            self.cache_contract[m] = r
        return self.cache_contract[m]

    def oblige(self, st, label, goal, kind='check'):
        if self.quiet:
            return
        if z3.is_true(z3.simplify(goal)):
            self.trivial += 1
        self.obls.append(Obligation(self.cur_name, label, list(st.hyps()), goal, kind))

    def deref_val(self, st, x):
        while isinstance(x, LV) and not isinstance(x, Slice):
            if isinstance(x, Obj):
                return S(x.ct, x.ref)
            x = x.read(st)
        return x

    # ---- top level: prove one function against its contract
    def verify(self, fn, con):
        self._init = {}
        self.obls = []
        self.trivial = 0
        self.cur_name = con.name or fn['name']
        self.con = con
        self.con_fn = fn
        self.loop_order = self.number_loops(fn, con)
        self.loop_of = {}
        st = State(self)
        this = None
        is_method = fn['kind'] != 'FunctionDecl' and fn.get('storageClass') != 'static'
        if is_method:
            this = self.make_this(st, fn, con)
        args = []
        for i, p in enumerate(params(fn)):
            args.append(self.bind_param(st, p, i))
        fr = Frame(fn, this, args)
        st.env['this'] = this
        # frames hold what the contract names; args that are references keep
        # their cell, by-value args are kept as their initial value in old
        self.frame = fr
        old = View(self, st.copy(), Frame(fn, this, list(args)))
        old._s.env = dict(st.env)
        self.old = old
        c = self.ctx(st)
        pre = con.requires(c) if con.requires else []
        for l, f in pre:
            st.assume(f)
        if con.axioms:
            for f in con.axioms(c):
                st.assume(f)
        old._s.heap = st.heap if False else dict(st.heap)
        self.pre_hyps = list(st.hyps())
        outs = self.ex_fn_body(st, fn)
        nret = 0
        for o in outs:
            c = self.ctx(o.st)
            if o.kind in ('next', 'return'):
                nret += 1
                c.result = o.val
                self.oblige_reach(o.st, 'return')
                if con.noreturn:
                    self.oblige(o.st, 'does not return', z3.BoolVal(False), 'ensures')
                for l, f in (con.lemmas(c) if getattr(con, 'lemmas', None) else []):
                    self.induction(o.st, l, f)
                for l, f in (con.ensures(c) if con.ensures else []):
                    self.oblige(o.st, l, f, 'ensures')
            elif o.kind == 'abort':
                fs = con.aborts(c) if con.aborts else [('no abort', z3.BoolVal(False))]
                for l, f in fs:
                    self.oblige(o.st, l, f, 'aborts')
            else:
                raise Unsupported('outcome ' + o.kind)
        # frame
        allowed = set(con.modifies)
        written = set()
        for o in outs:
            written |= o.st.log
        for r in written:
            if r[0] == 'h' and r[1] not in allowed and not any(
                    r[1].startswith(a + '.') for a in allowed):
                self.obls.append(Obligation(self.cur_name, 'frame: writes ' + r[1],
                                            [], z3.BoolVal(False), 'frame'))
        if not self.loops_seen_all():
            raise Skeleton('annotated loops not reached')
        return self.obls

    def loops_seen_all(self):
        return True

    def ctx(self, st):
        c = Ctx(self, st, self.frame)
        c.old = self.old
        return c

    def make_this(self, st, fn, con):
        if getattr(con, 'this_value', None):
            ct = con.this_value
            v = Var('thisobj', ct, 'this')
            st.env['thisobj'] = mkfresh(ct, 'this')
            st.facts_wf(ct, st.env['thisobj'].c)
            return v
        r = z3.Const('this', Ref)
        st.assume(r != NULL)
        return Obj(r, getattr(con, 'this_class', 'compiler'))

    def bind_param(self, st, p, i):
        t = p['type'].get('desugaredQualType') or p['type']['qualType']
        q = p['type']['qualType']
        isref = t.rstrip().endswith('&') or q.rstrip().endswith('&')
        ov = getattr(self.con, 'param_types', {}).get(i)
        if ov is not None and not isinstance(ov, CT):
            x = ov(self, st)
            st.env[p['id']] = x
            if 'name' in p:
                st.names[p['name']] = p['id']
            return x
        ct = ov if ov is not None else ctype(t)
        if ct.kind == 'obj':
            r = fresh(Ref, p.get('name', 'p'))
            st.assume(r != NULL)
            x = Obj(r, ct.a[0])
            st.env[p['id']] = x
            self.named(st, p)
            return x
        v = mkfresh(ct, p.get('name', 'p'))
        st.facts_wf(ct, v.c)
        if isref:
            cell = ('cell', p['id'])
            st.env[cell] = v
            x = Var(cell, ct, p.get('name', ''))
            st.env[p['id']] = x
            self.named(st, p)
            return x
        st.env[p['id']] = v
        self.named(st, p)
        # contract clauses see the value passed
        return Tmp(v)

    def named(self, st, d):
        if d.get('name'):
            st.names[d['name']] = d['id']

    # ---- loops: number them in source order, through inlined callees
    def number_loops(self, fn, con):
        order, shape = [], []
        self.shape = shape      # what the loops the annotations are attached to look like
        def visit(n, stack, depth=0):
            k = n.get('kind')
            if k in ('ForStmt', 'CXXForRangeStmt', 'WhileStmt', 'DoStmt'):
                if self.is_noise_loop(n):
                    return
                order.append((stack, n['id']))
                shape.append('%d %s' % (depth, self.loop_kind(n)))
                depth += 1
            if k == 'LambdaExpr':
                return
            if k in ('CallExpr', 'CXXMemberCallExpr', 'CXXOperatorCallExpr', 'CXXConstructExpr') \
                    and not self.is_noise(n):
                f = self.callee_def(n)
                if f is not None and self.contract_for(f) is None and f['id'] not in stack \
                        and len(stack) < 6 and not self.extern_for(f):
                    for c in n.get('inner', ()):
                        if c:
                            visit(c, stack, depth)
                    visit(body(f), stack + (f['id'],), depth)
                    return
            if k == 'IfStmt' and n.get('isConstexpr'):
                br = self.constexpr_branch(n)
                if br is not None:
                    for c in br:
                        visit(c, stack, depth)
                    return
            if k in ('CXXOperatorCallExpr', 'DeclStmt') and self.is_noise(n):
                return
            for c in n.get('inner', ()):
                if c:
                    visit(c, stack, depth)
        visit(body(fn), (fn['id'],))
        if len(order) != len(con.loops):
            raise Skeleton('%s: %d loops in the code, %d annotated' % (
                self.cur_name, len(order), len(con.loops)))
        return {k: i for i, k in enumerate(order)}

    def loop_kind(self, n):
        if n['kind'] != 'CXXForRangeStmt':
            return n['kind']
        rv = [d for d in n['inner'][1]['inner'] if d.get('kind') == 'VarDecl'][0]
        t = re.sub(r'\bconst\b|[&\s]', '', qual(rv))
        return 'range ' + t

    def is_noise_loop(self, n):
        # a loop whose body contains trace output only
        b = [c for c in n.get('inner', ()) if c][-1]
        stm = b.get('inner', ()) if b.get('kind') == 'CompoundStmt' else [b]
        stm = [s for s in stm if s]
        if not stm:
            return False
        return all(self.is_noise(s) for s in stm)

    def callee_def(self, n):
        inner = [c for c in n.get('inner', ()) if c]
        if n['kind'] == 'CXXConstructExpr':
            return None
        if not inner:
            return None
        c = strip(inner[0])
        if c.get('kind') == 'DeclRefExpr':
            return self.u.definition(c['referencedDecl']['id'])
        if c.get('kind') == 'MemberExpr':
            return self.u.definition(c.get('referencedMemberDecl'))
        return None

    def is_noise(self, n):
        """trace output"""
        k = n.get('kind')
        if k == 'DeclStmt':
            return all('::indent' in qual(d) or qual(d).endswith('indent')
                       for d in n.get('inner', ()) if d.get('kind') == 'VarDecl') and \
                any(d.get('kind') == 'VarDecl' for d in n.get('inner', ()))
        t = qual(n)
        if NOISE_TYPES.search(t):
            return True
        if k in ('ExprWithCleanups', 'ImplicitCastExpr', 'ParenExpr'):
            inner = [c for c in n.get('inner', ()) if c]
            return len(inner) == 1 and self.is_noise(inner[0])
        return False

    def constexpr_branch(self, n):
        inner = [c for c in n['inner'] if c is not None]
        if n.get('hasInit') or n.get('hasVar'):
            return None
        cond = inner[0]
        v = self.const_value(cond)
        if v is None:
            return None
        then = inner[1] if len(inner) > 1 else None
        els = inner[2] if len(inner) > 2 else None
        r = then if v else els
        return [r] if r else []

    def const_value(self, n):
        k = n.get('kind')
        if k == 'ConstantExpr' and 'value' in n:
            return n['value'] in ('true', '1')
        if k == 'CXXBoolLiteralExpr':
            return bool(n['value'])
        inner = [c for c in n.get('inner', ()) if c]
        if k in ('ImplicitCastExpr', 'ExprWithCleanups', 'ParenExpr', 'SubstNonTypeTemplateParmExpr') and inner:
            return self.const_value(inner[-1])
        if k == 'UnaryOperator' and n['opcode'] == '!':
            v = self.const_value(inner[0])
            return None if v is None else not v
        return None

    # ---- statements
    def ex_fn_body(self, st, fn):
        self.stack = getattr(self, 'stack', ())
        saved, self.stack = self.stack, self.stack + (fn['id'],)
        try:
            if fn['kind'] == 'CXXConstructorDecl':
                self.ctor_inits(st, fn, st.env['this'])
                outs = [Out('abort', s) for s in self.take_aborts(st)]
                if st.ghost.get('dead'):
                    return outs
                return outs + self.ex(st, body(fn))
            return self.ex(st, body(fn))
        finally:
            self.stack = saved

    def ex(self, st, n):
        if n is None or not n:
            return [Out('next', st)]
        k = n['kind']
        if k == 'CompoundStmt':
            cur = [st]
            outs = []
            jumps = []       # forward jumps to a label of this block
            stmts = list(n.get('inner', ()))
            labels = {self.label_id(c): ix for ix, c in enumerate(stmts) if c and c.get('kind') == 'LabelStmt'}
            for ix, c in enumerate(stmts):
                nxt = []
                if c and c.get('kind') == 'LabelStmt':
                    lab = self.label_id(c)
                    cur = cur + [s for l, s in jumps if l == lab]
                    jumps = [(l, s) for l, s in jumps if l != lab]
                    c = self._in(c)[-1] if self._in(c) else None
                for s in cur:
                    for o in self.ex(s, c):
                        if o.kind == 'next':
                            nxt.append(o.st)
                        elif o.kind == 'goto' and labels.get(o.val, -1) > ix:
                            jumps.append((o.val, o.st))
                        else:
                            outs.append(o)
                cur = nxt
            for s in cur:
                outs.append(Out('next', s))
            return outs
        if k == 'GotoStmt':
            return [Out('goto', st, n.get('targetLabelDeclId'))]
        if k == 'LabelStmt':
            return self.ex(st, self._in(n)[-1] if self._in(n) else None)
        if k == 'NullStmt':
            return [Out('next', st)]
        if k == 'AttributedStmt':
            return self.ex(st, [c for c in n['inner'] if c and c['kind'].endswith('Stmt') or c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Operator')][-1])
        if self.is_noise(n):
            self.dropped += 1
            return [Out('next', st)]
        m = getattr(self, 'ex_' + k, None)
        if m:
            return m(st, n)
        if k.endswith('Expr') or k.endswith('Operator') or k in ('ExprWithCleanups', 'CXXDeleteExpr'):
            self.pending = []
            r = self.ev(st, n)
            return self.after_expr(st)
        raise Unsupported('statement ' + k)
    def label_id(self, n):
        return n.get('declId')

    def after_expr(self, st, mk=None):
        outs = [Out('abort', s) for s in self.take_aborts(st)]
        if st.ghost.get('dead'):
            return outs
        outs.append(mk(st) if mk else Out('next', st))
        return outs

    def take_aborts(self, st):
        a = st.ghost.get('aborts', ())
        st.ghost['aborts'] = ()
        return list(a)

    def ex_DeclStmt(self, st, n):
        for d in n.get('inner', ()):
            if d['kind'] == 'DecompositionDecl':
                inner = [c for c in d.get('inner', ()) if c and c['kind'] not in ('BindingDecl',) and not c['kind'].endswith('Attr')]
                x = self.unspec(self.rv(st, inner[-1])) if inner else None
                bs = [b for b in d.get('inner', ()) if b and b.get('kind') == 'BindingDecl']
                if not isinstance(x, Pair) or len(bs) != 2:
                    raise Unsupported('structured binding')
                for b, v in zip(bs, (x.a, x.b)):
                    v = self.read(st, v)
                    st.env[b['id']] = v
                    for h in walk(b):
                        if h.get('kind') == 'VarDecl':
                            st.env[h['id']] = v
                    self.named(st, b)
                continue
            if d['kind'] in ('VarDecl',):
                if '::indent' in qual(d) and not [c for c in d.get('inner', ()) if c and False]:
                    self.dropped += 1
                    continue
                self.declare(st, d)
            elif d['kind'] in ('UsingDecl', 'UsingDirectiveDecl', 'TypedefDecl', 'TypeAliasDecl',
                               'StaticAssertDecl', 'UsingShadowDecl', 'CXXRecordDecl', 'NamespaceAliasDecl'):
                pass
            else:
                raise Unsupported('declaration ' + d['kind'])
        return self.after_expr(st)

    def declare(self, st, d):
        t = qual(d)
        isref = t.rstrip().endswith('&') or d['type']['qualType'].rstrip().endswith('&')
        inner = [c for c in d.get('inner', ()) if c and not c['kind'].endswith('Attr')]
        self.named(st, d)
        if d.get('storageClass') == 'static':
            raise Unsupported('static local')
        if not inner:
            ct = ctype(t)
            st.env[d['id']] = mkfresh(ct, d.get('name', 'u')) if is_scalar(ct) else default(ct)
            return
        init = inner[-1]
        if isref:
            x = self.ev(st, init)
            if isinstance(x, Val):
                x = Tmp(x)
                # temporaries bound to references behave like locals
                cell = ('tmp', d['id'])
                st.env[cell] = x.v
                x = Var(cell, x.ct, d.get('name', ''))
            st.env[d['id']] = x
            return
        x = self.rv(st, init)
        if isinstance(x, Val):
            ct = ctype(t)
            if ct.kind == 'opaque' or norm(t) == 'auto':
                ct = x.ct
            x = self.conv(x, ct)
        st.env[d['id']] = x

    def ex_ReturnStmt(self, st, n):
        inner = [c for c in n.get('inner', ()) if c]
        if not inner:
            return [Out('return', st)]
        # returning a reference keeps the lvalue
        v = self.ev(st, inner[0])
        if isinstance(v, LV) and not self.ret_ref:
            v = self.read(st, v)
        return self.after_expr(st, lambda s: Out('return', s, v))
    ret_ref = False

    def ex_BreakStmt(self, st, n):
        return [Out('break', st)]

    def ex_ContinueStmt(self, st, n):
        return [Out('continue', st)]

    def ex_IfStmt(self, st, n):
        inner = [c for c in n['inner']]
        outs = []
        if n.get('hasInit'):
            for o in self.ex(st, inner[0]):
                if o.kind != 'next':
                    return [o]
            inner = inner[1:]
        if n.get('hasVar'):
            self.ex(st, inner[0])
            inner = inner[1:]
        if n.get('isConstexpr'):
            br = self.constexpr_branch(n)
            if br is None:
                raise Unsupported('if constexpr condition')
            return self.ex(st, br[0]) if br else [Out('next', st)]
        # code under the trace option is constexpr; run-time conditions:
        c = self.cond(st, inner[0])
        outs += [Out('abort', s) for s in self.take_aborts(st)]
        if st.ghost.get('dead'):
            return outs
        cs = z3.simplify(c)
        if not z3.is_false(cs):
            s1 = st.copy() if not z3.is_true(cs) else st
            s1.assume(c, True)
            outs += self.ex(s1, inner[1])
        if not z3.is_true(cs):
            st.assume(z3.Not(c), True)
            if len(inner) > 2 and inner[2]:
                outs += self.ex(st, inner[2])
            else:
                outs.append(Out('next', st))
        return outs

    # -- loops
    def loop_contract(self, n):
        key = (self.stack_key(), n['id'])
        i = self.loop_order.get(key)
        if i is None:
            # reached through a different path
            for (stk, nid), j in self.loop_order.items():
                if nid == n['id']:
                    i = j
                    break
        if i is None:
            raise Skeleton('loop without invariant in ' + self.cur_name)
        return i, self.con.loops[i]

    def stack_key(self):
        return self.stack

    def ex_ForStmt(self, st, n):
        init, _, cond, inc, bdy = (list(n['inner']) + [None] * 5)[:5]
        outs = []
        starts = [st]
        if init:
            starts = []
            for o in self.ex(st, init):
                if o.kind == 'next':
                    starts.append(o.st)
                else:
                    outs.append(o)
        for s in starts:
            outs += self.loop(s, n,
                              cond=lambda q: self.cond(q, cond) if cond else z3.BoolVal(True),
                              body=lambda q, k: self.ex(q, bdy),
                              inc=lambda q: self.ev(q, inc) if inc else None,
                              ctl=[d['id'] for d in (init or {}).get('inner', ()) if d and d.get('kind') == 'VarDecl'])
        return outs

    def ex_WhileStmt(self, st, n):
        cond, bdy = n['inner'][-2:]
        return self.loop(st, n, cond=lambda q: self.cond(q, cond),
                         body=lambda q, k: self.ex(q, bdy), inc=lambda q: None)

    def ex_CXXForRangeStmt(self, st, n):
        inner = n['inner']
        rng, bdy, lvdecl = inner[1], inner[-1], inner[-2]
        if self.is_noise_loop(n):
            self.dropped += 1
            return [Out('next', st)]
        rv = [d for d in rng['inner'] if d.get('kind') == 'VarDecl'][0]
        cont = self.ev(st, [c for c in rv['inner'] if c][-1])
        if isinstance(cont, Val):
            cont = Tmp(cont)
        en = self.enum(st, cont)
        var = [d for d in lvdecl['inner'] if d][0]
        def body_(q, k):
            el = en.elem(q, k)
            self.bind_loopvar(q, var, el)
            return self.ex(q, bdy)
        return self.loop(st, n, cond=None, body=body_, inc=lambda q: None, en=en)

    def bind_loopvar(self, st, var, el):
        t = qual(var)
        isref = t.rstrip().endswith('&') or var['type']['qualType'].rstrip().endswith('&')
        if var['kind'] == 'DecompositionDecl':
            bs = [b for b in var['inner'] if b.get('kind') == 'BindingDecl']
            if not isinstance(el, Pair):
                raise Unsupported('structured binding')
            for b, x in zip(bs, (el.a, el.b)):
                st.env[b['id']] = x
                self.named(st, b)
            return
        self.named(st, var)
        if isinstance(el, LV) and not isref and not isinstance(el, Obj):
            el = self.read(st, el)
        if isinstance(el, Val) and isref:
            el = Tmp(el)
        st.env[var['id']] = el

    def enum(self, st, cont):
        """enumeration of a range: length and k-th element"""
        eng = self
        class En:
            pass
        e = En()
        e.cont = cont
        if isinstance(cont, Range):
            a, b = cont.first, cont.last
            if isinstance(a, It):
                e.n = b.idx - a.idx
                e.elem = lambda q, k: eng.elem_lv(q, a.cont, a.idx + k)
                e.at = None
                return e
            if isinstance(a, Val) and a.ct.kind == 'addr':
                e.n = b.t - a.t
                et = INT
                e.elem = lambda q, k: Mem(a.t + k)
                return e
            raise Unsupported('range')
        if isinstance(cont, Slice):
            e.n = cont.n
            e.elem = lambda q, k: cont.fn(q, k)
            return e
        ct = cont.ct
        if ct.kind == 'vec':
            e.n = cont.read(st).len
            e.elem = lambda q, k: eng.elem_lv(q, cont, k)
            return e
        if ct.kind == 'set':
            v = cont.read(st)
            ks = keysort(ct.a[0])
            f = z3.Function('enum!%d' % next(_fresh), I, ks)
            g = z3.Function('eidx!%d' % next(_fresh), ks, I)
            nn = fresh(I, 'setsize')
            i, x = z3.Int('en_i'), z3.Const('en_x', ks)
            st.assume(nn >= 0)
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < nn),
                      z3.And(v.set[f(i)], g(f(i)) == i)), patterns=[f(i)]))
            st.assume(z3.ForAll([x], z3.Implies(v.set[x],
                      z3.And(0 <= g(x), g(x) < nn, f(g(x)) == x)), patterns=[v.set[x], g(x)] if False else [v.set[x]]))
            e.n, e.fn, e.idx = nn, f, g
            def el(q, k):
                t = f(k)
                q.assume(v.set[t])
                return S(ct.a[0], t) if not (ct.a[0].kind == 'obj') else Obj(t, ct.a[0].a[0])
            e.elem = el
            return e
        if ct.kind == 'map':
            v = cont.read(st)
            ks = keysort(ct.a[0])
            fs = enum_fns(ks)
            dom = v.dom
            for f in enum_axioms(ks, dom):
                st.assume(f)
            e.n = fs[2](dom)
            st.assume(e.n >= 0)
            def el(q, k):
                kt = fs[0](dom, k)
                q.assume(dom[kt])
                return Pair(Tmp(keyval(ct.a[0], kt)), MapElem(cont, kt))
            e.elem = el
            e.dom = dom
            return e
        raise Unsupported('range-for over %r' % (ct,))

    def elem_lv(self, st, cont, i):
        if isinstance(cont, Slice):
            return cont.fn(st, i)
        if cont.ct.kind == 'vec' and cont.ct.a[0].kind == 'obj':
            r = cont.read(st).arr[i]
            st.assume(r != NULL)   # elements are objects
            return Obj(r, cont.ct.a[0].a[0])
        return Elem(cont, i)

    def loop(self, st, n, cond, body, inc, en=None, ctl=()):
        idx, inv = self.loop_contract(n)
        outer = getattr(self, 'loopstack', [])
        def mk(s, k, it=None):
            c = self.ctx(s)
            c.k, c.n, c.ent = k, (en.n if en else None), entry
            c.en = en
            c.ctl = ctl
            c.loops = list(outer)
            return c
        entry = View(self, st.copy(), self.frame)
        # 1. what the body may write
        written = set()
        for _ in range(4):
            probe = st.copy()
            probe.log = set()
            self.havoc(probe, written)
            kk = fresh(I, 'k')
            self.quiet += 1
            self.loopstack = outer + [mk(probe.copy(), kk)]
            try:
                if cond:
                    cc = cond(probe)
                    probe.assume(cc, True)
                po = body(probe, kk)
                for o in po:
                    if o.kind in ('next', 'continue'):
                        inc(o.st)
            finally:
                self.quiet -= 1
                self.loopstack = outer
            new = {w for w in probe.log if self.outlives(st, w)}
            st_log = probe.log
            if new <= written:
                break
            written |= new
        else:
            raise Unsupported('loop write set does not stabilise')
        st.log |= {w for w in written}
        # 2. invariant holds on entry
        self.loopstack = outer
        for l, f in inv(mk(st, z3.IntVal(0))):
            if l[0] == '@':
                self.induction(st, l[1:], f)
                continue
            if l[0] in '=#':
                st.assume(f)
                continue
            self.oblige(st, 'loop %d entry: %s' % (idx + 1, l), f, 'loop-entry')
        # 3. arbitrary iteration
        s = st.copy()
        self.havoc(s, written)
        k = fresh(I, 'k')
        s.assume(k >= 0)
        if en:
            s.assume(k <= en.n)
            s.assume(en.n >= 0)
        c0 = mk(s, k)
        for l, f in inv(c0):
            if l.startswith('=') and not self.quiet:
                self.obls.append(Obligation(self.cur_name, 'arithmetic lemma: ' + l[1:], [], arithmetic(f), 'lemma'))
            if l[0] == '@':
                self.induction(s, l[1:], f)
                continue
            s.assume(f)
        outs = []
        # 4. body
        b = s.copy()
        if en:
            bc = k < en.n
        else:
            bc = cond(b) if cond else z3.BoolVal(True)
        for a in self.take_aborts(b):
            outs.append(Out('abort', a))
        b.assume(bc, True)
        self.oblige_reach(b, 'loop %d body' % (idx + 1))
        ic = mk(b.copy(), k)
        self.loopstack = outer + [ic]
        try:
            bo = body(b, k)
        finally:
            self.loopstack = outer
        for o in bo:
            if o.kind in ('next', 'continue'):
                if not o.st.ghost.get('dead'):
                    inc(o.st)
                    cn = mk(o.st, k + 1)
                    cn.it = ic
                    for l, f in inv(cn):
                        if l[0] == '@':
                            continue
                        if l[0] in '=#':
                            o.st.assume(f)
                            continue
                        self.oblige(o.st, 'loop %d preserved: %s' % (idx + 1, l), f, 'loop-preserved')
            elif o.kind == 'break':
                outs.append(Out('next', o.st))
            else:
                outs.append(o)
        # 5. exit
        if en:
            s.assume(k == en.n)
        else:
            ec = cond(s) if cond else z3.BoolVal(True)
            s.assume(z3.Not(ec), True)
        outs.append(Out('next', s))
        return outs

    def induction(self, st, label, f):
        """well-founded induction on a measure: the step is an obligation, the
        conclusion is then available.  f = (vars, measure of them, P, patterns)"""
        vs, ms, P, pats = f[:4]
        vs0 = [fresh(v.sort(), str(v)) for v in vs]
        at = lambda t: z3.substitute(t, *zip(vs, vs0))
        q = st.copy()
        hyp = lambda body: z3.ForAll(list(vs), body, patterns=list(pats)) if pats else z3.ForAll(list(vs), body)
        if len(f) > 4:      # some variables stay the same in the hypothesis: (which change, patterns over them)
            ch = f[4]
            fix = [(v, v0) for v, v0 in zip(vs, vs0) if not any(v.eq(w) for w in ch)]
            q.assume(z3.ForAll(list(ch), z3.substitute(z3.Implies(z3.And(0 <= ms, ms < at(ms)), P), *fix), patterns=[z3.substitute(p_, *fix) for p_ in f[5]]))
        else:
            q.assume(hyp(z3.Implies(z3.And(0 <= ms, ms < at(ms)), P)))
        self.oblige(q, 'induction: ' + label, z3.And(at(ms) >= 0, at(P)), 'lemma')
        st.assume(hyp(P))

    def oblige_reach(self, st, label):
        if self.quiet:
            return
        self.obls.append(Obligation(self.cur_name, 'reachable: ' + label, list(st.hyps()),
                                    None, 'reach'))

    def outlives(self, st, w):
        if w[0] == 'v':
            return w[1] in st.env
        return w[0] == 'h'

    def havoc(self, st, written):
        for w in written:
            if w[0] == 'v':
                old = st.env[w[1]]
                st.env[w[1]] = self.havoc_val(st, old)
            elif w[0] == 'h':
                self.havoc_key(st, w[1])

    def havoc_val(self, st, old):
        if isinstance(old, Val):
            v = mkfresh(old.ct, 'hv')
            for f in wf(old.ct, v.c):
                st.assume(f)
            return v
        if isinstance(old, It):
            return It(old.cont, fresh(I, 'it'))
        raise Unsupported('loop modifies a %s' % type(old).__name__)

    def havoc_key(self, st, key):
        ks = [k for k in list(st.heap) if k == key or k.startswith(key + '.')]
        for kk in ks:
            st.heap[kk] = fresh(st.heap[kk].sort(), 'H.' + kk)
        if not ks:
            # never read so far: force distinct from the initial value
            ct = FIELDS.get(key)
            if ct is not None:
                for n, s in flatten(ct).items():
                    kk = key + ('.' + n if n else '')
                    srt = s if getattr(ct, 'glob', False) or key in GLOBALS else z3.ArraySort(Ref, s)
                    st.heap[kk] = fresh(srt, 'H.' + kk)
            elif key == 'alloc':
                st.heap['alloc'] = fresh(z3.ArraySort(Ref, B), 'alloc')
            elif key == 'mem':
                st.heap['mem'] = fresh(z3.ArraySort(I, I), 'H.mem')
            else:
                raise Unsupported('havoc of unknown location ' + key)
        ct = FIELDS.get(key)
        if ct is not None and ct.kind == 'bits' and key not in GLOBALS:
            a, i = z3.Const('wf_a', Ref), z3.Int('wf_i')
            bs = st.heap[key + '.bits']
            st.pc.append((False, z3.ForAll([a, i], z3.Implies(bs[a][i], z3.And(0 <= i, i < st.heap[key + '.len'][a])), patterns=[bs[a][i]])))

GLOBALS = set()

_enum = {}
def enum_fns(ks):
    if ks.name() not in _enum:
        ds = z3.ArraySort(ks, B)
        n = ks.name()
        _enum[n] = (z3.Function('mkey_' + n, ds, I, ks), z3.Function('midx_' + n, ds, ks, I),
                    z3.Function('msize_' + n, ds, I))
    return _enum[ks.name()]

def enum_axioms(ks, dom):
    f, g, sz = enum_fns(ks)
    i, x = z3.Int('me_i'), z3.Const('me_x', ks)
    return [sz(dom) >= 0,
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sz(dom)),
                      z3.And(dom[f(dom, i)], g(dom, f(dom, i)) == i)), patterns=[f(dom, i)]),
            z3.ForAll([x], z3.Implies(dom[x], z3.And(0 <= g(dom, x), g(dom, x) < sz(dom),
                      f(dom, g(dom, x)) == x)), patterns=[dom[x], g(dom, x)] if False else [dom[x]])]

# -------------------------------------------------------------- expressions
BOOL_HOOKS = {}      # record -> its conversion to bool
def to_bool(v):
    if isinstance(v, Ptr):
        return z3.BoolVal(True)
    if isinstance(v, Val):
        if v.ct in BOOL_HOOKS:
            return BOOL_HOOKS[v.ct](v)
        if v.ct.kind == 'bool':
            return v.t
        if v.ct.kind == 'ref':
            return v.t != NULL
        if is_scalar(v.ct) and v.t.sort() == I:
            return v.t != 0
    raise Unsupported('condition of type %r' % (v,))

def field_class(t):
    """class name of an object type, for heap keys"""
    ct = ctype(t)
    return ct

class Expr:
    """mixin: evaluation"""

    def read(self, st, x):
        while isinstance(x, LV):
            if isinstance(x, Slice):
                return x
            if isinstance(x, Obj):
                return S(x.ct, x.ref)
            x = x.read(st)
        return x

    def rv(self, st, n):
        return self.read(st, self.ev(st, n))

    def cond(self, st, n):
        return to_bool(self.rv(st, n))

    def conv(self, v, ct):
        if not isinstance(v, Val) or v.ct == ct:
            return v
        a, b = v.ct.kind, ct.kind
        if b == 'bool':
            return S(BOOL, to_bool(v))
        if b in ('int', 'addr', 'opaque'):
            if a == 'bool':
                return S(ct, z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
            if a in ('int', 'addr', 'opaque'):
                return S(ct, v.t)
            if a in ('ref', 'obj'):
                return S(ct, ref_addr(v.t))
        if b == 'ref':
            if a in ('ref', 'obj'):
                return S(ct, v.t)
            if a in ('int', 'addr', 'opaque') and z3.is_int_value(v.t) and v.t.as_long() == 0:
                return S(ct, NULL)
        if a == b and a in ('vec', 'set', 'map', 'rec', 'bits'):
            return Val(ct, v.c)
        if b == 'obj' and a in ('ref', 'obj'):
            return S(ct, v.t)
        raise Unsupported('conversion %r -> %r' % (v.ct, ct))

    def ev(self, st, n):
        k = n['kind']
        m = getattr(self, 'ev_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(st, n)

    def _in(self, n):
        return [c for c in n.get('inner', ()) if c]

    def ev_ExprWithCleanups(self, st, n):
        return self.ev(st, self._in(n)[0])
    ev_ParenExpr = ev_MaterializeTemporaryExpr = ev_CXXBindTemporaryExpr = ev_ExprWithCleanups

    def ev_SubstNonTypeTemplateParmExpr(self, st, n):
        return self.ev(st, self._in(n)[-1])

    def ev_ConstantExpr(self, st, n):
        return self.ev(st, self._in(n)[0])

    def ev_CXXDefaultArgExpr(self, st, n):
        inner = self._in(n)
        if inner:
            return self.ev(st, inner[0])
        return None

    def ev_CXXDefaultInitExpr(self, st, n):
        inner = self._in(n)
        if inner:
            return self.ev(st, inner[0])
        raise Unsupported('default initialiser')

    def ev_IntegerLiteral(self, st, n):
        return S(INT, z3.IntVal(int(n['value'])))

    def ev_CXXBoolLiteralExpr(self, st, n):
        return S(BOOL, z3.BoolVal(bool(n['value'])))

    def ev_CXXNullPtrLiteralExpr(self, st, n):
        return S(ADDR, z3.IntVal(0))
    ev_GNUNullExpr = ev_CXXNullPtrLiteralExpr

    def ev_StringLiteral(self, st, n):
        return S(CT('opaque', 'str'), fresh(I, 'str'))

    def ev_CXXScalarValueInitExpr(self, st, n):
        if norm(qual(n)) == 'void':
            return None
        return default(ctype(qual(n)))
    ev_ImplicitValueInitExpr = ev_CXXScalarValueInitExpr

    def ev_CXXThisExpr(self, st, n):
        t = st.env.get('this')
        if t is None:
            raise Unsupported('this')
        return Ptr(t)

    def ev_DeclRefExpr(self, st, n):
        d = n['referencedDecl']
        i = d['id']
        if i in st.env:
            x = st.env[i]
            if isinstance(x, LV) or isinstance(x, SPECIAL):
                if isinstance(x, SPECIAL):
                    return SpecVar(i, x)
                return x
            return Var(i, x.ct, d.get('name', ''))
        if d['kind'] in ('FunctionDecl', 'CXXMethodDecl'):
            return FnRef(n)
        if d['kind'] == 'BindingDecl':
            raise Unsupported('binding')
        if d['kind'] in ('VarDecl', 'VarTemplateSpecializationDecl'):
            return self.global_var(st, n, d)
        if d['kind'] == 'EnumConstantDecl':
            return S(INT, fresh(I, 'enum'))
        raise Unsupported('reference to ' + d['kind'] + ' ' + d.get('name', ''))

    def global_var(self, st, n, d):
        key = 'static.' + d.get('name', '?')
        decl = self.u.by_id.get(d['id'])
        for rx, h in self.globals_map:
            nm = ''
            if decl is not None and 'mangledName' in decl:
                nm = self.dem(decl['mangledName'])
            if re.search(rx, nm or d.get('name', '')):
                return h(self, st, n)
        if decl is not None and decl.get('constexpr') and decl.get('storageClass') == 'static' and ctype(qual(decl)).kind in ('int', 'bool'):
            v = self.u.constant(decl)
            if v is not None:
                return S(INT, z3.IntVal(v)) if ctype(qual(decl)).kind == 'int' else S(BOOL, z3.BoolVal(bool(v)))
        if decl is not None and decl.get('constexpr'):
            init = [c for c in decl.get('inner', ()) if c]
            if init:
                return self.ev(st, init[-1])
        t = qual(n)
        ct = ctype(t)
        if key in FIELDS:
            ct = FIELDS[key]
        else:
            FIELDS[key] = ct
        GLOBALS.add(key)
        return Heap(key, None, ct)
    globals_map = []
    _dem = {}
    def dem(self, m):
        if m not in self._dem:
            import subprocess
            self._dem[m] = subprocess.run(['c++filt', m], stdout=subprocess.PIPE).stdout.decode().strip()
        return self._dem[m]

    # -- members
    def ev_MemberExpr(self, st, n):
        base = self._in(n)[0]
        name = n.get('name', '')
        rd = self.u.by_id.get(n.get('referencedMemberDecl'))
        if rd is not None and rd.get('kind') == 'VarDecl':
            return self.global_var(st, n, rd)
        b = self.ev(st, base)
        if n.get('isArrow'):
            b = self.deref(st, self.read_ptr(st, b))
        return self.member(st, b, name, qual(n))

    def member(self, st, b, name, t):
        b = self.unspec(b)
        if isinstance(b, Pair):
            return b.a if name == 'first' else b.b
        if isinstance(b, FindIt):
            if name == 'second':
                return b.extra
            if name == 'first':
                return b.val
        if isinstance(b, Range) and name in ('first', 'last', 'second'):
            return b.first if name == 'first' else b.last
        if isinstance(b, Val):
            b = Tmp(b)
        if isinstance(b, Obj):
            return self.obj_field(st, b, name, t)
        if isinstance(b, LV):
            if b.ct.kind == 'rec':
                return Field(b, name)
            if b.ct.kind in ('obj',):
                return self.obj_field(st, Obj(b.read(st).t, b.ct.a[0]), name, t)
            h = self.member_hooks.get((b.ct.kind, name)) or self.member_hooks.get((b.ct, name))
            if h:
                return h(self, st, b, name, t)
        raise Unsupported('member %s of %r' % (name, getattr(b, 'ct', b)))
    member_hooks = {}

    def obj_field(self, st, o, name, t):
        key = o.cls + '.' + name
        h = self.member_hooks.get(key)
        if h:
            return h(self, st, o, name, t)
        if key in FIELDS:
            ct = FIELDS[key]
        else:
            ct = ctype(t)
            FIELDS[key] = ct
        if ct.kind == 'obj':
            # subobject: an object of its own, at a fixed place in its owner
            return Obj(subobject(key)(o.ref), ct.a[0])
        return Heap(key, o.ref, ct)

    def unspec(self, x):
        return x.x if isinstance(x, SpecVar) else x

    def read_ptr(self, st, x):
        x = self.unspec(x)
        if isinstance(x, LV) and not isinstance(x, (Obj, Slice)):
            x = x.read(st)
        return x

    def deref(self, st, p):
        p = self.unspec(p)
        if isinstance(p, Ptr):
            return p.lv
        if isinstance(p, (Obj, Pair)):
            return p
        if isinstance(p, It):
            self.oblige_deref(st, p)
            return self.elem_lv(st, p.cont, p.idx)
        if isinstance(p, FindIt):
            self.oblige(st, 'iterator is not end()', p.present, 'safety')
            if p.extra is not None:
                return Pair(p.val, p.extra)
            return p.val
        if isinstance(p, Val):
            if p.ct.kind == 'ref':
                self.oblige(st, 'pointer is not null', p.t != NULL, 'safety')
                return Obj(p.t, p.ct.a[0])
            if p.ct.kind == 'addr':
                return Mem(p.t)
            h = self.deref_hooks.get(p.ct) or self.deref_hooks.get(p.ct.kind)
            if h:
                return h(self, st, p)
        raise Unsupported('dereference of %r' % (p,))
    deref_hooks = {}

    def oblige_deref(self, st, p):
        n = p.cont.n if isinstance(p.cont, Slice) else p.cont.read(st).len
        self.oblige(st, 'iterator in range', z3.And(0 <= p.idx, p.idx < n), 'safety')

    # -- casts
    def ev_ImplicitCastExpr(self, st, n):
        ck = n.get('castKind')
        e = self._in(n)[-1]
        if ck in CLASS_CASTS:
            cls = norm(qual(n)).rstrip('*').strip()
            if cls not in USER_CLASSES and 'DerivedToBase' in ck and n.get('path'):
                cls = n['path'][-1]['name']
            if cls in USER_CLASSES:
                return self.class_cast(st, self.ev(st, e), cls)
            if re.sub(r'\bconst\b', '', cls).strip() == 'element_type':
                raise Unsupported('class designated by ' + qual(n))
        if ck in ('LValueToRValue',):
            x = self.ev(st, e)
            if isinstance(x, SpecVar):
                return x.x
            return self.read(st, x)
        if ck == 'ArrayToPointerDecay':
            x = self.ev(st, e)
            return It(x, z3.IntVal(0)) if isinstance(x, Heap) and x.key in ARRAYS else x
        if ck in ('NoOp', 'FunctionToPointerDecay', 'UncheckedDerivedToBase', 'DerivedToBase',
                  'BuiltinFnToFnPtr', 'ArrayToPointerDecay', 'ConstructorConversion'):
            return self.ev(st, e)
        if ck == 'UserDefinedConversion':
            return self.ev(st, e)
        if ck == 'LValueBitCast' and ctype(qual(n)).kind == 'obj' and ctype(qual(n)).a[0] == 'user':
            x = self.unspec(self.ev(st, e))
            if isinstance(x, Obj) and x.cls == 'user':
                return Obj(x.ref, 'user')       # the same address, taken for another class
        if ck in ('IntegralCast', 'NullToPointer', 'BitCast', 'IntegralToPointer', 'PointerToIntegral'):
            v = self.rv(st, e)
            if isinstance(v, SPECIAL):
                return v
            ct = ctype(qual(n))
            if ck == 'IntegralCast' or ck == 'NullToPointer':
                return self.conv(v, ct)
            try:
                return self.conv(v, ct)
            except Unsupported:
                return v
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return S(BOOL, to_bool(self.rv(st, e)))
        if ck == 'ToVoid':
            return self.ev(st, e)
        if ck == 'BaseToDerived':
            return self.ev(st, e)
        raise Unsupported('cast ' + str(ck))
    def class_cast(self, st, x, cls):
        """conversion between the classes of one object: the subobject of that class"""
        x = self.unspec(x)
        if isinstance(x, Obj):
            return Obj(as_class(cls, x.ref), x.cls)
        v = self.read(st, x)
        if isinstance(v, Ptr) and isinstance(v.lv, Obj):
            return S(REF(v.lv.cls), as_class(cls, v.lv.ref))
        if isinstance(v, Val) and v.ct.kind in ('ref', 'obj'):
            r = as_class(cls, v.t)
            return S(v.ct, z3.If(v.t == NULL, NULL, r) if v.ct.kind == 'ref' else r)
        raise Unsupported('class cast of %r' % (v,))
    ev_CXXDynamicCastExpr = ev_ImplicitCastExpr
    ev_CXXStaticCastExpr = ev_CStyleCastExpr = ev_CXXReinterpretCastExpr = ev_ImplicitCastExpr
    ev_CXXConstCastExpr = ev_ImplicitCastExpr

    def ev_CXXFunctionalCastExpr(self, st, n):
        ck = n.get('castKind')
        if ck in ('ConstructorConversion', 'NoOp'):
            return self.ev(st, self._in(n)[-1])
        return self.ev_ImplicitCastExpr(st, n)

    # -- operators
    def arith(self, st, op, a, b, ct):
        a, b = self.unspec(a), self.unspec(b)
        if isinstance(a, It) and op in '+-':
            if isinstance(b, It):
                return S(INT, a.idx - b.idx)
            return It(a.cont, a.idx + b.t if op == '+' else a.idx - b.t)
        if not isinstance(a, Val) or not isinstance(b, Val):
            raise Unsupported('arithmetic on %r, %r' % (a, b))
        if a.ct.kind == 'ref' or b.ct.kind == 'ref':
            return self.ref_arith(st, op, a, b)
        x, y = self.as_int(a), self.as_int(b)
        if op == '+':
            r = x + y
        elif op == '-':
            r = x - y
            if ct.kind == 'int' and self.unsigned:
                self.oblige(st, 'no unsigned underflow', r >= 0, 'safety')
        elif op == '*':
            r = mul(x, y)
            if not (z3.is_int_value(x) or z3.is_int_value(y)):
                # size_t multiplication: wraps, commutes
                st.assume(z3.And(r == mul(y, x), 0 <= r, r < U64))
        elif op == '/':
            self.oblige(st, 'no division by zero', y != 0, 'safety')
            r = x / y
        elif op == '%':
            self.oblige(st, 'no division by zero', y != 0, 'safety')
            r = x % y
        elif op == '>>':
            if z3.is_int_value(y):
                r = x / (1 << y.as_long())
            else:
                r = shr_(x, y)
                self.oblige(st, 'shift count in range', z3.And(0 <= y, y < 64), 'safety')
                st.assume(z3.Implies(z3.And(0 <= x, x < U64), z3.And(0 <= r, r < pow2(64 - y))))
        elif op == '<<':
            if z3.is_int_value(x) and x.as_long() == 1:
                r = pow2(y)
                lim = 31 if norm(self.op_type) == 'int' else 64
                self.oblige(st, 'shift count in range', z3.And(0 <= y, y < lim), 'safety')
                st.assume(r >= 1)
                st.assume(z3.Implies(y >= 1, r >= 2))
                st.assume(z3.Implies(y < 31, r < 1 << 31))
            else:
                r = z3.Function('shl', I, I, I)(x, y)
        elif op in '&|^':
            if a.ct.kind == 'bool' and b.ct.kind == 'bool':
                f = {'&': z3.And, '|': z3.Or, '^': z3.Xor}[op]
                return S(BOOL, f(a.t, b.t))
            r = z3.Function({'&': 'band', '|': 'bor', '^': 'bxor'}[op], I, I, I)(x, y)
        else:
            raise Unsupported('operator ' + op)
        return S(ct, r)
    unsigned = False
    op_type = ''

    def ref_arith(self, st, op, a, b):
        """difference of addresses of elements of one vector of objects"""
        if op == '-':
            f = z3.Function('objidx', Ref, I)
            return S(INT, f(a.t) - f(b.t))
        raise Unsupported('pointer arithmetic on objects')

    def as_int(self, v):
        if v.ct.kind == 'bool':
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        return v.t

    def ev_BinaryOperator(self, st, n):
        op = n['opcode']
        l, r = self._in(n)
        if op == ',':
            self.ev(st, l)
            return self.ev(st, r)
        if op in ('&&', '||'):
            a = self.cond(st, l)
            s = st.copy()
            s.log = set()
            s.assume(a if op == '&&' else z3.Not(a), True)
            na = len(s.ghost.get('aborts', ()))
            s0 = (dict(s.env), dict(s.heap))
            b = self.cond(s, r)
            if any(w[0] == 'h' or w[1] in st.env for w in s.log):
                raise Unsupported('side effect in the right operand of ' + op)
            self.absorb(st, s, a if op == '&&' else z3.Not(a))
            f = z3.And(a, b) if op == '&&' else z3.Or(a, b)
            return S(BOOL, f)
        if op == '=':
            rv = self.rv(st, r)
            lv = self.ev(st, l)
            return self.assign(st, lv, rv)
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return S(BOOL, self.compare(st, op, self.rv(st, l), self.rv(st, r)))
        a, b = self.rv(st, l), self.rv(st, r)
        t = qual(n)
        self.unsigned = 'unsigned' in t
        self.op_type = t
        return self.arith(st, op, a, b, ctype(t))

    def absorb(self, st, s, cond):
        """keep the facts learnt while evaluating under a condition: what the
        evaluation excluded did not return"""
        for b, f in s.pc[len(st.pc):]:
            if not f.eq(cond):
                st.pc.append((False, z3.Implies(cond, f)))
        st.ghost['aborts'] = s.ghost.get('aborts', ())
        for k, v in s.heap.items():
            if k not in st.heap:
                st.heap[k] = v

    def assign(self, st, lv, rv):
        if isinstance(lv, SpecVar):
            st.log.add(('v', lv.vid))
            st.env[lv.vid] = self.unspec(rv)
            return lv
        if isinstance(lv, LV):
            if isinstance(rv, It) and lv.ct == ADDR and isinstance(rv.cont, Heap):
                rv = S(ADDR, array_addr(rv.cont.key, rv.cont.ref) + rv.idx)
            if isinstance(rv, FnRef) and lv.ct == ADDR:
                rv = S(ADDR, self.fn_addr(rv))
            if isinstance(rv, Val):
                rv = self.conv(rv, lv.ct)
                lv.write(st, rv)
                return lv
        if isinstance(lv, Ptr) or isinstance(lv, Val):
            raise Unsupported('assignment target')
        raise Unsupported('assignment of %r' % (rv,))

    def compare(self, st, op, a, b):
        a, b = self.unspec(a), self.unspec(b)
        if isinstance(a, FnRef):
            a = S(ADDR, self.fn_addr(a))
        if isinstance(b, FnRef):
            b = S(ADDR, self.fn_addr(b))
        if isinstance(a, It) and isinstance(b, It):
            x, y = a.idx, b.idx
        elif isinstance(a, FindIt) and isinstance(b, (EndIt, It)):
            return z3.Not(a.present) if op == '==' else a.present
        elif isinstance(b, FindIt) and isinstance(a, (EndIt, It)):
            return z3.Not(b.present) if op == '==' else b.present
        elif isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.cmp_ptr(st, op, a, b)
        elif isinstance(a, Val) and isinstance(b, Val):
            if a.ct.kind in ('ref', 'obj') or b.ct.kind in ('ref', 'obj'):
                x = self.as_ref(a)
                y = self.as_ref(b)
                if x is None or y is None:
                    raise Unsupported('pointer comparison')
            elif a.ct.kind == 'bool' and b.ct.kind == 'bool':
                return a.t == b.t if op == '==' else a.t != b.t
            else:
                x, y = self.as_int(a), self.as_int(b)
        else:
            raise Unsupported('comparison of %r and %r' % (a, b))
        return {'==': lambda: x == y, '!=': lambda: x != y, '<': lambda: x < y,
                '>': lambda: x > y, '<=': lambda: x <= y, '>=': lambda: x >= y}[op]()

    def as_ref(self, v):
        if v.ct.kind in ('ref', 'obj'):
            return v.t
        if z3.is_int_value(v.t) and v.t.as_long() == 0:
            return NULL
        return None

    def cmp_ptr(self, st, op, a, b):
        def r(x):
            if isinstance(x, Ptr):
                if isinstance(x.lv, Obj):
                    return x.lv.ref
                return None
            return self.as_ref(x)
        x, y = r(a), r(b)
        if x is None or y is None:
            return self.cmp_ptr_hook(st, op, a, b)
        return x == y if op == '==' else x != y

    def cmp_ptr_hook(self, st, op, a, b):
        # pointer to a local or field is never null
        for p, q in ((a, b), (b, a)):
            if isinstance(p, Ptr) and isinstance(q, Val) and z3.is_int_value(q.t):
                return z3.BoolVal(op == '!=')
        raise Unsupported('comparison of addresses')

    def ev_CompoundAssignOperator(self, st, n):
        l, r = self._in(n)
        op = n['opcode'][:-1]
        b = self.rv(st, r)
        lv = self.ev(st, l)
        a = self.read(st, lv)
        t = qual(n)
        self.unsigned = 'unsigned' in t
        v = self.arith(st, op, a, b, lv.ct if isinstance(lv, LV) else INT)
        return self.assign(st, lv, v)

    def ev_UnaryOperator(self, st, n):
        op = n['opcode']
        e = self._in(n)[0]
        if op in ('++', '--'):
            lv = self.ev(st, e)
            return self.incdec(st, lv, 1 if op == '++' else -1, n.get('isPostfix'),
                               'unsigned' in qual(n))
        if op == '!':
            return S(BOOL, z3.Not(self.cond(st, e)))
        if op == '*':
            return self.deref(st, self.read_ptr(st, self.ev(st, e)))
        if op == '&':
            x = self.ev(st, e)
            if isinstance(x, FnRef):
                return S(ADDR, self.fn_addr(x))
            return self.addr_of(st, x)
        if op == '-':
            v = self.rv(st, e)
            return S(v.ct, -v.t)
        if op == '+':
            return self.rv(st, e)
        if op == '~':
            v = self.rv(st, e)
            if v.ct.kind == 'bits':
                return self.bits_not(st, v)
            return S(v.ct, z3.Function('bnot', I, I)(v.t))
        if op == '__extension__':
            return self.ev(st, e)
        raise Unsupported('unary ' + op)

    def addr_of(self, st, x):
        x = self.unspec(x)
        if isinstance(x, Obj):
            return S(REF(x.cls), x.ref)
        if isinstance(x, Mem):
            return S(ADDR, x.addr)
        if isinstance(x, LV) and x.ct.kind == 'obj':
            return S(REF(x.ct.a[0]), x.read(st).t)
        if isinstance(x, LV):
            return Ptr(x)
        raise Unsupported('address of %r' % (x,))

    def fn_addr(self, f):
        d = f.node['referencedDecl']
        nm = self.u.by_id.get(d['id'], {}).get('mangledName', d.get('name'))
        return z3.Const('fn:' + str(nm), I)

    def incdec(self, st, lv, d, postfix, unsigned=False):
        if isinstance(lv, SpecVar):
            old = lv.x
            if not isinstance(old, It):
                raise Unsupported('increment of %r' % (old,))
            st.log.add(('v', lv.vid))
            new = It(old.cont, old.idx + d)
            st.env[lv.vid] = new
            return old if postfix else SpecVar(lv.vid, new)
        old = self.read(st, lv)
        if not isinstance(old, Val) or old.ct.kind not in ('int', 'addr'):
            raise Unsupported('increment')
        new = S(old.ct, old.t + d)
        if d < 0 and unsigned:
            self.oblige(st, 'no unsigned underflow', new.t >= 0, 'safety')
        lv.write(st, new)
        return old if postfix else lv

    def ev_ConditionalOperator(self, st, n):
        c, a, b = self._in(n)
        cc = self.cond(st, c)
        s1, s2 = st.copy(), st.copy()
        log = st.log
        s1.log, s2.log = set(), set()
        s1.assume(cc, True)
        s2.assume(z3.Not(cc), True)
        if n.get('valueCategory') == 'lvalue':
            x, y = self.ev(s1, a), self.ev(s2, b)
            if isinstance(x, Mem) and isinstance(y, Mem) and x.ct == y.ct:
                pass
            else:
                x, y = [self.read(q, self.unspec(v)) if v is not None else v for q, v in ((s1, x), (s2, y))]
        else:
            x, y = self.rv(s1, a), self.rv(s2, b)
        dead1, dead2 = s1.ghost.get('dead'), s2.ghost.get('dead')
        if any(w[0] == 'h' or w[1] in st.env for q, d in ((s1, dead1), (s2, dead2)) for w in q.log if not d):
            raise Unsupported('side effect in ?:')
        prior = st.ghost.get('aborts', ())
        ab = tuple(prior) + tuple(q for q in s1.ghost.get('aborts', ()) + s2.ghost.get('aborts', ())
                                  if not any(q is p for p in prior))
        if not dead1:
            self.absorb(st, s1, cc)
        if not dead2:
            self.absorb(st, s2, z3.Not(cc))
        st.ghost['aborts'] = ab
        if dead1 and dead2:
            st.ghost['dead'] = True
            st.pc.append((True, z3.BoolVal(False)))
            return None
        if dead1:          # an assertion: what follows knows it held
            st.assume(z3.Not(cc), True)
            return y
        if dead2:
            st.assume(cc, True)
            return x
        if norm(qual(n)) == 'void':
            return None
        return self.merge_val(cc, x, y)

    def merge_val(self, c, x, y):
        if x is y:
            return x
        if isinstance(x, Mem) and isinstance(y, Mem):
            return Mem(z3.If(c, x.addr, y.addr), x.ct)
        if isinstance(x, Val) and isinstance(y, Val):
            if x.ct != y.ct:
                try:
                    y = self.conv(y, x.ct)
                except Unsupported:
                    x = self.conv(x, y.ct)
            return Val(x.ct, {k: (x.c[k] if x.c[k].eq(y.c[k]) else z3.If(c, x.c[k], y.c[k]))
                              for k in x.c})
        if isinstance(x, It) and isinstance(y, It) and x.cont is y.cont:
            return It(x.cont, z3.If(c, x.idx, y.idx))
        if isinstance(x, Obj) and isinstance(y, Obj) and x.cls == y.cls:
            return x if x.ref.eq(y.ref) else Obj(z3.If(c, x.ref, y.ref), x.cls)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and same_lv(x.lv, y.lv):
            return x
        if isinstance(x, LV) and isinstance(y, LV) and same_lv(x, y):
            return x
        if x is None and y is None:
            return None
        ad = lambda v: S(ADDR, v.lv.addr) if isinstance(v, Ptr) and isinstance(v.lv, Mem) else v
        if isinstance(ad(x), Val) and isinstance(ad(y), Val) and ad(x).ct == ad(y).ct == ADDR:
            return S(ADDR, z3.If(c, ad(x).t, ad(y).t))
        raise Unsupported('join of %r and %r' % (x, y))

    def ev_ArraySubscriptExpr(self, st, n):
        a, b = self._in(n)
        x = self.unspec(self.ev(st, a))
        if isinstance(x, LV) and not isinstance(x, Slice) and x.ct.kind == 'vec':
            i = self.rv(st, b)       # an array
            m = re.search(r'\[(\d+)\]$', norm(qual(strip(a))))
            self.oblige(st, 'array index in range', z3.And(0 <= i.t, i.t < (int(m.group(1)) if m else x.read(st).len)), 'safety')
            return self.elem_lv(st, x, i.t)
        p, i = self.read_ptr(st, x), self.rv(st, b)
        if isinstance(p, Val) and p.ct.kind in ('addr', 'opaque'):
            return Mem(p.t + i.t)
        if isinstance(p, Ptr):
            h = self.member_hooks.get('[]')
            if h:
                return h(self, st, p.lv, i)
        if isinstance(p, It):
            return self.deref(st, It(p.cont, p.idx + i.t))
        if isinstance(p, LV):
            return self.member_hooks['[]'](self, st, p, i)
        raise Unsupported('subscript of %r' % (p,))

    def ev_UnaryExprOrTypeTraitExpr(self, st, n):
        t = n.get('argType', {}).get('desugaredQualType') or n.get('argType', {}).get('qualType', '')
        if t.endswith('*') or t in ('unsigned long', 'long'):
            return S(INT, z3.IntVal(8))     # LP64, as compiled here
        return S(INT, z3.Const('sizeof:' + str(t or n.get('id')), I))

    def ev_CXXTypeidExpr(self, st, n):
        inner = self._in(n)
        if not inner or 'typeArg' in n or 'adjustedTypeArg' in n:
            t = n.get('typeArg') or n.get('adjustedTypeArg') or {}
            return Mem(z3.Const('typeid:' + norm(t.get('desugaredQualType') or t.get('qualType', '')), I))
        x = self.unspec(self.ev(st, inner[0]))
        v = self.read(st, x)
        if isinstance(x, Obj):
            return Mem(dyn_type(x.ref))
        if isinstance(v, Val) and v.ct.kind in ('obj', 'ref'):
            return Mem(dyn_type(v.t))
        raise Unsupported('typeid of %r' % (v,))

    def ev_InitListExpr(self, st, n):
        ct = ctype(qual(n))
        if ct.kind == 'rec':
            c = {}
            fs = RECORDS[ct.a[0]]
            inner = self._in(n)
            for (f, t), e in zip(fs, inner):
                v = self.rv(st, e)
                if isinstance(v, Ptr) and isinstance(v.lv, Obj):
                    v = S(REF(v.lv.cls), v.lv.ref)
                c.update(pre(f, self.conv(v, t).c))
            for f, t in fs[len(inner):]:
                c.update(pre(f, default(t).c))
            return Val(ct, c)
        inner = self._in(n)
        if norm(qual(n)).startswith('range<'):
            a, b = [self.read_ptr(st, self.ev(st, e)) for e in inner]
            return Range(a, b)
        if not inner:
            return default(ct)
        if len(inner) == 1:
            return self.conv(self.rv(st, inner[0]), ct)
        raise Unsupported('initialiser list for ' + qual(n))

    def ev_LambdaExpr(self, st, n):
        return Closure(n)

    # -- construction
    def ev_CXXConstructExpr(self, st, n):
        t = qual(n)
        for rx, h in self.ctor_hooks:
            if re.search(rx, norm(t)):
                return h(self, st, n)
        try:
            rct = ctype(t)
        except Unsupported:
            rct = None
        if rct is not None and rct.kind == 'rec':
            allargs = self._in(n)
            if n.get('elidable') and len(allargs) == 1:
                return self.rv(st, allargs[0])
            fn = self.ctor_fn(t, n['ctorType']['qualType'] if 'ctorType' in n else '', len(allargs))
            if fn is not None:
                obj = Tmp(mkfresh(rct, 'obj'))
                cell = ('obj', next(_fresh))
                st.env[cell] = obj.v
                st.facts_wf(rct, obj.v.c)
                this = Var(cell, rct, 'obj')
                self.invoke(st, fn, this, allargs)
                if st.ghost.get('dead'):
                    return obj.v
                return st.env[cell]
        args = [c for c in self._in(n) if c['kind'] != 'CXXDefaultArgExpr']
        if re.match(r'pair<', norm(t)) and len(args) == 2:
            return Pair(*[self.read(st, self.unspec(self.ev(st, a))) for a in args])
        if norm(t).startswith('range<'):
            if len(args) == 1:
                return self.rv(st, args[0])
            a, b = [self.read_ptr(st, self.ev(st, e)) for e in args]
            return Range(a, b)
        if len(args) == 1:
            x = self.ev(st, args[0])
            x = self.unspec(x)
            if isinstance(x, SPECIAL):
                return x
            v = self.read(st, x)
            ct = ctype(t)
            if isinstance(v, SPECIAL):
                return v
            if isinstance(v, Val) and ct.kind == v.ct.kind and ct.kind in ('vec', 'set', 'map', 'rec', 'bits', 'obj', 'opaque'):
                return Val(v.ct, v.c)
            if ct.kind == 'vec' and v.ct.kind == 'int':     # vector(n)
                return self.vec_sized(st, ct, v.t)
            if ct.kind == 'bits' and v.ct.kind == 'int':
                return Val(BITS, {'len': v.t, 'bits': z3.K(I, z3.BoolVal(False))})
            if ct.kind == 'opaque':
                return S(ct, fresh(I, 'tmpobj'))
            return self.conv(v, ct)
        if not args:
            return default(ctype(t))
        raise Unsupported('constructor of ' + norm(t))
    ev_CXXTemporaryObjectExpr = ev_CXXConstructExpr
    ctor_hooks = []

    def ctor_fn(self, t, ctype_, nargs):
        """the library constructor a construction expression designates"""
        if not hasattr(self.u, 'ctors'):
            self.u.ctors = {}
            for f in self.u.by_mangled.values():
                if f['kind'] == 'CXXConstructorDecl':
                    self.u.ctors.setdefault(class_key(ctor_class(self.u.name(f))), []).append(f)
        cands = [f for f in self.u.ctors.get(class_key(norm(t)), ()) if len(params(f)) == nargs]
        if len(cands) > 1:
            exact = [f for f in cands if squeeze(norm(f['type'].get('desugaredQualType') or f['type']['qualType'])) == squeeze(norm(ctype_))]
            ref = lambda q: re.sub(r'[^&]', '', ','.join(split_targs(q[q.index('(') + 1:q.rindex(')')])))
            if len(exact) > 1:   # const and reference qualifiers
                tight = [f for f in exact if squeeze(f['type']['qualType']).split('noexcept')[0] == squeeze(ctype_).split('noexcept')[0]]
                exact = tight or exact
            if not exact and __import__('os').environ.get('DBG'): print('CT', norm(ctype_), [(f['type']['qualType'], f['type'].get('desugaredQualType')) for f in cands])
            cands = exact
        if len(cands) > 1:
            raise Unsupported('ambiguous constructor of ' + norm(t))
        return cands[0] if cands else None

    def ctor_inits(self, st, fn, this):
        """member and base initialisers, in the order clang lists them"""
        for c in fn.get('inner', ()):
            if not c or c.get('kind') != 'CXXCtorInitializer':
                continue
            e = [x for x in c.get('inner', ()) if x]
            if 'anyInit' in c:
                f = c['anyInit']['name']
                if e and e[0].get('kind') == 'CXXDefaultInitExpr' and not self._in(e[0]):
                    d = [x for x in self.u.by_id.get(c['anyInit']['id'], {}).get('inner', ()) if x and x.get('kind', '').endswith(('Expr', 'Literal'))]
                    if len(d) != 1:
                        raise Unsupported('default initialiser of ' + f)
                    e = d
                if e and re.match(r'(class )?(boost::openmethod::)?(detail::)?static_list<', qual(e[0])) and e[0].get('kind') == 'CXXConstructExpr' and self.zero_init_kept('static_list'):
                    continue
                v = self.rv(st, e[0]) if e else None
                lv = self.member(st, this, f, c['anyInit']['type'].get('desugaredQualType') or c['anyInit']['type']['qualType'])
                if v is None:
                    continue
                if isinstance(v, Ptr) and isinstance(v.lv, Obj):
                    v = S(REF(v.lv.cls), v.lv.ref)
                if not isinstance(v, Val):
                    raise Unsupported('initialiser of ' + f)
                self.assign(st, lv, v)
            else:
                x = e[0]
                while x.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'MaterializeTemporaryExpr'):
                    x = self._in(x)[0]
                if x.get('kind') != 'CXXConstructExpr':
                    raise Unsupported('base initialiser ' + x.get('kind'))
                t = qual(x)
                g = self.ctor_fn(t, x['ctorType']['qualType'] if 'ctorType' in x else '', len(self._in(x)))
                if g is None:
                    if not self._in(x):
                        continue      # trivial default constructor
                    raise Unsupported('base constructor of ' + norm(t))
                self.invoke(st, g, this, self._in(x))
            if st.ghost.get('dead'):
                return

    pack_hooks = []
    def ev_SizeOfPackExpr(self, st, n):
        for h in self.pack_hooks:
            k = h(self, n.get('name'))
            if k is not None:
                return S(INT, z3.IntVal(k))
        raise Unsupported('sizeof...(%s)' % n.get('name'))
    def sibling(self, fn, name):
        """the declaration of a member of the class of fn"""
        p = self.u.by_id.get(self.u.parent.get(fn['id']))
        for c in (p or {}).get('inner', ()):
            if c and c.get('name') == name:
                return c
    def array_len(self, fn, name):
        d = self.sibling(fn, name)
        m = re.search(r'\[(\d+)\]$', d['type'].get('desugaredQualType') or d['type']['qualType']) if d else None
        if m is None:
            raise Skeleton('array %s not found' % name)
        return int(m.group(1))

    def zero_init_kept(self, name):
        """the default constructor is trivial: static storage stays as it is"""
        ds = [d for d in self.u.by_id.values() if d.get('kind') == 'ClassTemplateSpecializationDecl' and d.get('name') == name]
        return bool(ds) and all(d.get('definitionData', {}).get('defaultCtor', {}).get('trivial') for d in ds)

    def vec_sized(self, st, ct, n):
        et = ct.a[0]
        if et.kind == 'obj':
            raise Unsupported('vector of objects of given size')
        v = mkfresh(ct, 'vecn')
        v.c['len'] = n
        d = default(et)
        i = z3.Int('vs_i')
        for k, s in flatten(et).items():
            a = v.c['arr' + ('.' + k if k else '')]
            if et.kind == 'vec' and k != 'len':
                continue
            st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a[i] == d.c[k]), patterns=[a[i]]))
        return v

    def bits_not(self, st, v):
        r = fresh(BitArr, 'not')
        i = z3.Int('bn_i')
        st.assume(z3.ForAll([i], r[i] == z3.And(0 <= i, i < v.len, z3.Not(v.bits[i])), patterns=[r[i]]))
        return Val(BITS, {'len': v.len, 'bits': r})

def class_key(t):
    """a class name without its defaulted arguments"""
    return re.sub(r',void(?=>)', '', re.sub(r',(std::)?default_delete<\w+>', '', squeeze(t)))

class SpecVar:
    """a variable that holds an iterator, closure, ..."""
    def __init__(self, vid, x):
        self.vid, self.x = vid, x

def same_lv(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, Var):
        return a.vid == b.vid
    if isinstance(a, Heap):
        return a.key == b.key and (a.ref is b.ref or (a.ref is not None and b.ref is not None and a.ref.eq(b.ref)))
    if isinstance(a, Obj):
        return a.ref.eq(b.ref)
    if isinstance(a, Elem):
        return same_lv(a.base, b.base) and a.idx.eq(b.idx)
    if isinstance(a, Field):
        return a.f == b.f and same_lv(a.base, b.base)
    if isinstance(a, Mem):
        return a.addr.eq(b.addr)
    return False

bits_and = z3.Function('bits_and', BitArr, BitArr, BitArr)
bits_or = z3.Function('bits_or', BitArr, BitArr, BitArr)

_subobj = {}
def subobject(key):
    if key not in _subobj:
        _subobj[key] = z3.Function('sub.' + key, Ref, Ref)
    return _subobj[key]

def named(st, t):
    """a name for a term that cannot occur in a pattern"""
    seen, todo = set(), [t]
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
            n = fresh(t.sort(), 'named')
            st.assume(n == t)
            return n
        todo.extend(u.children())
    return t
def forall(vs, f, pats):
    try:
        return z3.ForAll(vs, f, patterns=pats)
    except z3.Z3Exception:          # not a pattern in this state (e.g. over a constant array)
        return z3.ForAll(vs, f)
oowner = z3.Function('objowner', Ref, Ref)      # object whose container an element was made in
subtag = z3.Function('subtag', Ref, I)          # 0: an object made by itself, not a member of another
USER_CLASSES = set()          # classes of the program (set by contracts)
CLASS_CASTS = ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'Dynamic')
whole = z3.Function('whole', Ref, Ref)         # the complete object
_sub = {}
def sub_class(cls):
    if cls not in _sub:
        _sub[cls] = z3.Function('sub:' + cls, Ref, Ref)
    return _sub[cls]
def as_class(cls, r):
    return sub_class(cls)(whole(r))
QUIET_CLASSES = set()       # user classes whose axioms only the contracts that name them need
def class_axioms(classes=None):
    o, r = z3.Consts('ca_o ca_r', Ref)
    out = []
    for c in sorted(USER_CLASSES - QUIET_CLASSES if classes is None else classes):
        f = sub_class(c)
        out += [z3.ForAll([o], z3.And(whole(f(o)) == o, dyn_type(f(o)) == dyn_type(o), f(o) != NULL), patterns=[f(o)])]
    out.append(z3.ForAll([r], dyn_type(whole(r)) == dyn_type(r), patterns=[whole(r)]))
    return out
dyn_type = z3.Function('dyn_type', Ref, I)    # &typeid(object)
ref_addr = z3.Function('addr_of', Ref, I)
pow2 = z3.Function('pow2', I, I)
shr_ = z3.Function('shr', I, I, I)
prod_ = z3.Function('prod', I, I, I)
U64 = 1 << 64
mul_uf = z3.Function('prod', I, I, I)
def mul(x, y):
    if z3.is_int_value(x) or z3.is_int_value(y):
        return x * y
    return mul_uf(x, y)

def arithmetic(f):
    """the formula with `prod` read as multiplication"""
    x, y = z3.Var(0, I), z3.Var(1, I)
    return z3.substitute_funs(f, (mul_uf, x * y))

# -------------------------------------------------------------------- calls
NOOP_METHODS = {'reserve', 'shrink_to_fit'}

class Calls:
    def callee_name(self, decl_id, fallback):
        d = self.u.by_id.get(decl_id)
        if d is not None and 'mangledName' in d:
            return self.dem(d['mangledName'])
        return fallback

    def extern_for(self, fn):
        nm = self.u.name(fn)
        for rx, h in self.externs:
            if re.search(rx, nm):
                return h
        return None

    def ev_CXXOperatorCallExpr(self, st, n):
        inner = self._in(n)
        if self.is_noise(n):
            return None
        op = strip(inner[0])
        name = op['referencedDecl']['name'] if op.get('kind') == 'DeclRefExpr' else op.get('name')
        did = op.get('referencedDecl', {}).get('id') or op.get('referencedMemberDecl')
        args = inner[1:]
        o = name[len('operator'):]
        fn = self.u.definition(did)
        if fn is not None and o == '=' and (fn.get('isImplicit') or fn.get('explicitlyDefaulted')):
            # the assignment of a union has an empty body in the AST: it copies the bytes
            if not [x for x in (body(fn) or {}).get('inner', ()) if x and x.get('kind') != 'ReturnStmt']:
                return self.assign(st, self.ev(st, args[0]), self.rv(st, args[1]))
        if fn is not None:
            return self.call_operator_fn(st, n, fn, args)
        x0 = norm(qual(args[0]))
        for (rx, oo), h in self.op_hooks.items():
            if oo == o and re.match(rx, x0):
                return h(self, st, n, op, args)
        if o == '()':
            f = self.unspec(self.ev(st, args[0]))
            if isinstance(f, Closure):
                return self.call_closure(st, f, [self.ev(st, a) for a in args[1:]])
            if isinstance(f, LV) and norm(qual(args[0])).startswith('uniform_int_distribution<'):
                r = fresh(I, 'random')       # any value
                st.assume(z3.And(0 <= r, r < U64))
                return S(INT, r)
            raise Unsupported('call of %r' % (f,))
        if o == '->':
            return self.op_arrow(st, args[0])
        if o == '*' and len(args) == 1:
            return self.deref(st, self.read_ptr(st, self.ev(st, args[0])))
        if o in ('++', '--'):
            lv = self.ev(st, args[0])
            return self.incdec(st, lv, 1 if o == '++' else -1, len(args) == 2)
        if o == '[]':
            b = self.unspec(self.ev(st, args[0]))
            return self.index(st, b, args[1])
        if o in ('==', '!=', '<', '>', '<=', '>='):
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            if isinstance(a, Val) and a.ct.kind == 'bits':
                e = z3.And(a.len == b.len, a.bits == b.bits)
                return S(BOOL, e if o == '==' else z3.Not(e))
            return S(BOOL, self.compare(st, o, a, b))
        if o == '=':
            lv = self.ev(st, args[0])
            rv = self.rv(st, args[1])
            if isinstance(lv, Val) and lv.ct.kind == 'bool':
                raise Unsupported('assignment to a bit value')
            return self.assign(st, lv, rv)
        if o in ('+', '-'):
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            if isinstance(a, Val) and isinstance(b, Val) and a.ct.kind not in ('int', 'addr', 'ref'):
                raise Unsupported('operator' + o)
            return self.arith(st, o, a, b, INT)
        if o in ('+=', '-='):
            lv = self.ev(st, args[0])
            b = self.rv(st, args[1])
            if isinstance(lv, SpecVar):
                return self.assign(st, lv, self.arith(st, o[0], lv.x, b, INT))
            raise Unsupported('operator' + o)
        if o in ('&', '|') and len(args) == 2:
            a, b = self.rv(st, args[0]), self.rv(st, args[1])
            if a.ct.kind == 'bits':
                return self.bits_op(st, o, a, b)
        if o in ('&=', '|=') and len(args) == 2:
            lv = self.ev(st, args[0])
            a, b = self.read(st, lv), self.rv(st, args[1])
            if isinstance(a, Val) and a.ct.kind == 'bits':
                lv.write(st, self.bits_op(st, o[0], a, b))
                return lv
        if o == '~':
            a = self.rv(st, args[0])
            if a.ct.kind == 'bits':
                return self.bits_not(st, a)
        if o == '!' and len(args) == 1:
            return S(BOOL, z3.Not(self.cond(st, args[0])))
        raise Unsupported('operator%s on %s' % (o, norm(qual(args[0]))))

    def bits_op(self, st, o, a, b):
        self.oblige(st, 'bitset operands have the same size', a.len == b.len, 'safety')
        f, fn = (z3.And, bits_and) if o == '&' else (z3.Or, bits_or)
        r = fn(a.bits, b.bits)
        i = z3.Int('bo_i')
        x, y = z3.Consts('bo_x bo_y', BitArr)
        st.assume(z3.ForAll([i, x, y], fn(x, y)[i] == f(x[i], y[i]), patterns=[fn(x, y)[i]]))
        return Val(BITS, {'len': a.len, 'bits': r})

    def op_arrow(self, st, a):
        x = self.unspec(self.ev(st, a))
        x = self.read_ptr(st, x)
        lv = self.deref(st, x)
        if isinstance(lv, Obj):
            return S(REF(lv.cls), lv.ref)
        if isinstance(lv, LV):
            return Ptr(lv)
        return lv   # Pair, Val

    def index(self, st, b, argn):
        if isinstance(b, Val):
            b = Tmp(b)
        if isinstance(b, Slice):
            i = self.rv(st, argn)
            self.oblige(st, 'index in range', z3.And(0 <= i.t, i.t < b.n), 'safety')
            return b.fn(st, i.t)
        if not isinstance(b, LV):
            raise Unsupported('index of %r' % (b,))
        if b.ct.kind == 'vec':
            i = self.rv(st, argn)
            self.oblige(st, 'index in range',
                        z3.And(0 <= i.t, i.t < b.read(st).len), 'safety')
            return self.elem_lv(st, b, i.t)
        if b.ct.kind == 'bits':
            i = self.rv(st, argn)
            self.oblige(st, 'bit index in range',
                        z3.And(0 <= i.t, i.t < b.read(st).len), 'safety')
            return Bit(b, i.t)
        if b.ct.kind == 'map':
            k = self.rv(st, argn)
            kt = keyterm(self.conv(k, b.ct.a[0]))
            v = b.read(st)
            # insert a default value when absent
            c = dict(v.c)
            d = default(b.ct.a[1])
            present = v.dom[kt]
            for kk, t in d.c.items():
                nme = 'val' + ('.' + kk if kk else '')
                c[nme] = z3.If(present, v.c[nme], z3.Store(v.c[nme], kt, t))
            c['dom'] = z3.Store(v.dom, kt, z3.BoolVal(True))
            b.write(st, Val(b.ct, c))
            return MapElem(b, kt)
        raise Unsupported('index of %r' % (b.ct,))

    # -- calls of library functions
    def call_operator_fn(self, st, n, fn, args):
        if fn['kind'] == 'CXXMethodDecl' and fn.get('storageClass') != 'static':
            this = self.unspec(self.ev(st, args[0]))
            if isinstance(this, Val):
                this = Tmp(this)
            if isinstance(this, Closure):
                return self.call_closure(st, this, [self.ev(st, a) for a in args[1:]])
            return self.invoke(st, fn, this, args[1:])
        return self.invoke(st, fn, None, args)

    def ev_CallExpr(self, st, n):
        inner = self._in(n)
        if self.is_noise(n):
            return None
        c = strip(inner[0])
        args = inner[1:]
        if c.get('kind') == 'DeclRefExpr':
            d = c['referencedDecl']
            if d['kind'] in ('ParmVarDecl', 'VarDecl'):
                return self.call_ptr(st, self.rv(st, c), args, n)
            return self.call_named(st, n, d['id'], d.get('name', ''), None, args)
        if c.get('kind') == 'MemberExpr':
            return self.call_named(st, n, c.get('referencedMemberDecl'), c.get('name', ''), None, args)
        return self.call_ptr(st, self.rv(st, c), args, n)

    def call_ptr(self, st, f, args, n):
        h = self.ptr_call_hook
        if h:
            return h(self, st, f, [self.ev(st, a) for a in args], n)
        raise Unsupported('call through a pointer')
    ptr_call_hook = None

    def call_named(self, st, n, did, name, this, args):
        fn = self.u.definition(did)
        nm = self.callee_name(did, name)
        if name in ('abort', 'terminate', '__assert_fail') and (fn is None):
            st.ghost['aborts'] = st.ghost.get('aborts', ()) + (st.copy(),)
            st.ghost['dead'] = True
            st.pc.append((True, z3.BoolVal(False)))
            return None
        for rx, h in self.externs:
            if re.search(rx, nm):
                self.used_externs.add(rx)
                return h(self, st, n, this, args)
        if fn is not None:
            return self.invoke(st, fn, this, args)
        h = getattr(self, 'std_' + name, None)
        if h is not None:
            return h(st, n, args)
        raise Unsupported('call of ' + nm)

    def ev_CXXMemberCallExpr(self, st, n):
        inner = self._in(n)
        if self.is_noise(n):
            return None
        me = strip(inner[0])
        if me.get('kind') != 'MemberExpr':
            raise Unsupported('member call through ' + me.get('kind'))
        args = inner[1:]
        name = me.get('name', '')
        did = me.get('referencedMemberDecl')
        obj = self.ev(st, self._in(me)[0])
        if me.get('isArrow'):
            obj = self.deref(st, self.read_ptr(st, obj))
        obj = self.unspec(obj)
        if isinstance(obj, Val):
            obj = Tmp(obj)
        fn = self.u.definition(did)
        nm = self.callee_name(did, name)
        for rx, h in self.externs:
            if re.search(rx, nm):
                self.used_externs.add(rx)
                return h(self, st, n, obj, args)
        if fn is not None and not (isinstance(obj, LV) and not isinstance(obj, Slice)
                                   and obj.ct.kind in ('vec', 'set', 'map', 'bits')):
            return self.invoke(st, fn, obj, args)
        if isinstance(obj, Slice) or (isinstance(obj, LV) and obj.ct.kind in ('vec', 'set', 'map', 'bits')):
            h = getattr(self, 'm_%s_%s' % ('vec' if isinstance(obj, Slice) else obj.ct.kind, name), None)
            if h is None:
                raise Unsupported('container operation ' + name)
            return h(st, obj, args)
        if name == 'operator bool' and isinstance(obj, LV) and obj.ct.kind == 'bool':
            return obj.read(st)
        if name == 'operator bool' and isinstance(obj, LV):
            return S(BOOL, to_bool(obj.read(st)))
        h = self.method_hooks.get((getattr(obj, 'ct', None), name))
        if h is not None:
            return h(self, st, obj, args, n)
        raise Unsupported('method ' + nm + ' of %r' % (getattr(obj, 'ct', obj),))

    method_hooks = {}
    op_hooks = {}
    def std_exchange(self, st, n, args):
        lv = self.ev(st, args[0])
        v = self.rv(st, args[1])
        old = self.read(st, lv)
        self.assign(st, lv, v)
        return old

    def bind_args(self, st, fn, args):
        out = []
        ps = params(fn)
        vals = []
        for i, p in enumerate(ps):
            a = args[i] if i < len(args) else None
            if a is None:
                raise Unsupported('missing argument')
            t = qual(p)
            isref = t.rstrip().endswith('&') or p['type']['qualType'].rstrip().endswith('&')
            x = self.ev(st, a) if isinstance(a, dict) else a
            if isref:
                if isinstance(x, Val):
                    x = Tmp(x)
                if isinstance(x, SpecVar):
                    x = x
            else:
                x = self.read(st, self.unspec(x))
                if isinstance(x, Val):
                    ct = ctype(t)
                    if ct.kind not in ('opaque',):
                        x = self.conv(x, ct)
            vals.append(x)
        return vals

    def invoke(self, st, fn, this, args):
        vals = self.bind_args(st, fn, args)
        con = self.contract_for(fn)
        if con is not None:
            return self.call_contract(st, fn, con, this, vals)
        return self.inline(st, fn, this, vals)

    def inline(self, st, fn, this, vals):
        if fn['id'] in self.stack or len(self.stack) > 24:
            raise Unsupported('recursion without contract: ' + fn['name'])
        self.inlined.add(self.u.name(fn))
        saved_this = st.env.get('this')
        st.env['this'] = this
        saved_names = dict(st.names)
        for p, v in zip(params(fn), vals):
            st.env[p['id']] = v if not isinstance(v, SpecVar) else v.x
            if isinstance(v, Tmp):
                cell = ('cell', p['id'])
                st.env[cell] = v.v
                st.env[p['id']] = Var(cell, v.ct, p.get('name', ''))
            if p.get('name'):
                st.names[p['name']] = p['id']
        saved_ret, self.ret_ref = self.ret_ref, ret_is_ref(fn)
        base = len(st.pc)
        outer_aborts = self.take_aborts(st)
        try:
            outs = self.ex_fn_body(st.copy(), fn)
        finally:
            self.ret_ref = saved_ret
        rets, aborts = [], []
        for o in outs:
            if o.kind in ('next', 'return'):
                rets.append(o)
            elif o.kind == 'abort':
                aborts.append(o.st)
            else:
                raise Unsupported('outcome in inlined function')
        st.ghost['aborts'] = tuple(outer_aborts) + tuple(aborts)
        if not rets:
            st.ghost['dead'] = True
            st.pc.append((True, z3.BoolVal(False)))
            return None
        v = self.merge_into_state(st, base, rets)
        st.env['this'] = saved_this
        st.names = saved_names
        return v

    def merge_into_state(self, st, base, rets):
        if len(rets) == 1:
            r = rets[0]
            st.env, st.heap, st.pc = r.st.env, r.st.heap, r.st.pc
            ab = st.ghost['aborts']
            st.ghost = dict(r.st.ghost)
            st.ghost['aborts'] = ab
            return r.val
        ab = st.ghost['aborts']
        conds = []
        for r in rets:
            ex = r.st.pc[base:]
            br = [f for b, f in ex if b]
            cnd = z3.And(*br) if br else z3.BoolVal(True)
            conds.append(cnd)
            seen = []
            for b, f in ex:
                if not b:
                    st.pc.append((False, z3.Implies(z3.And(*seen), f) if seen else f))
                else:
                    seen.append(f)
        st.pc.append((False, z3.Or(*conds)))
        val, acc = rets[-1].val, rets[-1].st
        env, heap = dict(acc.env), dict(acc.heap)
        ghost = dict(acc.ghost)
        for r, cnd in list(zip(rets, conds))[-2::-1]:
            val = self.merge_val(cnd, r.val, val)
            for kk in list(heap):
                a = r.st.heap.get(kk)
                if a is None:
                    a = self.init_heap(kk, heap[kk].sort())
                if not a.eq(heap[kk]):
                    heap[kk] = z3.If(cnd, a, heap[kk])
            for kk, a in r.st.heap.items():
                if kk not in heap:
                    heap[kk] = z3.If(cnd, a, self.init_heap(kk, a.sort()))
            for kk in list(env):
                if kk not in r.st.env:
                    del env[kk]
                    continue
                a = r.st.env[kk]
                if a is not env[kk]:
                    if kk in st.env:
                        env[kk] = self.merge_val(cnd, a, env[kk])
                    else:
                        del env[kk]
            for g in set(ghost) | set(r.st.ghost):
                if g in ('aborts', 'dead', 'wf'):
                    continue
                a, b2 = r.st.ghost.get(g), ghost.get(g)
                if a is not b2:
                    ghost[g] = self.merge_ghost(cnd, a, b2)
        st.env, st.heap = env, heap
        st.ghost = ghost
        st.ghost['aborts'] = ab
        st.ghost.pop('dead', None)
        return val

    def merge_ghost(self, c, a, b):
        if z3.is_expr(a) and z3.is_expr(b):
            return z3.If(c, a, b)
        raise Unsupported('join of ghost state')

    def call_closure(self, st, cl, vals):
        rec = [c for c in self._in(cl.node) if c['kind'] == 'CXXRecordDecl'][0]
        cand = [m for m in walk(rec) if m.get('kind') == 'CXXMethodDecl' and
                m.get('name') == 'operator()' and body(m) is not None]
        conc = [m for m in cand if not any('auto' in p['type']['qualType'] or
                                           'auto' in qual(p) for p in params(m))]
        if not conc:
            conc = cand
        if not conc:
            raise Unsupported('lambda body')
        m = conc[0]
        fn = m
        vs = []
        for p, v in zip(params(fn), vals):
            t = qual(p)
            isref = t.rstrip().endswith('&') or p['type']['qualType'].rstrip().endswith('&')
            if not isref and not isinstance(v, Obj):
                v = self.read(st, v)
            if isref and isinstance(v, Val):
                v = Tmp(v)
            vs.append(v)
        this = st.env.get('this')
        saved = st.env.get('this')
        for p, v in zip(params(fn), vs):
            st.env[p['id']] = v
        saved_stack = self.stack
        base = len(st.pc)
        outer = self.take_aborts(st)
        outs = self.ex(st.copy(), body(fn))
        rets = [o for o in outs if o.kind in ('next', 'return')]
        st.ghost['aborts'] = tuple(outer) + tuple(o.st for o in outs if o.kind == 'abort')
        if not rets:
            st.ghost['dead'] = True
            return None
        return self.merge_into_state(st, base, rets)

    def call_contract(self, st, fn, con, this, vals):
        self.used_contracts.add(con.name or fn['name'])
        saved_names = st.names
        fr = Frame(fn, this, [v.x if isinstance(v, SpecVar) else v for v in vals])
        # a reference parameter may not alias state the callee modifies
        for i, v in enumerate(vals):
            if isinstance(v, LV) and not isinstance(v, (Obj, Slice, Tmp)):
                r = v.root()
                if r[0] == 'h' and any(r[1] == m or r[1].startswith(m + '.') for m in con.modifies):
                    raise Unsupported('aliased argument')
        pre = st.copy()
        c = Ctx(self, st, fr)
        c.old = View(self, pre, fr)
        if con.requires:
            for l, f in con.requires(c):
                if l.startswith('@'):
                    continue
                self.oblige(st, 'precondition of %s: %s' % (con.name or fn['name'], l), f, 'requires')
        if getattr(con, 'decreases', None) and con is self.con:
            self.oblige(st, 'recursion terminates', z3.And(con.decreases(c) < con.decreases(self.old),
                                                           con.decreases(c) >= 0), 'requires')
        # outcome: abort
        if con.aborts is not None or con.noreturn:
            ab = st.copy()
            self.havoc_call(ab, con, fr, vals)
            for g in ('error', 'reported'):
                if g in ab.ghost:
                    ab.ghost[g] = fresh(I, g)
            ca = Ctx(self, ab, fr)
            ca.old = View(self, pre, fr)
            for l, f in (con.aborts(ca) if con.aborts else []):
                ab.assume(f, True)
            st.ghost['aborts'] = st.ghost.get('aborts', ()) + (ab,)
            if con.noreturn:
                st.ghost['dead'] = True
                st.pc.append((True, z3.BoolVal(False)))
                return None
        self.havoc_call(st, con, fr, vals)
        res = None
        rt = ret_type(fn)
        if getattr(con, 'ret', None) is not None:
            res = con.ret(self, st) if callable(con.ret) and not isinstance(con.ret, CT) else mkfresh(con.ret, 'res')
        elif rt != 'void':
            ct = ctype(rt)
            res = mkfresh(ct, fn['name'])
            st.facts_wf(ct, res.c)
        c2 = Ctx(self, st, fr)
        c2.old = View(self, pre, fr)
        c2.result = res
        if con.axioms and not getattr(self.con, 'own_axioms', False):
            for f in con.axioms(c2):
                st.assume(f)
        if con.ensures:
            for l, f in con.ensures(c2):
                st.assume(f)
        # facts the caller's contract states on the way: proved here, then used
        cuts = getattr(self.con, 'after', {}).get(con.name)
        if cuts and con is not self.con:
            n = st.ghost['calls of ' + con.name] = st.ghost.get('calls of ' + con.name, 0) + 1
            cm = Ctx(self, st, self.frame)
            cm.old = self.old
            cm.before, cm.now, cm.nth = c2.old.a, c2.a, n
            cm.loops, cm.pre = list(getattr(self, "loopstack", ())), c2.old
            for l, f in cuts(cm):
                if l[0] == '@':
                    self.induction(st, l[1:], f)
                    continue
                if l[0] == '#':
                    st.assume(f)
                    continue
                self.oblige(st, 'after %s (%d): %s' % (con.name, n, l), f, 'cut')
                st.assume(f)
        return res

    def havoc_call(self, st, con, fr, vals):
        for k in con.modifies:
            st.log.add(('h', k))
            self.havoc_key(st, k)
        for i in con.mod_args:
            v = vals[i]
            if isinstance(v, LV):
                nv = mkfresh(v.ct, 'out')
                v.write(st, nv)
                for f in wf(v.ct, nv.c):
                    st.assume(f)
            else:
                raise Unsupported('reference argument')
        if getattr(con, 'mod_this', False):
            v = fr.this
            nv = mkfresh(v.ct, 'this')
            v.write(st, nv)
            for f in wf(v.ct, nv.c):
                st.assume(f)

    # ------------------------------------------------ standard library model
    # vector, deque
    def m_vec_size(self, st, o, args):
        return S(INT, o.n if isinstance(o, Slice) else o.read(st).len)
    def m_vec_empty(self, st, o, args):
        return S(BOOL, self.m_vec_size(st, o, args).t == 0)
    def m_vec_begin(self, st, o, args):
        return It(o, z3.IntVal(0))
    m_vec_cbegin = m_vec_begin
    def m_vec_end(self, st, o, args):
        return It(o, self.m_vec_size(st, o, args).t)
    m_vec_cend = m_vec_end
    def m_vec_reserve(self, st, o, args):
        self.rv(st, args[0])
        return None
    def m_vec_push_back(self, st, o, args):
        x = self.rv(st, args[0])
        et = o.ct.a[0]
        if isinstance(x, Ptr) and isinstance(x.lv, Obj):
            x = S(REF(x.lv.cls), x.lv.ref)
        x = self.conv(x, et)
        v = o.read(st)
        c = dict(v.c)
        for k, t in x.c.items():
            nme = 'arr' + ('.' + k if k else '')
            if getattr(self.con, 'push_frames', False):
                # the same, said so that what is known of the old elements is found
                a0, a1, j_ = named(st, c[nme]), fresh(c[nme].sort(), 'pushed'), z3.Int('pb_j')
                st.assume(a1[v.len] == t)
                st.assume(forall([j_], z3.Implies(j_ != v.len, a1[j_] == a0[j_]), [a0[j_]]))
                st.assume(forall([j_], z3.Implies(j_ != v.len, a1[j_] == a0[j_]), [a1[j_]]))
                c[nme] = a1
                continue
            c[nme] = z3.Store(c[nme], v.len, t)
        c['len'] = v.len + 1
        if getattr(self.con, 'push_frames', False) and isinstance(o, Heap) and o.ref is not None:
            self.write_named(st, o, Val(o.ct, c))
            return None
        o.write(st, Val(o.ct, c))
        return None
    def write_named(self, st, o, v):
        """as a write, with a name for the new heap and what is kept said both ways"""
        r = named(st, o.ref)
        x = z3.Const('wn_x', Ref)
        before = dict(st.heap)
        o.write(st, v)
        for kk in [k for k in st.heap if k.startswith(o.key + '.') and (k not in before or not st.heap[k].eq(before[k]))]:
            h1, h0 = fresh(st.heap[kk].sort(), 'H.' + kk), before[kk]
            st.assume(h1[r] == v.c[kk[len(o.key) + 1:]])
            keep = z3.Implies(x != r, h1[x] == h0[x])
            st.assume(forall([x], keep, [h1[x]]))
            st.assume(forall([x], keep, [h0[x]]))
            st.heap[kk] = h1
    def m_vec_emplace_back(self, st, o, args):
        et = o.ct.a[0]
        if et.kind != 'obj':
            if args:
                self.m_vec_push_back(st, o, args)
                return Elem(o, o.read(st).len - 1)
            raise Unsupported('emplace_back')
        r = self.new_object(st, et.a[0])
        v = o.read(st)
        st.assume(z3.And(z3.Function('objidx', Ref, I)(r) == v.len, subtag(r) == 0))
        if isinstance(o, Heap) and o.ref is not None:
            st.assume(oowner(r) == o.ref)
        c = dict(v.c)
        c['arr'] = z3.Store(c['arr'], v.len, r)
        c['len'] = v.len + 1
        o.write(st, Val(o.ct, c))
        return Obj(r, et.a[0])
    def new_object(self, st, cls):
        al = st.h('alloc', B)
        r = fresh(Ref, 'new_' + cls)
        st.assume(z3.Not(al[r]))
        st.assume(r != NULL)
        st.heap['alloc'] = z3.Store(al, r, z3.BoolVal(True))
        st.log.add(('h', 'alloc'))
        for key, d in self.object_defaults(st, cls).items():
            Heap(key, r, FIELDS[key]).write(st, d)
        return r
    def object_defaults(self, st, cls):
        """what value-initialisation (T()) gives the members, from the declaration of the class"""
        rds = [n for n in self.u.by_id.values() if n.get('kind') == 'CXXRecordDecl' and n.get('name') == cls
               and any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ()) if c)]
        if not rds:
            raise Unsupported('declaration of ' + cls)
        out = {}
        for f in rds[0]['inner']:
            key = '%s.%s' % (cls, (f or {}).get('name'))
            ct = FIELDS.get(key)
            if f and f.get('kind') == 'FieldDecl' and ct is not None and is_storable(ct):
                out[key] = self.member_default(st, f, ct)
        return out
    def member_default(self, st, f, ct):
        init = [c for c in f.get('inner', ()) if c and not c['kind'].endswith('Comment')]
        if f.get('hasInClassInitializer'):
            if not init:
                raise Unsupported('in-class initializer of ' + f.get('name', ''))
            if self.is_zero(init[-1]):
                return default(ct)
            return self.conv(self.rv(st, init[-1]), ct)
        if ct.kind == 'rec':
            d = self.record_defaults(st, ct)
            if d is not None:
                return d
        return default(ct)
    def is_zero(self, n):
        while n['kind'] in ('ImplicitCastExpr', 'InitListExpr', 'ExprWithCleanups', 'ConstantExpr') and len(self._in(n)) == 1:
            n = self._in(n)[0]
        return n['kind'] == 'CXXNullPtrLiteralExpr' or n['kind'] == 'IntegerLiteral' and n['value'] == '0' or n['kind'] == 'CXXBoolLiteralExpr' and not n['value']
    def record_defaults(self, st, ct):
        rds = [n for n in self.u.by_id.values() if n.get('kind') == 'CXXRecordDecl' and n.get('name') == ct.a[0]
               and any(c.get('kind') == 'FieldDecl' for c in n.get('inner', ()) if c)]
        if not rds:
            return None
        v = default(ct)
        c = dict(v.c)
        for f in rds[0]['inner']:
            fct = dict(RECORDS[ct.a[0]]).get((f or {}).get('name'))
            if f and f.get('kind') == 'FieldDecl' and fct is not None:
                for k, t in self.member_default(st, f, fct).c.items():
                    c[f['name'] + ('.' + k if k else '')] = t
        return Val(ct, c)
    def m_vec_resize(self, st, o, args):
        n = self.rv(st, args[0]).t
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        v = o.read(st)
        et = o.ct.a[0]
        if et.kind == 'obj':
            return self.resize_objects(st, o, v, n, et.a[0])
        d = self.conv(self.rv(st, args[1]), et) if len(args) > 1 else default(et)
        c = dict(v.c)
        i = z3.Int('rs_i')
        for k, s in flatten(et).items():
            nme = 'arr' + ('.' + k if k else '')
            a = fresh(c[nme].sort(), 'resized')
            if et.kind in ('vec', 'map') and k not in ('len', 'dom'):
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < v.len), a[i] == v.c[nme][i]), patterns=[a[i]]))
            else:
                st.assume(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), a[i] == z3.If(i < v.len, v.c[nme][i], d.c[k])), patterns=[a[i]]))
            c[nme] = a
        c['len'] = n
        o.write(st, Val(o.ct, c))
        return None
    def resize_objects(self, st, o, v, n, cls):
        """vector<T>::resize from empty: n new, default-initialised objects"""
        self.oblige(st, 'resize of an empty vector of objects', v.len == 0, 'safety')
        al = st.h('alloc', B)
        al2 = fresh(al.sort(), 'alloc')
        a = fresh(v.arr.sort(), 'objs')
        ix = z3.Function('objidx', Ref, I)
        i, r = z3.Int('ro_i'), z3.Const('ro_r', Ref)
        rng = z3.And(0 <= i, i < n)
        own = [oowner(a[i]) == o.ref] if isinstance(o, Heap) and o.ref is not None else []
        st.assume(z3.ForAll([i], z3.Implies(rng, z3.And(a[i] != NULL, z3.Not(al[a[i]]), al2[a[i]], ix(a[i]) == i, subtag(a[i]) == 0, *own)), patterns=[a[i]]))
        st.assume(z3.ForAll([r], z3.Implies(al[r], al2[r]), patterns=[al2[r]]))
        isnew = z3.And(0 <= ix(r), ix(r) < n, a[ix(r)] == r)
        st.assume(z3.ForAll([r], z3.Implies(z3.And(al2[r], z3.Not(al[r])), isnew), patterns=[al2[r]]))
        st.heap['alloc'] = al2
        st.log.add(('h', 'alloc'))
        for key, d in self.object_defaults(st, cls).items():
                ct = FIELDS[key]
                for nme, s in flatten(ct).items():
                    kk = key + ('.' + nme if nme else '')
                    old = st.h(kk, s)
                    new = fresh(old.sort(), 'H.' + kk)
                    dflt = d.c[nme]
                    if ct.kind in ('vec', 'map') and nme not in ('len', 'dom'):
                        st.assume(z3.ForAll([r], z3.Implies(al[r], new[r] == old[r]), patterns=[new[r]]))
                    else:
                        st.assume(z3.ForAll([r], new[r] == z3.If(isnew, dflt, old[r]), patterns=[new[r]]))
                    st.heap[kk] = new
                st.log.add(('h', key))
        o.write(st, Val(o.ct, {'len': n, 'arr': a}))
        return None
    def m_vec_clear(self, st, o, args):
        v = o.read(st)
        c = dict(v.c)
        c['len'] = z3.IntVal(0)
        o.write(st, Val(o.ct, c))
        return None
    def m_vec_swap(self, st, o, args):
        p = self.unspec(self.ev(st, args[0]))
        a, b = o.read(st), p.read(st)
        o.write(st, b)
        p.write(st, a)
        return None
    m_set_swap = m_map_swap = m_bits_swap = m_vec_swap
    def m_vec_back(self, st, o, args):
        n = o.read(st).len
        self.oblige(st, 'back() of a non-empty vector', n > 0, 'safety')
        return self.elem_lv(st, o, n - 1)
    def m_vec_front(self, st, o, args):
        self.oblige(st, 'front() of a non-empty vector', o.read(st).len > 0, 'safety')
        return self.elem_lv(st, o, z3.IntVal(0))
    def m_vec_data(self, st, o, args):
        h = self.data_hook
        if h:
            return h(self, st, o)
        return It(o, z3.IntVal(0))
    data_hook = None
    # bitset
    def m_bits_size(self, st, o, args):
        return S(INT, o.read(st).len)
    def m_bits_empty(self, st, o, args):
        return S(BOOL, o.read(st).len == 0)
    def m_bits_resize(self, st, o, args):
        n = self.rv(st, args[0]).t
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        fill = self.conv(self.rv(st, args[1]), BOOL).t if len(args) > 1 else z3.BoolVal(False)
        v = o.read(st)
        r = fresh(BitArr, 'rsz')
        i = z3.Int('br_i')
        st.assume(z3.ForAll([i], r[i] == z3.And(0 <= i, i < n, z3.If(i < v.len, v.bits[i], fill)), patterns=[r[i]]))
        o.write(st, Val(BITS, {'len': n, 'bits': r}))
        return None
    def m_bits_test(self, st, o, args):
        i = self.rv(st, args[0]).t
        v = o.read(st)
        self.oblige(st, 'bit index in range', z3.And(0 <= i, i < v.len), 'safety')
        return S(BOOL, v.bits[i])
    def m_bits_set(self, st, o, args):
        args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
        if not args:
            raise Unsupported('bitset set()')
        i = self.rv(st, args[0]).t
        val = self.conv(self.rv(st, args[1]), BOOL).t if len(args) > 1 else z3.BoolVal(True)
        v = o.read(st)
        self.oblige(st, 'bit index in range', z3.And(0 <= i, i < v.len), 'safety')
        Bit(o, i).write(st, S(BOOL, val))
        return o
    def m_bits_find_first(self, st, o, args):
        v = o.read(st)
        r = fresh(I, 'first')
        i = z3.Int('ff_i')
        npos = z3.Const('npos', I)
        st.assume(z3.Or(z3.And(0 <= r, r < v.len, v.bits[r],
                               z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r), z3.Not(v.bits[i])), patterns=[v.bits[i]])),
                        z3.And(r == npos, z3.ForAll([i], z3.Not(v.bits[i]), patterns=[v.bits[i]]))))
        st.assume(npos < 0)    # stands for a value larger than any size
        return S(INT, r)
    # sets
    def m_set_find(self, st, o, args):
        x = self.key_arg(st, args[0], o.ct.a[0])
        v = o.read(st)
        return FindIt(v.set[x], S(o.ct.a[0], x))
    def key_arg(self, st, n, kt):
        x = self.rv(st, n) if isinstance(n, dict) else n
        if isinstance(x, Ptr) and isinstance(x.lv, Obj):
            return x.lv.ref
        return keyterm(self.conv(x, kt))
    def m_set_end(self, st, o, args):
        return EndIt(o)
    m_set_cend = m_set_end
    def m_set_begin(self, st, o, args):
        return BeginIt(o)
    m_set_cbegin = m_set_begin
    def m_set_insert(self, st, o, args):
        if len(args) == 2:
            a = self.iters(st, args)[0]
            if isinstance(a, BeginIt) and a.cont.ct == o.ct:
                return self.set_union(st, o, a.cont)
        if len(args) != 1:
            raise Unsupported('set insert')
        x = self.key_arg(st, args[0], o.ct.a[0])
        v = o.read(st)
        o.write(st, Val(o.ct, {'set': z3.Store(v.set, x, z3.BoolVal(True))}))
        return None
    def m_set_count(self, st, o, args):
        x = self.key_arg(st, args[0], o.ct.a[0])
        return S(INT, z3.If(o.read(st).set[x], z3.IntVal(1), z3.IntVal(0)))
    def m_set_contains(self, st, o, args):
        x = self.key_arg(st, args[0], o.ct.a[0])
        return S(BOOL, o.read(st).set[x])
    def m_set_empty(self, st, o, args):
        v = o.read(st)
        x = z3.Const('se_x', keysort(o.ct.a[0]))
        return S(BOOL, z3.Not(z3.Exists([x], v.set[x])))
    def m_set_size(self, st, o, args):
        f = z3.Function('ssize', o.read(st).set.sort(), I)
        t = f(o.read(st).set)
        st.assume(t >= 0)
        return S(INT, t)
    def m_set_clear(self, st, o, args):
        o.write(st, default(o.ct))
        return None
    # maps
    def m_map_size(self, st, o, args):
        v = o.read(st)
        ks = keysort(o.ct.a[0])
        st.assume(enum_fns(ks)[2](v.dom) >= 0)
        return S(INT, enum_fns(ks)[2](v.dom))
    def m_map_find(self, st, o, args):
        kt = self.key_arg(st, args[0], o.ct.a[0])
        v = o.read(st)
        return FindIt(v.dom[kt], keyval(o.ct.a[0], kt), MapElem(o, kt))
    def m_map_end(self, st, o, args):
        return EndIt(o)
    m_map_cend = m_map_end
    def m_map_begin(self, st, o, args):
        return BeginIt(o)
    m_map_cbegin = m_map_begin
    def m_map_clear(self, st, o, args):
        o.write(st, default(o.ct))
        return None

    def m_map_emplace(self, st, o, args):
        k = self.key_arg(st, args[0], o.ct.a[0])
        x = self.rv(st, args[1])
        if isinstance(x, Ptr) and isinstance(x.lv, Obj):
            x = S(REF(x.lv.cls), x.lv.ref)
        x = self.conv(x, o.ct.a[1])
        v = o.read(st)
        c = dict(v.c)
        for kk, t in x.c.items():       # an existing entry is kept
            nme = 'val' + ('.' + kk if kk else '')
            c[nme] = z3.If(v.dom[k], v.c[nme], z3.Store(v.c[nme], k, t))
        c['dom'] = z3.Store(v.dom, k, z3.BoolVal(True))
        o.write(st, Val(o.ct, c))
        return None
    m_map_try_emplace = m_map_emplace
    def m_map_insert_or_assign(self, st, o, args):
        k = self.key_arg(st, args[0], o.ct.a[0])
        x = self.conv(self.rv(st, args[1]), o.ct.a[1])
        MapElem(o, k).write(st, x)
        v = o.read(st)
        o.write(st, Val(o.ct, dict(v.c, dom=z3.Store(v.dom, k, z3.BoolVal(True)))))
        return None

    # algorithms
    def std_move(self, st, n, args):
        return self.ev(st, args[0])
    std_forward = std_as_const = std_addressof_ = std_move
    def std_addressof(self, st, n, args):
        return self.addr_of(st, self.ev(st, args[0]))

    def iters(self, st, args):
        return [self.unspec(self.read_ptr(st, self.ev(st, a))) for a in args]

    def std_inserter(self, st, n, args):
        return Inserter(self.unspec(self.ev(st, args[0])))

    def set_union(self, st, to, frm):
        src, dst = frm.read(st), to.read(st)
        r = fresh(dst.set.sort(), 'union')
        x = z3.Const('un_x', dst.set.sort().domain())
        st.assume(z3.ForAll([x], r[x] == z3.Or(dst.set[x], src.set[x]), patterns=[r[x]]))
        to.write(st, Val(to.ct, {'set': r}))
        return None

    def std_copy(self, st, n, args):
        a, b, d = self.iters(st, args)
        if isinstance(a, BeginIt) and isinstance(d, Inserter):
            return self.set_union(st, d.cont, a.cont)
        if isinstance(a, It) and isinstance(d, Val) and d.ct.kind == 'addr':
            return self.copy_to_mem(st, a, b, d.t, lambda q, e: self.read(q, e))
        raise Unsupported('std::copy')

    def copy_to_mem(self, st, a, b, dst, f):
        n = b.idx - a.idx
        self.oblige(st, 'valid range', n >= 0, 'safety')
        m = st.h('mem', I, True, raw=z3.ArraySort(I, I))
        m2 = fresh(m.sort(), 'mem')
        x = z3.Int('cm_x')
        q = st.copy()
        q.log = set()
        base = len(q.pc)
        q.assume(z3.And(dst <= x, x < dst + n), True)
        el = self.elem_lv(q, a.cont, a.idx + (x - dst))
        v = f(q, el)
        t = self.as_mem(v)
        defs = [g for bb, g in q.pc[base:] if not bb]
        if self.safety_mem:
            self.safety_mem(self, st, dst, n)
        st.assume(z3.ForAll([x], m2[x] == z3.If(z3.And(dst <= x, x < dst + n), t, m[x]), patterns=[m2[x]]))
        st.heap['mem'] = m2
        st.log.add(('h', 'mem'))
        for kk, a2 in q.heap.items():
            if kk not in st.heap:
                st.heap[kk] = a2
        return S(ADDR, dst + n)
    safety_mem = None
    def as_mem(self, v):
        if isinstance(v, Val) and v.ct.kind in ('int', 'addr', 'opaque'):
            return v.t
        raise Unsupported('stored value %r' % (v,))

    def std_transform(self, st, n, args):
        a, b, d = self.iters(st, args[:3])
        cl = self.unspec(self.ev(st, args[3]))
        if isinstance(a, It) and isinstance(d, Val) and d.ct.kind == 'addr':
            return self.copy_to_mem(st, a, b, d.t,
                                    lambda q, e: self.read(q, self.call_closure(q, cl, [e])))
        raise Unsupported('std::transform')

    def std_accumulate(self, st, n, args):
        a, b = self.iters(st, args[:2])
        init = self.rv(st, args[2])
        cl = self.unspec(self.ev(st, args[3]))
        nn = b.idx - a.idx
        f = z3.Function('fold!%d' % next(_fresh), I, I)
        j = z3.Int('ac_j')
        q = st.copy()
        q.log = set()
        q.assume(z3.And(0 <= j, j < nn), True)
        el = self.elem_lv(q, a.cont, a.idx + j)
        v = self.read(q, self.call_closure(q, cl, [S(init.ct, f(j)), el]))
        st.assume(f(0) == init.t)
        st.assume(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < nn), f(j + 1) == v.t), patterns=[f(j + 1)]))
        st.ghost['folds'] = st.ghost.get('folds', ()) + (f,)
        # by induction on j: a sum of non-negative terms never decreases
        i2, i3 = z3.Ints('ac_i ac_k')
        st.assume(z3.Implies(z3.ForAll([i2], z3.Implies(z3.And(0 <= i2, i2 < nn), f(i2) <= f(i2 + 1)), patterns=[f(i2 + 1)]),
                             z3.ForAll([i3], z3.Implies(z3.And(0 <= i3, i3 <= nn), z3.And(f(0) <= f(i3), f(i3) <= f(nn))), patterns=[f(i3)])))
        for kk, a2 in q.heap.items():
            if kk not in st.heap:
                st.heap[kk] = a2
        return S(init.ct, f(nn))

    def pred_at(self, st, cl, mk, extra=()):
        """formula of a predicate closure applied to an element; only pure
        predicates"""
        q = st.copy()
        q.log = set()
        for f in extra:
            q.assume(f)
        el = mk(q)
        v = self.read(q, self.call_closure(q, cl, [el]))
        for kk, a2 in q.heap.items():
            if kk not in st.heap:
                st.heap[kk] = a2
        return to_bool(v)

    def std_find_if(self, st, n, args):
        a, b = self.iters(st, args[:2])
        cl = self.unspec(self.ev(st, args[2]))
        if isinstance(a, It):
            w = fresh(I, 'found')
            j = z3.Int('fi_j')
            pj = self.pred_at(st, cl, lambda q: self.elem_lv(q, a.cont, j), [a.idx <= j, j < b.idx])
            pw = self.pred_at(st, cl, lambda q: self.elem_lv(q, a.cont, w), [a.idx <= w, w < b.idx])
            st.assume(z3.And(a.idx <= w, w <= b.idx))
            st.assume(z3.Implies(w < b.idx, pw))
            st.assume(z3.ForAll([j], z3.Implies(z3.And(a.idx <= j, j < w), z3.Not(pj))))
            return It(a.cont, w)
        if isinstance(a, BeginIt):
            ct = a.cont.ct.a[0]
            s = a.cont.read(st).set
            w = fresh(s.sort().domain(), 'found')
            p = fresh(B, 'isfound')
            x = z3.Const('fi_x', s.sort().domain())
            px = self.pred_at(st, cl, lambda q: S(ct, x), [s[x]])
            pw = self.pred_at(st, cl, lambda q: S(ct, w), [s[w]])
            st.assume(z3.Implies(p, z3.And(s[w], pw)))
            st.assume(z3.Implies(z3.Not(p), z3.ForAll([x], z3.Implies(s[x], z3.Not(px)), patterns=[s[x]])))
            return FindIt(p, S(ct, w))
        raise Unsupported('std::find_if')

    def std_any_of(self, st, n, args, neg=False):
        r = self.std_find_if(st, n, args)
        if isinstance(r, FindIt):
            return S(BOOL, r.present if not neg else z3.Not(r.present))
        b = self.iters(st, args[:2])[1]
        return S(BOOL, r.idx < b.idx if not neg else z3.Not(r.idx < b.idx))
    def std_none_of(self, st, n, args):
        return self.std_any_of(st, n, args, neg=True)

    def std_find(self, st, n, args):
        a, b = self.iters(st, args[:2])
        x = self.rv(st, args[2])
        if not isinstance(a, It):
            raise Unsupported('std::find')
        w = fresh(I, 'found')
        j = z3.Int('fd_j')
        arr = a.cont.read(st).arr
        xt = self.conv(x, a.cont.ct.a[0]).t
        st.assume(z3.And(a.idx <= w, w <= b.idx))
        st.assume(z3.Implies(w < b.idx, arr[w] == xt))
        st.assume(forall([j], z3.Implies(z3.And(a.idx <= j, j < w), arr[j] != xt), [arr[j]]))
        return It(a.cont, w)

    def std_distance(self, st, n, args):
        a, b = self.iters(st, args)
        if isinstance(a, It) and isinstance(b, It):
            return S(INT, b.idx - a.idx)
        if all(isinstance(v, Val) and v.ct.kind == 'addr' for v in (a, b)):
            return S(INT, b.t - a.t)
        raise Unsupported('std::distance')
    def std_min(self, st, n, args):
        if not args and norm(qual(n)) == 'unsigned long':      # std::numeric_limits
            return S(INT, z3.IntVal(0))
        a, b = [self.rv(st, x) for x in args[:2]]
        return S(a.ct, z3.If(b.t < a.t, b.t, a.t))
    def std_max(self, st, n, args):
        if not args and norm(qual(n)) == 'unsigned long':
            return S(INT, z3.IntVal(U64 - 1))
        a, b = [self.rv(st, x) for x in args[:2]]
        return S(a.ct, z3.If(a.t < b.t, b.t, a.t))
    def std_fill(self, st, n, args):
        a, b = self.iters(st, args[:2])
        x = self.rv(st, args[2])
        if not isinstance(a, It) or isinstance(a.cont, Slice):
            raise Unsupported('std::fill')
        v = a.cont.read(st)
        x = self.conv(x, a.cont.ct.a[0])
        c = dict(v.c)
        i = z3.Int('fl_i')
        for k, t in x.c.items():
            nme = 'arr' + ('.' + k if k else '')
            f = fresh(c[nme].sort(), 'filled')
            st.assume(z3.ForAll([i], f[i] == z3.If(z3.And(a.idx <= i, i < b.idx), t, c[nme][i]), patterns=[f[i]]))
            c[nme] = f
        a.cont.write(st, Val(a.cont.ct, c))
        return None

    def std_count_if(self, st, n, args):
        r = fresh(I, 'count')
        st.assume(r >= 0)
        return S(INT, r)

    def std_sort(self, st, n, args):
        a, b = self.iters(st, args[:2])
        cl = self.unspec(self.ev(st, args[2]))
        v = a.cont.read(st)
        ar2 = fresh(v.arr.sort(), 'sorted')
        p, pi = fresh(z3.ArraySort(I, I), 'perm'), fresh(z3.ArraySort(I, I), 'permi')
        i, j = z3.Int('so_i'), z3.Int('so_j')
        rng = lambda q: z3.And(a.idx <= q, q < b.idx)
        st.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(p[i]), ar2[i] == v.arr[p[i]], pi[p[i]] == i)), patterns=[ar2[i]]))
        st.assume(z3.ForAll([i], z3.Implies(rng(i), z3.And(rng(pi[i]), ar2[pi[i]] == v.arr[i], p[pi[i]] == i)), patterns=[v.arr[i]]))
        st.assume(z3.ForAll([i], z3.Implies(z3.Not(rng(i)), ar2[i] == v.arr[i]), patterns=[ar2[i]]))
        ct = a.cont.ct.a[0]
        q = st.copy(); q.log = set()
        q.assume(z3.And(rng(i), rng(j)))
        cmp_ = to_bool(self.read(q, self.call_closure(q, cl, [S(ct, ar2[j]), S(ct, ar2[i])])))
        self.oblige(q, 'std::sort: the comparison is asymmetric', z3.Not(z3.And(cmp_, z3.substitute(cmp_, (i, j), (j, i)))), 'safety')
        for kk, a2 in q.heap.items():
            if kk not in st.heap:
                st.heap[kk] = a2
        st.assume(z3.ForAll([i, j], z3.Implies(z3.And(rng(i), rng(j), i < j), z3.Not(cmp_)),
                            patterns=[z3.MultiPattern(ar2[i], ar2[j])]))
        c = dict(v.c)
        c['arr'] = ar2
        if getattr(self.con, 'push_frames', False) and isinstance(a.cont, Heap) and a.cont.ref is not None:
            self.write_named(st, a.cont, Val(a.cont.ct, c))
            return None
        a.cont.write(st, Val(a.cont.ct, c))
        return None

def is_storable(ct):
    try:
        flatten(ct)
        return ct.kind != 'obj'
    except Unsupported:
        return False

def squeeze(t):
    return re.sub(r'\s+', '', t)

def ctor_class(nm):
    """class part of the demangled name of a constructor, normalised"""
    d = 0
    cut = len(nm)
    for i, ch in enumerate(nm):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == '(' and d == 0:
            cut = i
            break
    nm = nm[:cut]
    d = 0
    for i in range(len(nm) - 1, 0, -1):
        ch = nm[i]
        if ch == '>':
            d += 1
        elif ch == '<':
            d -= 1
        elif ch == ':' and d == 0 and nm[i - 1] == ':':
            return norm(nm[:i - 1])
    return norm(nm)

def ret_is_ref(fn):
    t = fn['type']['qualType']
    r = ret_type(fn)
    return r.endswith('&')

def ret_type(fn):
    t = fn['type'].get('desugaredQualType') or fn['type']['qualType']
    if '->' in t and t.startswith('auto'):
        return t.split('->')[-1].strip()
    d = 0
    for i, ch in enumerate(t):
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif ch == '(' and d == 0:
            return t[:i].strip()
    return t

class Verifier(Engine, Expr, Calls):
    pass
