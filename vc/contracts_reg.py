"""Registration: what constructing and destroying methods, overriders and classes
records in the registry, for compile() to read (C03, C05, C10, C14, C18).

An array is its address and its contents; the lists are sequences (C11)."""
import re
import z3
from engine import *
import engine
from contracts_policies import And, Or, Not, Imp, All, init_ghost
from contracts_core import gvar
from contracts_vptr import svp
from contracts_thunk import split_params

engine.USER_CLASSES.update({'Abstract', 'Deep'})
engine.QUIET_CLASSES.update({'Abstract', 'Deep'})
# the program of tu_reg.cpp, written from its declarations
METHODS = {'Id1': dict(vp=['Animal'], ret='void'), 'Id2': dict(vp=['Animal', 'Plain'], ret='Animal'), 'Id3': dict(vp=['Plain', 'Animal', 'Animal'], ret='void')}
OVERRIDERS = {'o1': dict(vp=['Cat'], ret='void'), 'o1v': dict(vp=['VCat'], ret='void'), 'o2': dict(vp=['Cat', 'Cat'], ret='Cat'), 'o3': dict(vp=['Cat', 'VCat', 'Animal'], ret='void')}
ALLBASES = {'Animal': {'Animal'}, 'Plain': {'Plain'}, 'Cat': {'Cat', 'Animal', 'Plain'}, 'VCat': {'VCat', 'Animal', 'Plain'},
            'Abstract': {'Abstract', 'Animal'}, 'Deep': {'Deep', 'Cat', 'Animal', 'Plain'}}

engine.ARRAYS.update({'method_info.vp_type_ids', 'method_info.slots_strides', 'static.own.vp_type_ids', 'static.own.bases'})
FIELDS.update({'method_info.vp_type_ids': VEC(ADDR), 'static.own.vp_type_ids': VEC(ADDR), 'static.own.bases': VEC(ADDR)})
GLOBALS.update({'static.own.vp_type_ids', 'static.own.bases'})
for k in ('method_info', 'overrider_info'):
    FIELDS.update({k + '.vp_begin': ADDR, k + '.vp_end': ADDR})
FIELDS.update({'class_info.first_base': ADDR, 'class_info.last_base': ADDR, 'class_info.type': ADDR, 'class_info.static_vptr': ADDR, 'class_info.is_abstract': BOOL,
               'method_info.not_implemented': ADDR, 'method_info.ambiguous': ADDR, 'method_info.method_type_id': ADDR, 'method_info.return_type_id': ADDR,
               'method_info.overriders': VEC(OBJ('overrider_info')), 'overrider_info.method': REF('method_info'), 'overrider_info.next': ADDR, 'overrider_info.pf': ADDR,
               'overrider_info.type': ADDR, 'overrider_info.return_type': ADDR, 'static.classes': VEC(OBJ('class_info'))})
GLOBALS.add('static.classes')
EXTRA_TYPES.append(lambda t: OBJ('overrider_info') if re.search(r'(override_impl<.*>|\boverrider_info)$', t) else None)
EXTRA_TYPES.append(lambda t: OBJ('class_info') if re.match(r'use_class_aux<.*>$', t) else None)

CONTRACTS = []
def mk(name, **kw):
    CONTRACTS.append(type(name, (Contract,), dict(kw, name=name, unit_name='tu_reg.cpp', instances=99, inline=True)))
def ids(c):
    return re.search(r'method<(Id\d)<', c._e.u.name(c.fr.fn)).group(1)
def over(c):
    return re.search(r'override_impl<&?\(?[\w& ]*?\b(o\d\w?)<', c._e.u.name(c.fr.fn)).group(1)
def typeid_of(t, cls):
    """t is the type_info of that type"""
    return z3.BoolVal(re.match(r'typeid:(%s)\W?$' % cls, str(z3.simplify(t)).strip()) is not None)

def appended(c, key, x, ref=None):
    """the sequence has x at its end, and is otherwise as before"""
    now, old = (c.glob(key), c.old.glob(key)) if ref is None else (c.fld(key)(ref), c.old.fld(key)(ref))
    k = fresh(I, 'k')
    return [('it is the last of the list', And(now.len == old.len + 1, now.arr[old.len] == x)),
            ('the rest of the list is as before', Imp(And(0 <= k, k < old.len), now.arr[k] == old.arr[k]))]

def m_req(c):
    return init_ghost(c) + [('the array has a place for each virtual parameter', c.fld('method_info.vp_type_ids')(c.this).len == c._e.array_len(c.fr.fn, 'vp_type_ids'))]
def m_ids(c):
    m, t = METHODS[ids(c)], c.old.this
    a = c.fld('method_info.vp_type_ids')(t).arr
    return [('class of virtual parameter %d' % (k + 1), typeid_of(a[k], cls)) for k, cls in enumerate(m['vp'])] + \
           [('the method', typeid_of(c.fld('method_info.method_type_id')(t).t, r'method<%s<P\w>.*' % ids(c))),
            ('the return type', typeid_of(c.fld('method_info.return_type_id')(t).t, m['ret']))]
def m_ens(c):
    m, t = METHODS[ids(c)], c.old.this
    f = lambda k: c.fld('method_info.' + k)(t).t
    base = array_addr('method_info.vp_type_ids', t)
    n = c._e.u.name(c.fr.fn)
    is_fn = lambda x, name: z3.BoolVal(re.search(r'%s<%s.*::%s\(' % ('method', ids(c), name), c._e.dem(re.sub('^fn:', '', str(z3.simplify(x))))) is not None)
    return m_ids(c) + [('the virtual parameters', And(f('vp_begin') == base, f('vp_end') == base + len(m['vp']))),
            ('what a call without overrider runs', is_fn(f('not_implemented'), 'fn_not_implemented')),
            ('what an ambiguous call runs', is_fn(f('ambiguous'), 'fn_ambiguous')), ('overriders registered before it stay', And(c.fld('method_info.overriders')(t).len == c.old.fld('method_info.overriders')(t).len,
              c.fld('method_info.overriders')(t).arr == c.old.fld('method_info.overriders')(t).arr))] + appended(c, 'static.methods', t)
MOD = tuple('method_info.' + k for k in ('vp_type_ids', 'vp_begin', 'vp_end', 'not_implemented', 'ambiguous', 'method_type_id', 'return_type_id', 'slots_strides_ptr'))
mk('reg.method', match=r'method<Id\d<P\w>.*, P\w>::method\(\)', requires=m_req, ensures=m_ens, modifies=MOD + ('static.methods',), this_class='method_info')
mk('reg.method.ids', match=r'method<Id\d<P\w>.*, P\w>::resolve_type_ids\(\)', requires=m_req, ensures=m_ids, modifies=MOD, this_class='method_info')

# ---- static members, by their full names
def _static(e, n):
    return e.dem(e.u.by_id[n.get('referencedMemberDecl') or n['referencedDecl']['id']]['mangledName'])
def own_array(field):
    def h(e, st, n):
        """the array of the class the function belongs to"""
        owner = _static(e, n).rsplit('::', 1)[0]
        key = 'static.own.' + field
        if not e.u.name(e.con_fn).startswith(owner.replace('boost::openmethod::', '') + '::') and not e.u.name(e.con_fn).startswith(owner + '::'):
            key = 'static.%s::%s' % (owner, field)
            FIELDS[key] = VEC(ADDR); GLOBALS.add(key); engine.ARRAYS.add(key)
        return Heap(key, None, VEC(ADDR))
    return h
gvar(r'override_impl<.*::vp_type_ids$', own_array('vp_type_ids'))
gvar(r'use_class_aux<.*::bases$', own_array('bases'))
def next_addr(ident, reg, over):
    return z3.Const('addr:next<%s>@%s<%s>' % (over, ident, reg), I)
def _next(e, st, n):
    m = e.u.by_id[n.get('referencedMemberDecl') or n['referencedDecl']['id']]['mangledName']
    ident, reg = re.search(r'methodI3(Id\d)I2(P\w)', m).groups()
    return Mem(next_addr(ident, reg, re.search(r'_Z\d(o\d\w?)I', m).group(1)))
gvar(r'::next<', _next)
def the_method(ident, reg):
    return z3.Const('method:%s<%s>' % (ident, reg), Ref)
gvar(r'method<Id\d<P\w>.*>::fn$', lambda e, st, n: Obj(the_method(*re.search(r'method<(Id\d)<(P\w)>', _static(e, n)).groups()), 'method_info'))

# ---- removal from a list (the contract of static_list::remove, C11)
def removed(old, now, x):
    p = fresh(I, 'place')
    k = fresh(I, 'k')
    return p, [p >= 0, p < old.len, old.arr[p] == x, now.len == old.len - 1,
               z3.ForAll([k], Imp(And(0 <= k, k < p), now.arr[k] == old.arr[k]), patterns=[now.arr[k]]),
               z3.ForAll([k], Imp(And(p <= k, k < now.len), now.arr[k] == old.arr[k + 1]), patterns=[now.arr[k]])]
def m_vec_remove(self, st, o, args):
    x = self.ev(st, args[0])
    x = x.ref if isinstance(x, Obj) else x.lv.ref if isinstance(x, Ptr) else self.rv(st, args[0]).t
    v = o.read(st)
    k = fresh(I, 'k')
    self.oblige(st, 'the node removed is in the list', z3.Exists([k], And(0 <= k, k < v.len, v.arr[k] == x)), 'check')
    now = Val(o.ct, {'len': fresh(I, 'len'), 'arr': fresh(z3.ArraySort(I, Ref), 'arr')})
    _, fs = removed(v, now, x)
    for f in fs:
        st.assume(f)
    o.write(st, now)
    return None
engine.Calls.m_vec_remove = m_vec_remove
def is_removed(c, key, x, ref=None):
    now, old = (c.glob(key), c.old.glob(key)) if ref is None else (c.fld(key)(ref), c.old.fld(key)(ref))
    k, j = fresh(I, 'k'), fresh(I, 'j')
    # distinct elements: what remains is the old sequence without x
    return [('one element less', now.len == old.len - 1),
            ('it is no longer in the list', Imp(And(0 <= k, k < now.len), now.arr[k] != x)),
            ('the others keep their places', Imp(And(0 <= k, k < now.len), Or(now.arr[k] == old.arr[k], now.arr[k] == old.arr[k + 1])))]
def listed(c, key, x, ref=None):
    v = c.glob(key) if ref is None else c.fld(key)(ref)
    i, j = fresh(I, 'i'), fresh(I, 'j')
    return [('it is in the list', And(0 <= PLACE, PLACE < v.len, v.arr[PLACE] == x)),
            ('the nodes of the list are distinct', z3.ForAll([i, j], Imp(And(0 <= i, i < j, j < v.len), v.arr[i] != v.arr[j]), patterns=[z3.MultiPattern(v.arr[i], v.arr[j])]))]
PLACE = z3.Const('ghost.place', I)
mk('reg.~method', match=r'method<Id\d<P\w>.*, P\w>::~method\(\)', requires=lambda c: listed(c, 'static.methods', c.this),
   ensures=lambda c: is_removed(c, 'static.methods', c.old.this), modifies=('static.methods',), this_class='method_info')
mk('reg.~overrider', match=r'detail::overrider_info::~overrider_info\(\)', this_class='overrider_info',
   requires=lambda c: [('it belongs to a method', c.fld('overrider_info.method')(c.this).t != NULL)] + listed(c, 'method_info.overriders', c.this, c.fld('overrider_info.method')(c.this).t),
   ensures=lambda c: is_removed(c, 'method_info.overriders', c.old.this, c.old.fld('overrider_info.method')(c.old.this).t), modifies=('method_info.overriders',))
mk('reg.~class', match=r'use_class_aux<P\w, .*::~use_class_aux\(\)', this_class='class_info', requires=lambda c: listed(c, 'static.classes', c.this),
   ensures=lambda c: is_removed(c, 'static.classes', c.old.this), modifies=('static.classes',))

# ---- overriders
def okey(c):
    n = c._e.u.name(c.fr.fn)
    m = re.search(r'method<(Id\d)<(P\w)>', n).groups()
    return m + (over(c),)
def o_req(c):
    return init_ghost(c) + [('the array has a place for each virtual parameter', c.glob('static.own.vp_type_ids').len == c._e.array_len(c.fr.fn, 'vp_type_ids'))]
def o_ids(c):
    o, t = OVERRIDERS[over(c)], c.old.this
    a = c.glob('static.own.vp_type_ids').arr
    return [('class of virtual parameter %d' % (k + 1), typeid_of(a[k], cls)) for k, cls in enumerate(o['vp'])] + \
           [('the return type', typeid_of(c.fld('overrider_info.return_type')(t).t, o['ret']))]
def o_ens(c):
    ident, reg, o = okey(c)
    t, old = c.old.this, c.old
    was = old.fld('overrider_info.method')(t).t
    fresh_ = was == NULL
    f = lambda k: c.fld('overrider_info.' + k)(t)
    p = old.a(0)
    base = array_addr('static.own.vp_type_ids')
    meth = the_method(ident, reg)
    thunk = c._e.dem(re.sub('^fn:', '', str(z3.simplify(one_of(f('pf').t, old.fld('overrider_info.pf')(t).t)))))
    ours = z3.BoolVal(re.search(r'method<%s<%s.*thunk<.*\b%s<.*::fn\(' % (ident, reg, o), thunk) is not None or re.search(r'methodI3%sI2%s.*5thunk.*_Z\d%sI.*2fnE' % (ident, reg, o), thunk) is not None)
    r = o_ids_if(c, fresh_)
    r += [('it belongs to the method', Imp(fresh_, f('method').t == meth)),
          ('next goes where asked, or to the next of the function', Imp(fresh_, f('next').t == z3.If(p.t == 0, next_addr(ident, reg, o), p.t))),
          ('what runs is the thunk of the function', Imp(fresh_, ours)),
          ('the virtual parameters', Imp(fresh_, And(f('vp_begin').t == base, f('vp_end').t == base + len(OVERRIDERS[o]['vp'])))) ]
    r += [(l, Imp(fresh_, g)) for l, g in appended(c, 'method_info.overriders', t, meth)]
    now, o_ = c.fld('method_info.overriders').c, old.fld('method_info.overriders').c
    m = fresh(Ref, 'm')
    r += [('other methods get no overrider', Imp(Or(Not(fresh_), m != meth), And(now['arr'][m] == o_['arr'][m], now['len'][m] == o_['len'][m])))]
    for k in ('next', 'pf', 'vp_begin', 'vp_end', 'return_type', 'method'):
        r.append(('a second construction changes nothing: ' + k, Imp(Not(fresh_), f(k).t == old.fld('overrider_info.' + k)(t).t)))
    return r
def one_of(t, other):
    """the value assigned, in a term that keeps the old one on the other path"""
    t = z3.simplify(t)
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        a, b = t.arg(1), t.arg(2)
        t = b if a.eq(z3.simplify(other)) else a
    return t
def o_ids_if(c, cond):
    o, t = OVERRIDERS[over(c)], c.old.this
    a = c.glob('static.own.vp_type_ids').arr
    oa = c.old.glob('static.own.vp_type_ids').arr
    r = [('class of virtual parameter %d' % (k + 1), Imp(cond, typeid_of(one_of(a[k], oa[k]), cls))) for k, cls in enumerate(o['vp'])]
    return r + [('the return type', Imp(cond, typeid_of(one_of(c.fld('overrider_info.return_type')(t).t, c.old.fld('overrider_info.return_type')(t).t), o['ret'])))]
OMOD = tuple('overrider_info.' + k for k in ('method', 'next', 'pf', 'vp_begin', 'vp_end', 'return_type', 'type')) + ('static.own.vp_type_ids',)
mk('reg.override', match=r'override_impl<.*>::override_impl\(', this_class='overrider_info', modifies=OMOD + ('method_info.overriders',), ensures=o_ens,
   requires=lambda c: o_req(c) + [('an overrider belongs to one method', Or(c.fld('overrider_info.method')(c.this).t == NULL, c.fld('overrider_info.method')(c.this).t == the_method(*okey(c)[:2])))])
mk('reg.override.ids', match=r'override_impl<.*>::resolve_type_ids\(', this_class='overrider_info', modifies=OMOD, requires=o_req, ensures=o_ids)

# ---- classes
def cls(c):
    return re.search(r'use_class_aux<(P\w), boost::mp11::mp_list<(\w+)', c._e.u.name(c.fr.fn)).groups()
def nbases(c):
    """the length of the list of bases recorded for the class"""
    return len(split_params(re.search(r'mp_list<(.*)>\s*>::', c._e.u.name(c.fr.fn)).group(1))) - 1
# use_class_aux<Registry, mp_list<Class, Bases...>>
def _bases(e, name):
    m = re.search(r'use_class_aux<(P\w), boost::mp11::mp_list<(.*)>\s*>::', e.u.name(e.con_fn))
    return len(split_params(m.group(2))) - 1 if m and name == 'Bases' else None
engine.Expr.pack_hooks.append(_bases)
def c_req(c):
    return init_ghost(c) + [('the array has a place for each base', c.glob('static.own.bases').len == c._e.array_len(c.fr.fn, 'bases'))]
def c_ids(c):
    R, C = cls(c)
    n = nbases(c)
    a = c.glob('static.own.bases').arr
    got = [re.match(r'typeid:(\w+)', str(z3.simplify(a[k])).strip("|' ")) for k in range(n)]
    return [('the bases recorded are the class and its bases', z3.BoolVal(all(got) and {g.group(1) for g in got} == ALLBASES[C])),
            ('the class', typeid_of(c.fld('class_info.type')(c.old.this).t, C))]
def c_ens(c):
    R, C = cls(c)
    t = c.old.this
    f = lambda k: c.fld('class_info.' + k)(t).t
    base = array_addr('static.own.bases')
    return c_ids(c) + [('the bases', And(f('first_base') == base, f('last_base') == base + nbases(c))), ('where the v-table pointer is', f('static_vptr') == svp(C)),
            ('whether it is abstract', f('is_abstract') == z3.Const('std::is_abstract_v<%s>' % C, B))] + appended(c, 'static.classes', t)
CMOD = tuple('class_info.' + k for k in ('type', 'first_base', 'last_base', 'static_vptr', 'is_abstract')) + ('static.own.bases',)
mk('reg.class', match=r'use_class_aux<P\w, .*::use_class_aux\(\)', this_class='class_info', requires=c_req, ensures=c_ens, modifies=CMOD + ('static.classes',))
mk('reg.class.ids', match=r'use_class_aux<P\w, .*::resolve_type_ids\(\)', this_class='class_info', requires=c_req, ensures=c_ids, modifies=CMOD)

def is_abstract(e, st, n):
    # the AST of a standard variable template does not show its argument: taken to be the class registered
    c = re.search(r'use_class_aux<P\w, boost::mp11::mp_list<(\w+)', e.u.name(e.con_fn)).group(1)
    return S(BOOL, z3.Const('std::is_abstract_v<%s>' % c, B))
gvar(r'^is_abstract_v$', is_abstract)

# ---- has_next
def h_ens(c):
    m = c.fr.fn['mangledName']
    ident, reg = re.search(r'methodI3(Id\d)I2(P\w)', m).groups()
    o = re.search(r'_Z\d(o\d\w?)I', m).group(1)
    v = c.mem()[next_addr(ident, reg, o)]
    def addr(f):
        pre = m.split('8has_nextI')[0]
        for d in c._e.u.by_id.values():
            if d.get('name') == f and d.get('mangledName', '').startswith(pre):
                return z3.Const('fn:' + d['mangledName'], I)
        raise Skeleton(f)
    return [('there is a next overrider unless the call would be refused', c.result.t == And(v != addr('fn_not_implemented'), v != addr('fn_ambiguous')))]
mk('reg.has_next', match=r'8has_nextITnDa', requires=lambda c: [], ensures=h_ens)
