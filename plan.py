"""Which contracts and which concrete harnesses decide each property."""
import importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vc'))

D = lambda k, chunk, **kw: dict(src='dispatch.cpp', flags=['-DKIND=%d' % k] + kw.pop('extra', []), chunk=chunk, **kw)
DISPATCH = [D(0, 1500), D(1, 800), D(2, 500), D(3, 500), D(4, 400)]
DISPATCH2 = [D(0, 1500), D(4, 400)]
ASAN = ['-fsanitize=address,undefined', '-fno-sanitize=vptr,function,null', '-fno-sanitize-recover=all']
DISPATCH_ASAN = [D(0, 400, extra=ASAN), D(0, 1500), D(4, 400)]
POL = [dict(src='policies.cpp', flags=[], chunk=8)]
PTR = [dict(src='pointers.cpp', flags=[], opt='-O0', chunk=40)]
ONCE = lambda hs: [dict(h, chunk=1, max=1) for h in hs]   # fixed scenarios: nothing new in a second run
PTR20 = [dict(src='pointers.cpp', flags=['-std=c++20'], opt='-O0', chunk=40)]

DR = ('pseudo-random programs from VERIF_SEED: up to 8 classes in a random inheritance lattice registered in several partial groups and orders under several '
      'identifiers, up to 7 methods of 1 to 4 virtual parameters in 8 signatures with up to 6 overriders each; every tuple of argument classes is called and compared with an '
      'oracle written from the documentation. Non-trivial: counted as ')
PR = ('each case draws sets of type identifiers, aliases and sequences of initializations / list operations for nine policy combinations. Non-trivial: ')
VR = ('fixed scenarios for every parameter category and class shape (single, non-primary and virtual inheritance), plus random sequences of virtual_ptr operations in four registries. Non-trivial: ')

LISTS = ['static_list.%s' % f + sfx for sfx in ('', '.method_info', '.overrider_info') for f in
         ('push_back', 'remove', 'clear', 'empty', 'begin', 'end', '++', '*', '==', '!=')] + \
        ['static_list.%s' % f + sfx + '.const' for sfx in ('', '.method_info', '.overrider_info') for f in
         ('begin', 'end', '++', '*', '==', '!=')]

HASH = ['hash.%s.%s' % (f, r) for r in 'ABC' for f in ('initialize', 'hash', 'finalize')]
VPTR = ['vptr.%s.%s' % (f, r) for r in 'ABCDEFG' for f in ('initialize', 'dynamic_vptr', 'finalize')]
CHECKED = ['hash.initialize.A', 'hash.initialize.C'] + ['hash.hash.A', 'hash.hash.C'] + ['vptr.dynamic_vptr.' + r for r in 'ACDF'] + ['vptr.initialize.' + r for r in 'ACDF']

VPOPS = ['virtual_ptr%s.%s.%s' % (s, o, r) for s in ('', '.smart') for o in ('set', 'make', 'cast', 'get', '==') for r in 'ABCE']
FINAL = ['final_virtual_ptr.' + r for r in 'ABCE']
CALLS = ['call.%s.%d.%s' % (f, n, r) for f in ('resolve', 'operator()') for n in (1, 2, 3, 4, 5, 6) for r in 'ABCE']
BADCALL = ['badcall.%s.%d.%s' % (k, n, r) for k in ('fn_not_implemented', 'fn_ambiguous') for n in (1, 2, 3, 4, 5, 6, 7) for r in 'AC']
THUNKS = ['thunk.' + r for r in 'ABCE']

TABLES = ['build_dispatch_table', 'build_dispatch_tables']
INSTALL = ['write_global_data']
AUG = ['augment_methods']
CLS = ['collect_transitive_bases', 'augment_classes']
COMP = ['compile']
REG_M = ['reg.method', 'reg.method.ids']
REG_O = ['reg.override', 'reg.override.ids']
REG_C = ['reg.class', 'reg.class.ids']

def prop(level='exploration', tags=(), contracts=(), harness=(), rule='', **kw):
    return dict(level=level, tags=set(tags), contracts=list(contracts), harness=list(harness), rule=rule, **kw)

PROPS = {
 'C01': prop('proof', ['dispatch'], ['is_more_specific', 'is_base', 'select_dominant_overriders'] + AUG + COMP + TABLES + INSTALL + REG_M + REG_O, DISPATCH,
             DR + 'calls with two or more applicable overriders.', evals=['calls'], nontrivial=['nontrivial']),
 'C02': prop('proof', ['nooverrider', 'ambiguous', 'errors', 'crash'], ['is_more_specific', 'select_dominant_overriders'] + AUG + TABLES + INSTALL + BADCALL + REG_M, DISPATCH2 + PTR,
             DR + 'calls that must be refused.', evals=['calls'], nontrivial=['noimpl', 'ambiguous']),
 'C03': prop('proof', ['next', 'deferred'], ['is_base', 'is_more_specific', 'select_dominant_overriders'] + AUG + TABLES + INSTALL + ['reg.has_next'] + REG_O, DISPATCH2 + PTR,
             DR + 'overriders whose next is checked.', evals=['next'], nontrivial=['next']),
 'C04': prop('proof', ['slots', 'tables'], ['merge_into', 'set_bit', 'assign_tree_slots', 'assign_lattice_slots', 'assign_slots', 'lemma:closure', 'lemma:tree'] + CLS + COMP, DISPATCH2,
             DR + '(class, method parameter) pairs compared.', evals=['slots'], nontrivial=['slots']),
 'C05': prop('proof', ['closure'], CLS + COMP + ['calculate_transitive_derived', 'lemma:closure'] + REG_C, DISPATCH2,
             DR + 'cases with multiple inheritance.', evals=['cases'], nontrivial=['mi']),
 'C06': prop('proof', ['dispatch', 'nooverrider', 'ambiguous', 'tables'], ['accumulate'] + AUG + TABLES + INSTALL + CALLS, DISPATCH_ASAN,
             DR + 'calls with two or more applicable overriders.', evals=['calls'], nontrivial=['nontrivial']),
 'C07': prop('proof', ['report'], ['accumulate', 'is_more_specific', 'is_base', 'select_dominant_overriders'] + TABLES, DISPATCH2, DR + 'initializations of programs with multiple inheritance.', evals=['cases'], nontrivial=['mi']),
 'C08': prop('proof', ['hash', 'search'], HASH, POL, PR + 'cases.', evals=['cases'], nontrivial=['cases']),
 'C09': prop('proof', ['missing', 'checks', 'uninit'], CHECKED + [n for n in CALLS + FINAL + VPOPS if n[-2:] in ('.A', '.C') and '.smart' not in n], POL + PTR + [D(1, 500)], PR + 'cases.', evals=['cases'], nontrivial=['cases']),
 'C10': prop('proof', ['vptr'], CLS + VPTR, POL + [D(2, 500)], PR + 'cases.', evals=['cases'], nontrivial=['cases']),
 'C11': prop('proof', ['list'], LISTS, POL, PR + 'cases.', evals=['cases'], nontrivial=['cases']),
 'C12': prop('proof', ['vptr_value', 'ownership'], VPOPS + FINAL, PTR + PTR20, VR + 'operations checked.', evals=['plain', 'smart'], nontrivial=['plain', 'smart']),
 'C13': prop('exploration', ['reinit', 'finalize', 'init'], CLS + AUG + INSTALL + ['reg.~method', 'reg.~overrider', 'reg.~class'] + REG_O, DISPATCH2, DR + 're-initializations.', evals=['cases'], nontrivial=['reinit']),
 'C14': prop('proof', ['malformed', 'init'], CLS + AUG + COMP + REG_C + REG_O + REG_M, DISPATCH2, DR + 'malformed sets of registrations.', evals=['malformed', 'cases'], nontrivial=['malformed']),
 'C15': prop('proof', ['n2216'], ['is_more_specific', 'is_base', 'select_dominant_overriders.n2216', 'build_dispatch_table.n2216', 'build_dispatch_tables.n2216', 'augment_classes.n2216', 'augment_methods.n2216', 'compile.n2216', 'reg.override.ids'], [D(0, 1500), D(3, 500)], DR + 'ambiguous calls.', evals=['calls'], nontrivial=['ambiguous']),
 'C16': prop('proof', ['indirect'], [n for n in VPOPS + FINAL + CALLS if n[-2:] in ('.C', '.E')] + ['vptr.%s.%s' % (f, r) for f in ('initialize', 'dynamic_vptr') for r in 'CEG'], [D(2, 500), D(4, 400)] + PTR, DR + 're-initializations.', evals=['cases'], nontrivial=['reinit']),
 'C17': prop('proof', ['inplace'], ['inplace.' + f for f in ('constructor', 'destructor', 'update', 'look', 'acquire')] + ['lemma:inplace.life'], ONCE(PTR + PTR20), VR + 'points of observation.', evals=['inplace'], nontrivial=['inplace']),
 'C18': prop('proof', ['badcall'], BADCALL + REG_M, DISPATCH2 + PTR, DR + 'refused calls.', evals=['calls'], nontrivial=['noimpl', 'ambiguous']),
 'C19': prop('proof', ['final'], FINAL, ONCE(PTR + PTR20), VR + 'final constructions.', evals=['final'], nontrivial=['final']),
 'C20': prop('proof', ['args'], THUNKS + [n for n in CALLS if 'operator' in n], ONCE(PTR + PTR20), VR + 'calls.', evals=['calls'], nontrivial=['calls']),
}

TRUSTED = [
 'vc/engine.py: symbolic execution of the clang AST of /repo (the obligation generator)',
 'vc/engine.py STD_MODEL: contracts of the standard containers and algorithms used',
 'clang 18 (AST and template instantiation)', 'z3-new and cvc5 (unsat answers)',
]
ASSUMPTIONS = [
 'machine integers treated as mathematical integers (no overflow of size_t counters)',
 'allocation does not fail; exceptions are not thrown by the standard library',
 'single-threaded initialization',
]

_mods = ['contracts_compiler', 'contracts_tables', 'contracts_list', 'contracts_policies', 'contracts_core', 'contracts_vptr', 'contracts_thunk', 'contracts_inplace', 'contracts_reg', 'contracts_aug', 'contracts_compile']
CONTRACTS, EXTERNS = [], []
_by_name = {}
def _load():
    for m in _mods:
        mod = importlib.import_module(m)
        CONTRACTS.extend(mod.CONTRACTS)
        EXTERNS.extend(getattr(mod, 'EXTERNS', []))
    for c in CONTRACTS:
        _by_name[c.name] = c
def contract(name):
    if not CONTRACTS:
        _load()
    return _by_name[name]
def visible(con):
    """the contracts a function under contract `con` sees: those of its translation unit"""
    return [c for c in CONTRACTS if c.unit_name == con.unit_name or con.unit_name in getattr(c, 'also', ())]
def functions(unit, con):
    return unit.find(con.match)
def lemma(name):
    import lemmas
    return lemmas.LEMMAS[name.split(':', 1)[1]]()
NOT_APPLICABLE = []
def note(pid):
    P = PROPS[pid]
    if P['level'] == 'proof':
        s = ('Proved for all inputs, function by function, on the extracted code: ' + ', '.join(P['contracts']) + '. '
             + P.get('gap', '') + ' The rest of the path is exercised by the bounded concrete check (labelled bounded, not proved). ')
    else:
        s = 'Bounded: concrete executions of the real code compared with an oracle; not a proof. '
    return s + 'Trusted: the obligation generator, its model of the standard library, clang, z3, cvc5; machine integers are mathematical.'
