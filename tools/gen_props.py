#!/usr/bin/env python3
# Source of properties.jsonl (kept as a script for readable editing).
import json, os
I='include/boost/openmethod/'
INIT=I+'initialize.hpp'; CORE=I+'core.hpp'; PRE=I+'preamble.hpp'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(observe),hook_needed=None)))

p('C01','A call runs the unique most specialised applicable overrider',
 'For every class hierarchy, method and set of overriders, after initialization a call whose arguments have an applicable overrider that is the only one not dominated by another applicable overrider runs exactly that overrider. One overrider dominates another when at least one of its virtual parameters is more derived and none of the other\'s is; parameters of unrelated or equal classes are neutral. The choice does not depend on the order in which classes, methods or overriders were registered.',
 ['inputs','programs','histories'],'every finite inheritance lattice, every method arity, every overrider set, every registration order, every tuple of argument classes',
 'The tests use a few fixed hierarchies (mostly two or three overriders, one registration order); dominance is not transitive, so order effects need at least three overriders over a multiple inheritance lattice.',
 [INIT,CORE],[('is_more_specific / select_dominant_overriders',INIT),('build_dispatch_tables / build_dispatch_table',INIT),('write_global_data',INIT),('method::resolve*',CORE)],
 [('dispatch_table','selected overrider for each tuple of class groups',INIT)],['method call result'])
p('C02','Calls without a unique best overrider are reported, never run',
 'A call with no applicable overrider reports a no-overrider error and a call with applicable overriders but no unique best one reports an ambiguous-call error (when the N2216 option is off); in both cases no overrider runs and the call does not return to the caller, even if the error handler returns. An error of one kind is never reported in the situation of the other kind.',
 ['inputs','programs'],'every hierarchy, overrider set and argument tuple whose set of non-dominated applicable overriders is empty or has several members, including circular dominance',
 'Tests contain two error scenarios with matrices; the circular and duplicated-signature cases and the returning handler are not sampled.',
 [INIT,CORE],[('select_dominant_overriders / build_dispatch_table',INIT),('fn_not_implemented / fn_ambiguous',CORE)],[],['error handler argument','abort'])
p('C03','next calls the unique most specialised overrider that is more general',
 'For every overrider, next designates the unique most specialised overrider among those whose every virtual parameter is the same class or a base of its own; has_next is true exactly when that overrider exists and is unique, and otherwise calling next reports the no-overrider or the ambiguous-call error accordingly. Whatever the arguments of the original call, the overrider reached through next accepts them.',
 ['inputs','programs','histories'],'every hierarchy, overrider set and overrider with a distinct signature, every call through which it is reached',
 'A single next pointer serves all the calls an overrider is selected for; tests check next on two-class chains where every choice coincides.',
 [INIT,CORE],[('next computation in build_dispatch_table',INIT),('is_base',INIT),('next pointers in write_global_data',INIT),('has_next',CORE)],[],['has_next','next'])
p('C04','Method parameters never share a v-table slot in any class',
 'For every class accepted by several virtual parameters (of the same or of different methods), each of these parameters is assigned its own position inside the v-table of that class, and that position is the same in every class that the parameter accepts. This holds for single, multiple, repeated-virtual and disjoint inheritance and for every order of registration.',
 ['inputs','programs','histories'],'every inheritance lattice, every placement of method parameters on classes, every registration order and every split of the registrations',
 'Slot tests enumerate about ten fixed lattices registered in one order; conflicts need particular combinations of lattice shape and registration order.',
 [INIT],[('assign_slots / assign_tree_slots / assign_lattice_slots',INIT),('merge_into / set_bit',INIT)],
 [('used_slots, reserved_slots','positions taken in a class and positions it may not take',INIT)],['dispatch of several methods on the same object'])
p('C05','Inheritance is reconstructed exactly from partial registrations',
 'After initialization, the library considers a class derived from another exactly when that follows from the registered inheritance relations: registering classes in several incomplete groups, several times, in any order, under several type identifiers of the same class, or with indirect bases listed among the direct ones yields the same relation, with neither missing nor extra pairs.',
 ['inputs','histories'],'every acyclic inheritance relation, every multiset and order of class registrations in which each direct base appears at least once together with its derived class',
 'Tests register each hierarchy in one or two ways; the reconstruction is order dependent internally.',
 [INIT,CORE],[('collect_transitive_bases',INIT),('augment_classes',INIT),('calculate_transitive_derived',INIT)],
 [('transitive_derived, transitive_bases, direct_bases','reconstructed lattice',INIT)],['dispatch results','missing_base errors'])
p('C06','Dispatch reads the cell of the argument classes, inside the tables',
 'A method call reads only the v-table entries and the dispatch-table cell that initialization wrote for the classes of its virtual arguments: every virtual argument contributes its own group, in declaration order, non-virtual arguments (wherever they stand among the parameters) contribute nothing, and no read falls outside the memory that initialization filled. The cell read holds the function chosen for that tuple of classes.',
 ['inputs','programs'],'every method arity, every interleaving of virtual and non-virtual parameters, every number of groups per dimension, every argument tuple',
 'Tests use arity up to three with few parameter layouts, and index arithmetic errors can read plausible neighbouring cells.',
 [INIT,CORE],[('write_global_data',INIT),('strides in build_dispatch_tables',INIT),('resolve_uni / resolve_multi_first / resolve_multi_next',CORE)],
 [('dispatch_data','v-tables and dispatch tables',PRE),('slots_strides','slots and strides of a method',CORE)],['method call result'])
p('C07','The initialization report counts what a caller would observe',
 'The report returned by initialization gives as cells the total, over the methods with several virtual parameters, of the products of the numbers of distinguishable argument groups per parameter, as not_implemented the number of methods for which some tuple of registered classes has no applicable overrider, and as ambiguous the number of methods for which some tuple has no unique best overrider (N2216 option off).',
 ['inputs','programs'],'every hierarchy, set of methods and overriders',
 'Tests compare the report in a handful of fixed programs.',
 [INIT],[('build_dispatch_tables / build_dispatch_table / accumulate',INIT)],[],['report member of the result of initialize'])
p('C08','The perfect hash is injective and bounded over registered types',
 'When initialization of the hash policy returns, all registered type identifiers have pairwise distinct hash values, each within the announced minimum and maximum (and within the table sized from them), and the hash function used afterwards is the one that was validated. If no such function is found within the search budget, a search error is reported and the program does not continue with a colliding hash.',
 ['inputs','configurations'],'every finite set of distinct type identifiers, including several per class, with runtime checks on and off, for first and repeated initializations',
 'Tests hash the handful of addresses the linker gives them; a collision needs particular identifier values.',
 [I+'policies/fast_perfect_hash.hpp'],[('fast_perfect_hash::fn::initialize / hash / check',I+'policies/fast_perfect_hash.hpp')],
 [('mult, shift, min_value, max_value','hash parameters',I+'policies/fast_perfect_hash.hpp')],['hash','initialize result'])
p('C09','With runtime checks, unregistered argument classes are reported',
 'In a registry with runtime checks, obtaining a v-table for an object whose dynamic class was not registered reports a missing-class error naming that class, and aborts if the handler returns, for the perfect-hash and map based policies and for out-of-range identifiers in the plain vector policy; for registered classes no error is ever reported. Using a registry before initialization or after finalization reports a not-initialized error instead of dispatching.',
 ['inputs','histories'],'every set of registered type identifiers and every queried identifier, every order of initialize, finalize and uses',
 'Tests query one unregistered class; whether an unregistered identifier collides with a registered one depends on its value.',
 [I+'policies/fast_perfect_hash.hpp',I+'policies/vptr_map.hpp',I+'policies/vptr_vector.hpp',PRE,CORE],
 [('fast_perfect_hash::fn::check',I+'policies/fast_perfect_hash.hpp'),('vptr_map::fn::dynamic_vptr',I+'policies/vptr_map.hpp'),('vptr_vector::fn::dynamic_vptr',I+'policies/vptr_vector.hpp'),('require_initialized',PRE)],[],['error handler argument'])
p('C10','Objects resolve to the v-table of their exact dynamic class',
 'After initialization, for every registered class and every type identifier registered for it, the v-table pointer obtained from an object of that class by any of the v-table pointer policies (vector or map, hashed or not, direct or indirect) is the one most recently built for exactly that class. Classes never receive one another\'s v-table, and re-initialization replaces the pointers of all classes.',
 ['inputs','histories','configurations'],'every set of classes and type identifiers, every policy combination, every sequence of initializations',
 'Tests exercise each policy with two or three classes and one initialization.',
 [I+'policies/vptr_vector.hpp',I+'policies/vptr_map.hpp',INIT],[('vptr_vector::fn::initialize / dynamic_vptr',I+'policies/vptr_vector.hpp'),('vptr_map::fn::initialize / dynamic_vptr',I+'policies/vptr_map.hpp'),('static_vptr assignment in write_global_data',INIT)],[],['virtual_ptr::vptr','dispatch'])
p('C11','Registrations behave as an ordered set under construction and removal',
 'The registered classes, methods and overriders are at all times exactly those constructed and not yet destroyed, in order of construction, whatever the order of destruction (first, middle, last, only element, re-registration after removal); iteration visits each exactly once and then ends. Registering the same overrider twice leaves a single registration.',
 ['histories'],'every sequence of registrations and removals (static construction and destruction, loading and unloading of shared libraries)',
 'The list test runs a few fixed sequences; corruption needs particular removal orders followed by further operations.',
 [I+'detail/static_list.hpp',CORE,PRE],[('static_list push_back / remove / clear / iteration',I+'detail/static_list.hpp'),('use_class_aux, method, override_impl constructors and destructors',CORE),('~overrider_info',PRE)],
 [('first, prev_ptr, next_ptr','doubly linked list with the tail reachable from the head',I+'detail/static_list.hpp')],['registered sets seen by initialize'])
p('C12','virtual_ptr always pairs an object with the v-table of its class',
 'Through every construction, conversion, copy, move, assignment and cast of plain and smart virtual pointers, the v-table carried is the one of the dynamic class of the object pointed to, or null exactly when the pointer is null; a moved-from smart virtual pointer is null in both parts, and assigning null (literally or as a null smart pointer) resets both. Copies and casts designate the same object and share ownership as the underlying smart pointer does.',
 ['inputs','histories','programs'],'every sequence of virtual_ptr operations over every pair of related classes, for plain references, shared, unique and intrusive pointers, direct and indirect registries',
 'Tests apply each operation once to freshly made non-null pointers, mostly with one class.',
 [CORE,I+'interop/std_shared_ptr.hpp',I+'interop/std_unique_ptr.hpp',I+'interop/boost_intrusive_ptr.hpp'],[('virtual_ptr constructors and assignments',CORE),('box_vptr / unbox_vptr / acquire_vptr',CORE),('virtual_traits::cast',CORE)],
 [('vp, obj','v-table pointer and object',CORE)],['virtual_ptr::vptr, get'])
p('C13','Initialization depends only on what is currently registered',
 'Initializing after any history of earlier initializations, finalizations, registrations and removals produces the same dispatch results, next links and report as initializing a fresh program with the same registrations; initializing twice in a row changes nothing. Finalizing releases the tables and leaves the registry uninitialized until the next initialization.',
 ['histories'],'every sequence of register, unregister, initialize and finalize operations',
 'Tests re-initialize once in the shared-library examples and once in the core tests.',
 [INIT,PRE],[('compiler::initialize / compile / install_global_tables / write_global_data',INIT),('registry::finalize',INIT),('policy initialize and finalize',I+'policies/')],
 [('initialized, dispatch_data','installed state',PRE)],['calls after re-initialization'])
p('C14','Initialization rejects unregistered and unrelated classes by name',
 'If a virtual parameter of a method or overrider, a listed base class, or the class returned by an overrider of a method returning a registered class, names a class that was never registered, initialization reports a missing-class error carrying the identifier of that class; if an overrider parameter is not of the corresponding method parameter class or a registered descendant of it, initialization reports a missing-base error carrying the identifiers of the method parameter class as base and of the overrider parameter class as derived. It then does not mark the registry initialized nor install tables, and never reports such an error for a well-formed set of registrations.',
 ['inputs','programs'],'every set of classes, methods and overriders with any combination of missing or unrelated classes at any position',
 'Tests raise each error once and look at the error type only.',
 [INIT],[('augment_classes',INIT),('augment_methods',INIT)],[],['error handler argument'])
p('C15','N2216 resolution picks deterministically among the best overriders',
 'With the N2216 option, a call whose best overriders are several runs one of the non-dominated applicable overriders, the same one on every call and every initialization of the same registrations; if one of them has a covariant return type that is more derived than those of all the others, that one runs. The option does not change calls that are not ambiguous, and a call without applicable overrider still reports the no-overrider error.',
 ['inputs','programs'],'every hierarchy, overrider set, assignment of return types and argument tuple',
 'Tests have one ambiguous pair; elimination among three or more candidates is never executed.',
 [INIT],[('select_dominant_overriders, n2216 part',INIT),('build_dispatch_table',INIT)],[],['method call result'])
p('C16','Indirect virtual pointers stay valid across re-initialization',
 'In a registry with indirect v-table pointers, every virtual pointer (plain, smart or in-place) created after a first initialization dispatches, after any number of later initializations with more or fewer registrations, exactly as one created afresh from the same object.',
 ['histories'],'every sequence of initializations and every moment of creation of the virtual pointer',
 'The shared library example re-initializes once.',
 [CORE,INIT,I+'inplace_vptr.hpp',I+'policies/'],[('box_vptr<true>',CORE),('static_vptr updates in write_global_data',INIT)],[],['dispatch through old virtual pointers'])
p('C17','In-place v-table pointers follow construction and destruction',
 'While an object of an in-place v-table pointer hierarchy is alive, the v-table found through any of its base subobjects, in every constructor and destructor body and throughout the life of the object, is the one of the most derived class whose constructor body has been entered and whose destructor body has not completed, for single and multiple bases of any depth; after a base class destructor completes it is no longer a derived class v-table.',
 ['inputs','histories'],'every hierarchy of such classes, every subobject, every point of construction and destruction',
 'Tests look at two small hierarchies at a few points.',
 [I+'inplace_vptr.hpp'],[('boost_openmethod_update_vptr',I+'inplace_vptr.hpp'),('inplace_vptr_base / inplace_vptr_derived constructors and destructors',I+'inplace_vptr.hpp')],[],['dispatch from constructors and destructors'])
p('C18','Call errors identify the method and its virtual arguments',
 'The error object reported for a call without overrider or an ambiguous call carries the identifier of the method, the number of its virtual arguments, and for each virtual argument in order (up to the documented maximum) the dynamic type identifier of that argument; non-virtual arguments do not appear.',
 ['inputs','programs'],'every method signature (any number and position of virtual, virtual_ptr and non-virtual parameters) and every argument tuple',
 'Tests look at one binary method without non-virtual parameters.',
 [CORE,PRE],[('init_bad_call',CORE),('fn_not_implemented / fn_ambiguous',CORE)],[],['error handler argument'])
p('C19','final_virtual_ptr is exact, and checked when checks are on',
 'A virtual pointer made by the final construction carries the v-table of the static class of its argument; with runtime checks, if the dynamic class of a polymorphic argument differs, a final error with both the static and the dynamic identifiers is reported and the program aborts if the handler returns, and no error is reported when they agree.',
 ['inputs','configurations'],'every static and dynamic class, for plain references and smart pointers, with and without runtime checks, direct and indirect',
 'Tests contain one failing and a few passing constructions.',
 [CORE],[('final_virtual_ptr',CORE)],[],['virtual_ptr::vptr','error handler argument'])
p('C20','Overriders receive the caller\'s arguments, correctly converted',
 'The overrider that runs receives, in order, exactly the arguments of the call: each virtual argument as the overrider\'s declared class and designating the very same object (including through virtual and non-primary multiple inheritance), each smart pointer argument with its ownership transferred or shared as its category says, each other argument unchanged and not copied more than passing it by value requires. Its result is returned unchanged to the caller.',
 ['inputs','programs'],'every parameter category, every base-to-derived conversion, every position',
 'Tests cover each category with simple single inheritance.',
 [CORE,I+'interop/'],[('thunk::fn',CORE),('virtual_traits::cast / parameter_traits::cast / optimal_cast',CORE),('method::operator()',CORE)],[],['arguments seen by overriders'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
