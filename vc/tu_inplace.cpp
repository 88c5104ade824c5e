// Instantiates the in-place v-table pointers, in hierarchies with one, two and
// three roots, direct and indirect.
#include <boost/openmethod.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/initialize.hpp>
using namespace boost::openmethod;
using namespace boost::openmethod::policies;
#define REG(N, ...) struct N : registry<std_rtti, default_error_handler, stderr_output, vptr_vector, fast_perfect_hash, __VA_ARGS__> {}
REG(PA, runtime_checks);
REG(PC, indirect_vptr, runtime_checks);
// Ra, Rb, Rc: roots.  La : Ra.  Lb : La.  Lm : Rb.  Md : Lb, Lm, Rc.  Le : Md.  Mb : Rc, La
#define HIERARCHY(S, R) \
struct Ra##S : inplace_vptr_base<Ra##S, R> { int a; Ra##S(); ~Ra##S(); }; \
struct Rb##S : inplace_vptr_base<Rb##S, R> { int b; Rb##S(); ~Rb##S(); }; \
struct Rc##S : inplace_vptr_base<Rc##S, R> { int c; Rc##S(); ~Rc##S(); }; \
struct La##S : Ra##S, inplace_vptr_derived<La##S, Ra##S> { La##S(); ~La##S(); }; \
struct Lb##S : La##S, inplace_vptr_derived<Lb##S, La##S> { Lb##S(); ~Lb##S(); }; \
struct Lm##S : Rb##S, inplace_vptr_derived<Lm##S, Rb##S> { Lm##S(); ~Lm##S(); }; \
struct Md##S : Lb##S, Lm##S, Rc##S, inplace_vptr_derived<Md##S, Lb##S, Lm##S, Rc##S> { Md##S(); ~Md##S(); }; \
struct Mq##S : Md##S, inplace_vptr_derived<Mq##S, Md##S> { Mq##S(); ~Mq##S(); }; \
struct Mb##S : Rc##S, La##S, inplace_vptr_derived<Mb##S, Rc##S, La##S> { Mb##S(); ~Mb##S(); }; \
Ra##S::Ra##S() {} Ra##S::~Ra##S() {} Rb##S::Rb##S() {} Rb##S::~Rb##S() {} Rc##S::Rc##S() {} Rc##S::~Rc##S() {} \
La##S::La##S() {} La##S::~La##S() {} Lb##S::Lb##S() {} Lb##S::~Lb##S() {} Lm##S::Lm##S() {} Lm##S::~Lm##S() {} \
Md##S::Md##S() {} Md##S::~Md##S() {} Mq##S::Mq##S() {} Mq##S::~Mq##S() {} Mb##S::Mb##S() {} Mb##S::~Mb##S() {} \
vptr_type look##S(Ra##S& a, La##S& la, Lb##S& lb, Lm##S& lm, Md##S& m, Mq##S& e, Mb##S& mb, Rc##S& c) { \
    using detail::acquire_vptr; \
    acquire_vptr<R>(a); acquire_vptr<R>(la); acquire_vptr<R>(lb); acquire_vptr<R>(lm); acquire_vptr<R>(mb); acquire_vptr<R>(c); \
    acquire_vptr<R>(e); return acquire_vptr<R>(m); \
}
HIERARCHY(_d, PA)
HIERARCHY(_i, PC)
