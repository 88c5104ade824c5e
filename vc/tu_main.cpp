// Instantiates the library templates whose bodies are put under contract.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
using namespace boost::openmethod;
using namespace boost::openmethod::policies;
struct A { virtual ~A() {} };
struct B : A {};
struct Id1; struct Id2; struct Id3; struct Id4;
// KA: default registry (checks on in debug builds)
struct KA : registry<std_rtti, vptr_vector, fast_perfect_hash, default_error_handler, stderr_output, runtime_checks> {};
int use() {
    initialize<KA>();
    initialize<KA>(n2216());
    finalize<KA>();
    A a;
    using M1 = method<Id1, int(int, virtual_<A&>), KA>;
    using M2 = method<Id2, int(virtual_<A&>, int, virtual_ptr<A, KA>, int), KA>;
    using M3 = method<Id3, int(int, const virtual_ptr<A, KA>&, virtual_<A&>, int, virtual_<A&>), KA>;
    virtual_ptr<A, KA> p(a);
    return M1::fn(1, a) + M2::fn(a, 1, p, 2) + M3::fn(1, p, a, 2, a);
}
