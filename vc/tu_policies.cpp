// Instantiates the policies put under contract.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
using namespace boost::openmethod;
using namespace boost::openmethod::policies;
struct Animal { virtual ~Animal() {} };
#define REG(N, ...) struct N : registry<std_rtti, default_error_handler, stderr_output, __VA_ARGS__> {}
REG(PA, vptr_vector, fast_perfect_hash, runtime_checks);
REG(PB, vptr_vector, fast_perfect_hash);
REG(PC, vptr_vector, fast_perfect_hash, indirect_vptr, runtime_checks);
REG(PD, vptr_map<>, runtime_checks);
REG(PE, vptr_map<>, indirect_vptr);
REG(PF, vptr_vector, runtime_checks);
REG(PG, vptr_vector, indirect_vptr);
template<class R> const vptr_type& use(const Animal& a) {
    initialize<R>();
    const vptr_type& p = R::registry_type::template policy<vptr>::dynamic_vptr(a);
    finalize<R>();
    return p;
}
int all(const Animal& a) {
    use<PA>(a); use<PB>(a); use<PC>(a); use<PD>(a); use<PE>(a); use<PF>(a); use<PG>(a);
    return 0;
}
