// Instantiates the registration objects: methods, overriders, classes.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
using namespace boost::openmethod;
using namespace boost::openmethod::policies;
#include "classes.hpp"
struct Abstract : Animal { virtual void f() = 0; };
struct Deep : Cat {};
template<class R> struct Id1; template<class R> struct Id2; template<class R> struct Id3; template<class R> struct Id4;
template<class R> using M1 = method<Id1<R>, int(int, virtual_<Animal&>), R>;
template<class R> using M2 = method<Id2<R>, Animal&(virtual_<Animal&>, int, virtual_ptr<Plain, R>), R>;
template<class R> using M3 = method<Id3<R>, void(const virtual_ptr<Plain, R>&, virtual_<std::shared_ptr<Animal>>, int, virtual_<const Animal*>), R>;
template<class R> int o1(int, Cat&) { return 1; }
template<class R> int o1v(int, VCat&) { return 1; }
template<class R> Cat& o2(Cat& c, int, virtual_ptr<Cat, R>) { return c; }
template<class R> void o3(const virtual_ptr<Cat, R>&, std::shared_ptr<VCat>, int, const Animal*) {}
template<class R> int use() {
    static typename M1<R>::template override<o1<R>, o1v<R>> r1;
    static typename M2<R>::template override<o2<R>> r2;
    static typename M3<R>::template override<o3<R>> r3;
    static use_classes<Animal, Plain, Cat, VCat, Abstract, Deep, R> classes;
    return M1<R>::template has_next<o1<R>>() + M1<R>::template has_next<o1v<R>>() + M2<R>::template has_next<o2<R>>() + M3<R>::template has_next<o3<R>>();
}
template int use<PA>(); template int use<PC>();
