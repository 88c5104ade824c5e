// Instantiates the call path of methods and virtual_ptr.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
using namespace boost::openmethod;
using namespace boost::openmethod::policies;
#include "classes.hpp"
template<class R> struct Id1; template<class R> struct Id2; template<class R> struct Id3; template<class R> struct Id4; template<class R> struct Id5; template<class R> struct Id6; template<class R> struct Id7;
template<class R> using M1 = method<Id1<R>, int(int, virtual_<Animal&>), R>;
template<class R> using M2 = method<Id2<R>, int(virtual_<Animal&>, int, virtual_ptr<Animal, R>), R>;
template<class R> using M3 = method<Id3<R>, int(int, const virtual_ptr<Animal, R>&, virtual_<Animal&>, int, virtual_<const Animal*>), R>;
template<class R> using M4 = method<Id4<R>, int(virtual_ptr<Animal, R>, const virtual_ptr<Animal, R>&, virtual_<const Animal&>, virtual_<Animal&&>), R>;
template<class T> using sp = std::shared_ptr<T>; template<class T> using up = std::unique_ptr<T>;
template<class R> using M5 = method<Id5<R>, int(virtual_<sp<Animal>>, virtual_<const sp<Animal>&>, virtual_ptr<sp<Animal>, R>, const virtual_ptr<sp<Animal>, R>&), R>;
template<class R> using M6 = method<Id6<R>, int(virtual_<up<Animal>>, const int&, virtual_ptr<up<Animal>, R>, virtual_ptr<Animal, R>), R>;
using VA = virtual_<Animal&>;
template<class R> using M7 = method<Id7<R>, int(VA, VA, VA, VA, VA, VA, VA, int, VA, VA, VA, VA, VA, VA, VA, VA, VA, VA), R>;
template<class R> int o1(int, Cat&) { return 1; }
template<class R> int o1v(int, VCat&) { return 1; }
template<class R> int o2(Cat&, int, virtual_ptr<Cat, R>) { return 1; }
template<class R> int o2v(VCat&, int, virtual_ptr<VCat, R>) { return 1; }
template<class R> int o3(int, const virtual_ptr<Cat, R>&, Cat&, int, const Cat*) { return 1; }
template<class R> int o3v(int, const virtual_ptr<VCat, R>&, Cat&, int, const VCat*) { return 1; }
template<class R> int o4(virtual_ptr<Animal, R>, const virtual_ptr<Cat, R>&, const Animal&, Cat&&) { return 1; }
template<class R> int o5(sp<Cat>, const sp<Cat>&, virtual_ptr<sp<Cat>, R>, const virtual_ptr<sp<Cat>, R>&) { return 1; }
template<class R> int o5v(sp<VCat>, const sp<VCat>&, virtual_ptr<sp<VCat>, R>, const virtual_ptr<sp<VCat>, R>&) { return 1; }
template<class R> int o6(up<Cat>, const int&, virtual_ptr<up<Cat>, R>, virtual_ptr<Cat, R>) { return 1; }
template<class R> int o6v(up<VCat>, const int&, virtual_ptr<up<VCat>, R>, virtual_ptr<VCat, R>) { return 1; }
template<class R> int use(Animal& a) {
    static typename M1<R>::template override<o1<R>, o1v<R>> r1;
    static typename M2<R>::template override<o2<R>, o2v<R>> r2;
    static typename M3<R>::template override<o3<R>, o3v<R>> r3;
    static typename M4<R>::template override<o4<R>> r4;
    static typename M5<R>::template override<o5<R>, o5v<R>> r5;
    static typename M6<R>::template override<o6<R>, o6v<R>> r6;
    M5<R>::fn(sp<Animal>(), sp<Animal>(), virtual_ptr<sp<Animal>, R>(), virtual_ptr<sp<Animal>, R>());
    M6<R>::fn(up<Animal>(), 1, virtual_ptr<up<Animal>, R>(), virtual_ptr<Animal, R>(a));
    virtual_ptr<Animal, R> p(a);
    (void)&M7<R>::fn;
    int n = M1<R>::template has_next<o1<R>>() + M2<R>::template has_next<o2<R>>();
    return M1<R>::fn(1, a) + M2<R>::fn(a, 1, p) + M3<R>::fn(1, p, a, 2, &a) + M4<R>::fn(p, p, a, std::move(a)) + n;
}
int all(Animal& a) { return use<PA>(a) + use<PC>(a) + use<PE>(a) + use<PB>(a); }
