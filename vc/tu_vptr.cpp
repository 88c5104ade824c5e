// Instantiates every operation of virtual_ptr, final_virtual_ptr and the casts.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
struct Animal; void intrusive_ptr_add_ref(const Animal*); void intrusive_ptr_release(const Animal*);
using namespace boost::openmethod;
using namespace boost::openmethod::policies;
#include "classes.hpp"
template<class R, class D> void plain(Animal& a, D& d) {
    using VA = virtual_ptr<Animal, R>;
    using VD = virtual_ptr<D, R>;
    VA n(nullptr), p(a), q(d), r(&a), s(&d), t(virtual_ptr<Animal, R>(p));
    VD x(d), y(&d);
    VA u(x), w(std::move(y));
    p = a; p = d; p = &a; p = &d; p = x; p = std::move(y); p = q; p = nullptr;
    (void)p.get(); (void)p.operator->(); (void)*p; (void)p.pointer(); (void)p.vptr();
    auto c = p.template cast<D>();
    auto e = c.template cast<Animal>();
    (void)(p == x); (void)(p != x); (void)(e == n); (void)t; (void)u; (void)w; (void)r; (void)s;
    auto f = final_virtual_ptr<R>(a); (void)f;
    auto g = final_virtual_ptr<R>(d); (void)g;
    const D& cd = d; virtual_ptr<const Animal, R> ca(cd); ca = cd; (void)ca.vptr();
}
template<template<class> class SP, class R, class D> void shared(SP<Animal> a, SP<D> d) {
    using VA = virtual_ptr<SP<Animal>, R>;
    using VD = virtual_ptr<SP<D>, R>;
    const auto& ka = a; const auto& kd = d;
    VA z, n(nullptr), p(a), q(d), r(ka), s(kd), t(std::move(a)), v(std::move(d));
    VD x(d), y(kd);
    const VD& kx = x; const VA& kp = p;
    VA u(kx), w(std::move(y)), o(kp), k(std::move(o)), j(x);
    p = a; p = d; p = ka; p = kd; p = std::move(a); p = std::move(d); p = x; p = kx; p = std::move(x); p = kp; p = q; p = std::move(r); p = nullptr;
    (void)p.get(); (void)p.operator->(); (void)*p; (void)p.pointer(); (void)p.vptr();
    auto c = p.template cast<D>(); auto e = kp.template cast<D>(); auto f = std::move(p).template cast<D>();
    auto g = c.template cast<Animal>(); auto h = std::move(c).template cast<Animal>();
    (void)(p == x); (void)(p != x); (void)z; (void)n; (void)s; (void)t; (void)u; (void)v; (void)w; (void)k; (void)j; (void)e; (void)f; (void)g; (void)h;
    auto fa = final_virtual_ptr<R>(std::move(a)); (void)fa;
    auto fd = final_virtual_ptr<R>(std::move(d)); (void)fd;
}
template<class R, class D> void unique(std::unique_ptr<Animal> a, std::unique_ptr<D> d) {
    using VA = virtual_ptr<std::unique_ptr<Animal>, R>;
    using VD = virtual_ptr<std::unique_ptr<D>, R>;
    VA z, n(nullptr), t(std::move(a)), v(std::move(d));
    VD y(std::move(d));
    VA w(std::move(y)), k(std::move(t));
    VA p(nullptr);
    p = std::move(a); p = std::move(d); p = std::move(y); p = std::move(k); p = nullptr;
    (void)p.get(); (void)p.operator->(); (void)*p; (void)p.pointer(); (void)p.vptr();
    auto f = std::move(p).template cast<D>();
    auto h = std::move(f).template cast<Animal>(); (void)h; (void)z; (void)n; (void)w; (void)v;
    auto fd = final_virtual_ptr<R>(std::move(d)); (void)fd;
}
template<class R> void use(Animal& a, Cat& c, VCat& v) {
    plain<R>(a, c); plain<R>(a, v);
    shared<std::shared_ptr, R>(std::shared_ptr<Animal>(), std::shared_ptr<Cat>()); shared<std::shared_ptr, R>(std::shared_ptr<Animal>(), std::shared_ptr<VCat>());
    shared<boost::intrusive_ptr, R>(boost::intrusive_ptr<Animal>(), boost::intrusive_ptr<Cat>()); shared<boost::intrusive_ptr, R>(boost::intrusive_ptr<Animal>(), boost::intrusive_ptr<VCat>());
    unique<R>(std::unique_ptr<Animal>(), std::unique_ptr<Cat>()); unique<R>(std::unique_ptr<Animal>(), std::unique_ptr<VCat>());
}
void all(Animal& a, Cat& c, VCat& v) { use<PA>(a, c, v); use<PC>(a, c, v); use<PE>(a, c, v); use<PB>(a, c, v); }
