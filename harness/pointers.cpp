// Concrete replay / bounded stand-in: virtual_ptr, final, in-place pointers,
// argument passing, call errors (C02 C03 C09 C10 C12 C16 C17 C18 C19 C20).
// usage: pointers SEED FIRST COUNT [TAGS]      (compile with -O0)
#include "common.hpp"
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/inplace_vptr.hpp>
#include <boost/openmethod/interop/std_shared_ptr.hpp>
#include <boost/openmethod/interop/std_unique_ptr.hpp>
#include <boost/openmethod/interop/boost_intrusive_ptr.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/smart_ptr/intrusive_ref_counter.hpp>
using namespace hx;
namespace bom = boost::openmethod;
using namespace bom;
using namespace bom::policies;
using bom::type_id;

struct Err {
    std::string kind;
    type_id a = nullptr, b = nullptr;
    std::size_t arity = 0;
    std::vector<type_id> types;
    type_id method = nullptr;
};
static bool handler_throws = true;
struct rec_handler : error_handler {
    template<class Registry>
    struct fn {
        template<class E> static void error(const E& e) {
            Err r;
            if constexpr (std::is_base_of_v<bad_call, E>) {
                r.kind = std::is_same_v<E, no_overrider> ? "no_overrider" : "ambiguous_call";
                r.arity = e.arity;
                r.method = e.method;
                for (std::size_t i = 0; i < e.arity && i < bad_call::max_types; ++i) r.types.push_back(e.types[i]);
            } else if constexpr (std::is_same_v<E, missing_class>) { r.kind = "missing_class"; r.a = e.type; }
            else if constexpr (std::is_same_v<E, not_initialized>) r.kind = "not_initialized";
            else if constexpr (std::is_same_v<E, final_error>) { r.kind = "final_error"; r.a = e.static_type; r.b = e.dynamic_type; }
            else r.kind = "other";
            if (handler_throws) throw r;
        }
    };
};

struct rd : registry<std_rtti, fast_perfect_hash, vptr_vector, rec_handler, runtime_checks> {};
struct ri : registry<std_rtti, fast_perfect_hash, vptr_vector, rec_handler, indirect_vptr, runtime_checks> {};
struct rn : registry<std_rtti, vptr_map<>, rec_handler> {};
struct rin : registry<std_rtti, vptr_map<>, rec_handler, indirect_vptr> {};

static int live = 0;
struct Animal : boost::intrusive_ref_counter<Animal> {
    int x = 1;
    Animal() { ++live; }
    Animal(const Animal&) { ++live; }
    virtual ~Animal() { --live; }
};
struct Toy {
    int t = 2;
    virtual ~Toy() {}
};
struct Dog : Animal { int d = 3; };
struct Cat : Animal { int c = 4; };
struct Bulldog : Dog { int b = 5; };
struct Plush : Toy { int p = 9; };
struct Robot : Toy, Dog { int r = 6; };           // non-primary base
struct Hydra : virtual Animal { int h = 7; };     // virtual base
struct Chimera : Hydra, virtual Animal { int m = 8; };
struct Stranger : Animal {};                      // never registered

template<class R>
struct classes_of : use_classes<Animal, Toy, Dog, Cat, Bulldog, Robot, Hydra, Chimera, R> {};
static classes_of<rd::registry_type> c1;
static classes_of<ri::registry_type> c2;
static classes_of<rn::registry_type> c3;
static classes_of<rin::registry_type> c4;

struct late_class : Animal {};
template<class T> type_id tid(const T& o) { return &typeid(o); }

template<class Reg>
vptr_type vptr_of(const Animal* a) {
    auto& t = typeid(*a);
    if (t == typeid(Animal)) return Reg::template static_vptr<Animal>;
    if (t == typeid(Dog)) return Reg::template static_vptr<Dog>;
    if (t == typeid(Cat)) return Reg::template static_vptr<Cat>;
    if (t == typeid(Bulldog)) return Reg::template static_vptr<Bulldog>;
    if (t == typeid(Robot)) return Reg::template static_vptr<Robot>;
    if (t == typeid(Hydra)) return Reg::template static_vptr<Hydra>;
    if (t == typeid(Chimera)) return Reg::template static_vptr<Chimera>;
    return nullptr;
}

template<class P> Animal* as_animal(P* p) { return p; }

// -------------------------------------------------------- methods for dispatch
struct IdName;
template<class Reg>
struct Methods {
    using name = method<IdName, int(virtual_ptr<Animal, Reg>), Reg>;
    static int f_animal(virtual_ptr<Animal, Reg>) { return 1; }
    static int f_dog(virtual_ptr<Dog, Reg>) { return 2; }
    static int f_cat(virtual_ptr<Cat, Reg>) { return 3; }
    static int f_bull(virtual_ptr<Bulldog, Reg>) { return 4; }
    static int f_robot(virtual_ptr<Robot, Reg>) { return 5; }
    static inline typename name::template override<f_animal, f_dog, f_cat, f_bull, f_robot> o;
    static int expect(const Animal* a) {
        auto& t = typeid(*a);
        if (t == typeid(Dog)) return 2;
        if (t == typeid(Cat)) return 3;
        if (t == typeid(Bulldog)) return 4;
        if (t == typeid(Robot)) return 5;
        return 1;
    }
};
template struct Methods<rd::registry_type>;
template struct Methods<ri::registry_type>;
template struct Methods<rn::registry_type>;
template struct Methods<rin::registry_type>;

// -------------------------------------------------------------- plain pointers
template<class Reg>
struct Plain {
    template<class T> using VP = virtual_ptr<T, Reg>;
    Animal an; Dog dog; Cat cat; Bulldog bull; Robot rob; Hydra hyd; Chimera chi;
    std::string ops;
    const char* nm;
    template<class T>
    void check(const VP<T>& p, const void* obj, const Animal* dyn) {
        count("plain");
        if ((const void*)p.get() != obj || (const void*)p.pointer() != obj) fail("vptr_value", std::string(nm) + " object differs:" + ops);
        auto e = dyn ? vptr_of<Reg>(dyn) : nullptr;
        if (p.vptr() != e) fail("vptr_value", std::string(nm) + " v-table differs:" + ops);
        if (dyn && e == nullptr) fail("vptr_value", "no vptr");
        if (obj && p.operator->() != p.get()) fail("vptr_value", "operator->");
    }
    void run(Rng& g, const char* name) {
        nm = name;
        Animal* animals[] = {&an, &dog, &cat, &bull, &rob, &hyd, &chi};
        Dog* dogs[] = {&dog, &bull, &rob};
        VP<Animal> a[3] = {VP<Animal>(nullptr), VP<Animal>(an), VP<Animal>(&dog)};
        Animal* ma[3] = {nullptr, &an, &dog};
        VP<Dog> d[3] = {VP<Dog>(nullptr), VP<Dog>(dog), VP<Dog>(&bull)};
        Dog* md[3] = {nullptr, &dog, &bull};
        VP<const Animal> ca(an);
        const Animal* mca = &an;
        for (int s = 0; s < 30; ++s) {
            int i = rnd(g, 3), j = rnd(g, 3), op = rnd(g, 20);
            Animal* x = animals[rnd(g, 7)];
            Dog* y = dogs[rnd(g, 3)];
            ops += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
            switch (op) {
            case 0: a[i] = *x; ma[i] = x; break;
            case 1: a[i] = x; ma[i] = x; break;
            case 2: a[i] = nullptr; ma[i] = nullptr; break;
            case 3: a[i] = a[j]; ma[i] = ma[j]; break;
            case 4: a[i] = d[j]; ma[i] = md[j]; break;
            case 5: a[i] = VP<Animal>(d[j]); ma[i] = md[j]; break;
            case 6: d[i] = *y; md[i] = y; break;
            case 7: d[i] = y; md[i] = y; break;
            case 8: d[i] = d[j]; md[i] = md[j]; break;
            case 9: d[i] = nullptr; md[i] = nullptr; break;
            case 10: a[i] = std::move(a[j]); ma[i] = ma[j]; break;
            case 11: { VP<Animal> t(a[j]); a[i] = t; ma[i] = ma[j]; break; }
            case 12: if (md[j]) { auto t = d[j].template cast<Animal>(); check(t, ma[0] ? (void*)as_animal(md[j]) : (void*)as_animal(md[j]), md[j]); a[i] = t; ma[i] = md[j]; } break;
            case 13: if (ma[j]) if (auto q = dynamic_cast<Dog*>(ma[j])) { auto t = a[j].template cast<Dog>(); check(t, q, q); d[i] = t; md[i] = q; } break;
            case 14: if (ma[j]) if (auto q = dynamic_cast<Robot*>(ma[j])) { auto t = a[j].template cast<Robot>(); check(t, q, q); a[i] = t; ma[i] = q; } break;
            case 15: if (ma[j]) if (auto q = dynamic_cast<Chimera*>(ma[j])) { auto t = a[j].template cast<Chimera>(); check(t, q, q); a[i] = t; ma[i] = q; } break;
            case 16: if (md[j]) { ca = d[j]; mca = md[j]; } break;
            case 17: ca = *x; mca = x; break;
            case 18: { auto t = VP<Animal>::final(cat); a[i] = t; ma[i] = &cat; break; }
            case 19: { VP<const Animal> t(a[j]); ca = t; mca = ma[j]; break; }
            }
            for (int k = 0; k < 3; ++k) { check(a[k], ma[k], ma[k]); check(d[k], md[k], md[k]); }
            check(ca, mca, mca);
            CHECK("vptr_value", (a[i] == a[j]) == (ma[i] == ma[j]), ops);
            CHECK("vptr_value", (a[i] != a[j]) == (ma[i] != ma[j]), ops);
            if (ma[i]) CHECK("dispatch", Methods<Reg>::name::fn(a[i]) == Methods<Reg>::expect(ma[i]), ops);
            if (md[j]) CHECK("dispatch", Methods<Reg>::name::fn(d[j]) == Methods<Reg>::expect(md[j]), ops);
        }
    }
};

// --------------------------------------------------------- shared and intrusive
template<class Reg, template<class> class SP>
struct Shared {
    template<class T> using VP = virtual_ptr<SP<T>, Reg>;
    std::string ops;
    const char* nm;
    template<class T> static SP<T> mk() { return SP<T>(new T); }
    static long uses(const std::shared_ptr<Animal>& p) { return p.use_count(); }
    template<class T> static long uses(const boost::intrusive_ptr<T>& p) { return p ? p->use_count() : 0; }
    template<class T>
    void check(const VP<T>& p, Animal* obj, const char* what) {
        count("smart");
        Animal* got = p.get() ? static_cast<Animal*>(p.get()) : nullptr;
        if (got != obj) fail("vptr_value", std::string(nm) + " object differs (" + what + "):" + ops);
        auto e = obj ? vptr_of<Reg>(obj) : nullptr;
        if (p.vptr() != e) fail("vptr_value", std::string(nm) + " v-table differs (" + what + "):" + ops);
    }
    SP<Animal> make(int k) {
        switch (k) {
        case 0: return mk<Animal>();
        case 1: return mk<Dog>();
        case 2: return mk<Cat>();
        case 3: return mk<Bulldog>();
        case 4: return mk<Robot>();
        case 5: return mk<Hydra>();
        default: return mk<Chimera>();
        }
    }
    SP<Dog> make_dog(int k) {
        switch (k) { case 0: return mk<Dog>(); case 1: return mk<Bulldog>(); default: return mk<Robot>(); }
    }
    void run(Rng& g, const char* name) {
        nm = name;
        int live0 = live;
        {
            VP<Animal> a[3];
            Animal* ma[3] = {};
            VP<Dog> d[3];
            Dog* md[3] = {};
            // initial null values
            for (int k = 0; k < 3; ++k) { check(a[k], nullptr, "default"); check(d[k], nullptr, "default"); }
            check(VP<Animal>(nullptr), nullptr, "nullptr");
            std::vector<SP<Animal>> keep;   // keeps objects alive so that addresses are not reused
            std::vector<SP<Dog>> keepd;
            std::set<Animal*> known;
            for (int s = 0; s < 30; ++s) {
                int i = rnd(g, 3), j = rnd(g, 3), op = rnd(g, 28);
                SP<Animal> x = make(rnd(g, 7));
                SP<Dog> y = make_dog(rnd(g, 3));
                if (rnd(g, 5) == 0) { x = SP<Animal>(); }
                if (rnd(g, 5) == 0) { y = SP<Dog>(); }
                keep.push_back(x); keepd.push_back(y);
                if (x) known.insert(x.get());
                if (y) known.insert(y.get());
                ops += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + (x ? "" : ",null x") + (y ? "" : ",null y") + ")";
                switch (op) {
                case 0: a[i] = x; ma[i] = x.get(); break;
                case 1: { auto t = x; Animal* r = x.get(); a[i] = std::move(t); ma[i] = r; CHECK("vptr_value", !t, "moved-from smart pointer kept" + ops); break; }
                case 2: a[i] = nullptr; ma[i] = nullptr; break;
                case 3: a[i] = a[j]; ma[i] = ma[j]; break;
                case 4: a[i] = d[j]; ma[i] = md[j]; break;
                case 5: { const auto& cd = d[j]; a[i] = cd; ma[i] = md[j]; break; }
                case 6: if (i != j) { a[i] = std::move(a[j]); ma[i] = ma[j]; ma[j] = nullptr; } break;
                case 7: a[i] = std::move(d[j]); ma[i] = md[j]; md[j] = nullptr; break;
                case 8: { VP<Animal> t(x); check(t, x.get(), "ctor const&"); a[i] = t; ma[i] = x.get(); break; }
                case 9: { const auto cx = x; VP<Animal> t(cx); check(t, x.get(), "ctor const&"); break; }
                case 10: { auto t0 = x; VP<Animal> t(std::move(t0)); check(t, x.get(), "ctor &&"); CHECK("vptr_value", !t0, ops); break; }
                case 11: { VP<Animal> t(a[j]); check(t, ma[j], "copy"); a[i] = t; ma[i] = ma[j]; break; }
                case 12: { VP<Animal> t(std::move(a[j])); check(t, ma[j], "move"); check(a[j], nullptr, "moved-from"); a[i] = t; auto r = ma[j]; ma[j] = nullptr; ma[i] = r; break; }
                case 13: { VP<Animal> t(d[j]); check(t, md[j], "conversion"); a[i] = t; ma[i] = md[j]; break; }
                case 14: { VP<Animal> t(std::move(d[j])); check(t, md[j], "move conversion"); check(d[j], nullptr, "moved-from"); md[j] = nullptr; break; }
                case 15: d[i] = y; md[i] = y.get(); break;
                case 16: d[i] = d[j]; md[i] = md[j]; break;
                case 17: { a[i] = y; ma[i] = y.get(); break; }
                case 18: { auto t = y; a[i] = std::move(t); ma[i] = y.get(); CHECK("vptr_value", !t, ops); break; }
                case 19: { VP<Animal> t(y); check(t, y.get(), "converting ctor"); break; }
                case 20: if (md[j]) { auto t = d[j].template cast<Animal>(); check(t, md[j], "upcast"); check(d[j], md[j], "cast source"); a[i] = t; ma[i] = md[j]; } break;
                case 21: if (ma[j]) if (auto q = dynamic_cast<Dog*>(ma[j])) { auto t = std::as_const(a[j]).template cast<Dog>(); check(t, q, "downcast"); check(a[j], ma[j], "cast source"); d[i] = t; md[i] = q; } break;
                case 22: if (ma[j]) if (auto q = dynamic_cast<Robot*>(ma[j])) { auto t = a[j].template cast<Robot>(); check(t, q, "downcast"); CHECK("vptr_value", t.get() == q, ops); } break;
                case 23: if (ma[j]) if (auto q = dynamic_cast<Chimera*>(ma[j])) { auto t = a[j].template cast<Chimera>(); CHECK("vptr_value", t.get() == q, ops); check(t, q, "virtual downcast"); } break;
                case 24: if (ma[j]) if (auto q = dynamic_cast<Dog*>(ma[j])) {
                    auto t = std::move(a[j]).template cast<Dog>(); check(t, q, "rvalue cast");
                    if (!a[j].get()) ma[j] = nullptr;  // ownership may move or be shared
                    check(a[j], ma[j], "rvalue cast source"); d[i] = std::move(t); md[i] = q; check(t, nullptr, "moved-from"); } break;
                case 25: { auto t = final_virtual_ptr<Reg>(mk<Cat>()); Animal* q = t.get(); check(t, q, "final"); known.insert(q); a[i] = t; ma[i] = q; keep.push_back(SP<Animal>(t.pointer())); break; }
                case 26: if (i != j) { d[i] = std::move(d[j]); md[i] = md[j]; md[j] = nullptr; } break;
                case 27: d[i] = nullptr; md[i] = nullptr; break;
                }
                for (int k = 0; k < 3; ++k) { check(a[k], ma[k], "a"); check(d[k], md[k], "d"); }
                CHECK("vptr_value", (a[i] == a[j]) == (ma[i] == ma[j]), ops);
                // ownership is shared: references = keepers + virtual pointers
                for (int k = 0; k < 3; ++k) if (ma[k]) {
                    long n = 1 - 1;
                    for (auto& q : keep) n += q.get() == ma[k];
                    for (auto& q : keepd) n += q && static_cast<Animal*>(q.get()) == ma[k];
                    n += (x.get() == ma[k]) + (y && static_cast<Animal*>(y.get()) == ma[k]);
                    for (int q = 0; q < 3; ++q) n += (ma[q] == ma[k]) + (md[q] && static_cast<Animal*>(md[q]) == ma[k]);
                    CHECK("ownership", uses(a[k].pointer()) == n, std::string(nm) + " use_count " + std::to_string(uses(a[k].pointer())) + " expected " + std::to_string(n) + ops);
                }
                if (ma[i]) CHECK("dispatch", Methods<Reg>::name::fn(VP2(a[i])) == Methods<Reg>::expect(ma[i]), ops);
            }
        }
        CHECK("ownership", live == live0, std::string(nm) + " objects leaked or destroyed twice:" + ops);
    }
    static virtual_ptr<Animal, Reg> VP2(const VP<Animal>& p) { return virtual_ptr<Animal, Reg>(*p); }
};

template<class Reg>
struct Unique {
    template<class T> using VP = virtual_ptr<std::unique_ptr<T>, Reg>;
    std::string ops;
    const char* nm;
    template<class T>
    void check(const VP<T>& p, Animal* obj, const char* what) {
        count("smart");
        Animal* got = p.get() ? static_cast<Animal*>(p.get()) : nullptr;
        if (got != obj) fail("vptr_value", std::string(nm) + " object differs (" + what + "):" + ops);
        auto e = obj ? vptr_of<Reg>(obj) : nullptr;
        if (p.vptr() != e) fail("vptr_value", std::string(nm) + " v-table differs (" + what + "):" + ops);
    }
    static std::unique_ptr<Animal> make(int k) {
        switch (k) {
        case 0: return std::make_unique<Animal>();
        case 1: return std::make_unique<Dog>();
        case 2: return std::make_unique<Cat>();
        case 3: return std::make_unique<Bulldog>();
        case 4: return std::make_unique<Robot>();
        case 5: return std::make_unique<Chimera>();
        default: return nullptr;
        }
    }
    static std::unique_ptr<Dog> make_dog(int k) {
        switch (k) { case 0: return std::make_unique<Dog>(); case 1: return std::make_unique<Bulldog>(); case 2: return std::make_unique<Robot>(); default: return nullptr; }
    }
    void run(Rng& g, const char* name) {
        nm = name;
        int live0 = live;
        {
            VP<Animal> a[3];
            Animal* ma[3] = {};
            VP<Dog> d[2];
            Dog* md[2] = {};
            for (int s = 0; s < 30; ++s) {
                int i = rnd(g, 3), j = rnd(g, 3), k = rnd(g, 2), l = rnd(g, 2), op = rnd(g, 13);
                auto x = make(rnd(g, 8));
                auto y = make_dog(rnd(g, 5));
                Animal* rx = x.get();
                Dog* ry = y.get();
                ops += " " + std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + ")";
                switch (op) {
                case 0: a[i] = std::move(x); ma[i] = rx; CHECK("vptr_value", !x, ops); break;
                case 1: a[i] = std::move(y); ma[i] = ry; break;
                case 2: a[i] = nullptr; ma[i] = nullptr; break;
                case 3: if (i != j) { a[i] = std::move(a[j]); ma[i] = ma[j]; ma[j] = nullptr; } break;
                case 4: a[i] = std::move(d[k]); ma[i] = md[k]; md[k] = nullptr; break;
                case 5: d[k] = std::move(y); md[k] = ry; break;
                case 6: { VP<Animal> t(std::move(x)); check(t, rx, "ctor"); a[i] = std::move(t); check(t, nullptr, "moved-from"); ma[i] = rx; break; }
                case 7: { VP<Animal> t(std::move(d[k])); check(t, md[k], "move conversion"); check(d[k], nullptr, "moved-from"); md[k] = nullptr; break; }
                case 8: { VP<Animal> t(std::move(a[j])); check(t, ma[j], "move"); check(a[j], nullptr, "moved-from"); ma[j] = nullptr; break; }
                case 9: if (md[k]) { auto q = md[k]; auto t = std::move(d[k]).template cast<Animal>(); check(t, q, "upcast"); md[k] = nullptr; check(d[k], nullptr, "cast source"); a[i] = std::move(t); ma[i] = q; } break;
                case 10: if (ma[j]) if (auto q = dynamic_cast<Dog*>(ma[j])) { auto t = std::move(a[j]).template cast<Dog>(); check(t, q, "downcast"); ma[j] = nullptr; check(a[j], nullptr, "cast source"); d[k] = std::move(t); md[k] = q; } break;
                case 11: if (ma[j]) if (auto q = dynamic_cast<Chimera*>(ma[j])) { auto t = std::move(a[j]).template cast<Chimera>(); CHECK("vptr_value", t.get() == q, ops); check(t, q, "virtual downcast"); ma[j] = nullptr; } break;
                case 12: { auto t = final_virtual_ptr<Reg>(std::make_unique<Bulldog>()); Animal* q = t.get(); check(t, q, "final"); a[i] = std::move(t); ma[i] = q; break; }
                }
                (void)l;
                for (int n = 0; n < 3; ++n) check(a[n], ma[n], "a");
                for (int n = 0; n < 2; ++n) check(d[n], md[n], "d");
                std::set<Animal*> owned;
                for (auto p : ma) if (p) owned.insert(p);
                for (auto p : md) if (p) owned.insert(p);
                CHECK("ownership", live - live0 == int(owned.size()) + (x ? 1 : 0) + (y ? 1 : 0), std::string(nm) + ops);
            }
        }
        CHECK("ownership", live == live0, std::string(nm) + " objects leaked or destroyed twice:" + ops);
    }
};
template<class T> using shp = std::shared_ptr<T>;
template<class T> using inp = boost::intrusive_ptr<T>;

template<class Reg>
void values(Rng& g, const char* name) {
    { Plain<Reg> p; p.run(g, name); }
    { Shared<Reg, shp> p; p.run(g, name); }
    { Shared<Reg, inp> p; p.run(g, name); }
    { Unique<Reg> p; p.run(g, name); }
}

// ----------------------------------------------------------------- final checks
template<class F>
std::string caught(F f, Err& e) {
    try { f(); return "none"; } catch (Err& x) { e = x; return x.kind; }
}
template<class Reg, bool checks, class T>
void final_one(T& obj, bool exact, const char* who) {
    Err e;
    std::string k;
    vptr_type got = nullptr;
    if (checks) {
        k = caught([&] { got = final_virtual_ptr<Reg>(obj).vptr(); }, e);
        if (exact) { CHECK("final", k == "none", who); CHECK("final", got == Reg::template static_vptr<T>, who); }
        else {
            CHECK("final", k == "final_error", who + std::string(" got ") + k);
            CHECK("final", e.a == &typeid(T) && e.b == &typeid(obj), who);
            handler_throws = false;
            CHECK("final", aborts([&] { final_virtual_ptr<Reg>(obj); }), who + std::string(" did not abort"));
            handler_throws = true;
        }
    } else if (exact) {
        got = final_virtual_ptr<Reg>(obj).vptr();
        CHECK("final", got == Reg::template static_vptr<T>, who);
    }
    count("final");
}
template<class Reg, bool checks>
void finals() {
    Animal an; Dog dog; Cat cat; Bulldog bull; Robot rob; Chimera chi;
    final_one<Reg, checks>(an, true, "Animal");
    final_one<Reg, checks>(dog, true, "Dog");
    final_one<Reg, checks>(rob, true, "Robot");
    final_one<Reg, checks>(chi, true, "Chimera");
    final_one<Reg, checks, Animal>(dog, false, "Animal&->Dog");
    final_one<Reg, checks, Dog>(bull, false, "Dog&->Bulldog");
    final_one<Reg, checks, Dog>(rob, false, "Dog&->Robot");
    final_one<Reg, checks, Animal>(chi, false, "Animal&->Chimera");
    Stranger st;
    final_one<Reg, checks, Animal>(st, false, "Animal&->unregistered");
    auto s = make_shared_virtual<Bulldog, Reg>();
    CHECK("final", s.vptr() == Reg::template static_vptr<Bulldog> && s.get() != nullptr, "make_shared_virtual");
    auto u = make_unique_virtual<Cat, Reg>();
    CHECK("final", u.vptr() == Reg::template static_vptr<Cat>, "make_unique_virtual");
    auto b = make_boost_intrusive_virtual<Robot, Reg>();
    CHECK("final", b.vptr() == Reg::template static_vptr<Robot>, "make_boost_intrusive_virtual");
    Err e;
    if (checks) {
        auto k = caught([&] { final_virtual_ptr<Reg>(std::shared_ptr<Animal>(new Dog)); }, e);
        CHECK("final", k == "final_error" && e.a == &typeid(Animal) && e.b == &typeid(Dog), "shared_ptr");
        k = caught([&] { final_virtual_ptr<Reg>(std::unique_ptr<Dog>(new Bulldog)); }, e);
        CHECK("final", k == "final_error" && e.a == &typeid(Dog) && e.b == &typeid(Bulldog), "unique_ptr");
        k = caught([&] { virtual_ptr<Animal, Reg>::final(static_cast<Animal&>(cat)); }, e);
        CHECK("final", k == "final_error" && e.a == &typeid(Animal) && e.b == &typeid(Cat), "virtual_ptr::final");
    }
}
template<class Reg>
void missing() {
    Stranger st;
    Animal& a = st;
    Err e;
    auto t = [&](const char* what, auto f) {
        auto k = caught(f, e);
        CHECK("missing", k == "missing_class" && e.a == &typeid(Stranger), std::string(what) + " got " + k);
        handler_throws = false;
        CHECK("missing", aborts(f), std::string(what) + " did not abort");
        handler_throws = true;
        count("missing");
    };
    t("ref ctor", [&] { virtual_ptr<Animal, Reg> p(a); });
    t("ptr ctor", [&] { virtual_ptr<Animal, Reg> p(&a); });
    t("assign", [&] { virtual_ptr<Animal, Reg> p(nullptr); p = a; });
    t("assign ptr", [&] { virtual_ptr<Animal, Reg> p(nullptr); p = &a; });
    auto sh = std::make_shared<Stranger>();
    std::shared_ptr<Animal> sa = sh;
    t("shared ctor", [&] { virtual_ptr<std::shared_ptr<Animal>, Reg> p(sa); });
    t("shared assign", [&] { virtual_ptr<std::shared_ptr<Animal>, Reg> p; p = sa; });
    Animal an;
    CHECK("checks", caught([&] { virtual_ptr<Animal, Reg> p(an); }, e) == "none", "registered class rejected");
}

// ------------------------------------------------------------- in-place pointers
struct rip : registry<std_rtti, rec_handler, runtime_checks, vptr_map<>> {};
struct rii : registry<std_rtti, rec_handler, indirect_vptr, vptr_map<>> {};

template<class Base, class Reg>
vptr_type iv(const Base* b) { return boost_openmethod_vptr(*b, static_cast<Reg*>(nullptr)); }

template<class R>
struct H {
    using Reg = typename R::registry_type;
    template<class T> static vptr_type sv() { return Reg::template static_vptr<T>; }
    static inline std::vector<std::string> bad;
    static void see(const char* where, vptr_type got, vptr_type want) {
        count("inplace");
        if (got != want || !want) fail("inplace", std::string("wrong v-table in ") + where);
    }
    struct A : inplace_vptr_base<A, Reg> {
        A() { see("A()", iv<A, Reg>(this), sv<A>()); }
        ~A() { see("~A()", iv<A, Reg>(this), sv<A>()); }
        int a = 0;
    };
    struct B : A, inplace_vptr_derived<B, A> {
        B() { see("B()", iv<A, Reg>(this), sv<B>()); }
        ~B() { see("~B()", iv<A, Reg>(this), sv<B>()); }
        int b = 0;
    };
    struct C : B, inplace_vptr_derived<C, B> {
        C() { see("C()", iv<A, Reg>(this), sv<C>()); }
        ~C() { see("~C()", iv<A, Reg>(this), sv<C>()); }
    };
    struct X : inplace_vptr_base<X, Reg> {
        X() { see("X()", iv<X, Reg>(this), sv<X>()); }
        ~X() { see("~X()", iv<X, Reg>(this), sv<X>()); }
        int x = 0;
    };
    struct Y : X, inplace_vptr_derived<Y, X> {
        Y() { see("Y()", iv<X, Reg>(this), sv<Y>()); }
        ~Y() { see("~Y()", iv<X, Reg>(this), sv<Y>()); }
    };
    struct Z : inplace_vptr_base<Z, Reg> {
        Z() { see("Z()", iv<Z, Reg>(this), sv<Z>()); }
        ~Z() { see("~Z()", iv<Z, Reg>(this), sv<Z>()); }
    };
    // three bases, one of them deep
    struct D : B, Y, Z, inplace_vptr_derived<D, B, Y, Z> {
        void all(const char* w, vptr_type want) {
            see(w, iv<A, Reg>(this), want); see(w, iv<X, Reg>(this), want); see(w, iv<Z, Reg>(this), want);
            see(w, boost_openmethod_vptr(*this, static_cast<Reg*>(nullptr)), want);
        }
        D() { all("D()", sv<D>()); }
        ~D() { all("~D()", sv<D>()); }
    };
    struct E : D, inplace_vptr_derived<E, D> {
        E() { this->all("E()", sv<E>()); }
        ~E() { this->all("~E()", sv<E>()); }
    };
    static void run() {
        {
            A a; B b; C c; D d; E e;
            see("A", iv<A, Reg>(&a), sv<A>()); see("B", iv<A, Reg>(&b), sv<B>()); see("C", iv<A, Reg>(&c), sv<C>());
            d.all("D", sv<D>()); e.all("E", sv<E>());
            // vptrs are biased by the first slot, so unrelated classes may share an address
            std::set<vptr_type> a1{sv<A>(), sv<B>(), sv<C>(), sv<D>(), sv<E>()}, a2{sv<X>(), sv<Y>(), sv<D>(), sv<E>()}, a3{sv<Z>(), sv<D>(), sv<E>()};
            CHECK("inplace", a1.size() == 5 && a2.size() == 4 && a3.size() == 3, "v-tables are not distinct");
            // the pointer of a second base is not the one of its own class
            { vptr_type got = iv<X, Reg>(&d); CHECK("inplace", got == sv<D>() && got != sv<Y>(), "second base"); }
        }
        // what is left when a base destructor has completed (object storage kept)
        for (int k = 0; k < 2; ++k) {
            alignas(16) unsigned char buf[sizeof(E)];
            E* e = new (buf) E;
            A* pa = e; X* px = e; Z* pz = e;
            e->~E();
            for (vptr_type v : {vptr_after(pa), vptr_after(px), vptr_after(pz)})
                CHECK("inplace", v != sv<E>() && v != sv<D>() && v != sv<B>() && v != sv<Y>(), "derived v-table left after destruction");
        }
    }
    template<class T> static vptr_type vptr_after(T* p) {
        if constexpr (Reg::has_indirect_vptr) return p->boost_openmethod_vptr ? *p->boost_openmethod_vptr : nullptr;
        else return p->boost_openmethod_vptr;
    }
    struct IdF; struct IdG;
    using F = method<IdF, int(virtual_ptr<A, Reg>), Reg>;
    static int fA(virtual_ptr<A, Reg>) { return 1; }
    static int fB(virtual_ptr<B, Reg>) { return 2; }
    static int fC(virtual_ptr<C, Reg>) { return 3; }
    static int fD(virtual_ptr<D, Reg>) { return 4; }
    static inline typename F::template override<fA, fB, fC, fD> of;
    using G = method<IdG, int(virtual_<X&>), Reg>;
    static int gX(X&) { return 1; }
    static int gY(Y&) { return 2; }
    static int gE(E&) { return 3; }
    static inline typename G::template override<gX, gY, gE> og;
    struct IdK;   // gives Z a v-table of its own: an empty one may share its address with a neighbour
    using K = method<IdK, int(virtual_<Z&>), Reg>;
    static int kZ(Z&) { return 1; }
    static int kD(D&) { return 2; }
    static inline typename K::template override<kZ, kD> ok;
    static void calls(const char* when) {
        A a; B b; C c; D d; E e; X x; Y y; Z z;
        CHECK("inplace", K::fn(z) == 1 && K::fn(d) == 2 && K::fn(e) == 2, when);
        auto f = [&](auto& o) {
            if constexpr (Reg::has_indirect_vptr || true) return F::fn(final_or(o));
        };
        (void)f;
        CHECK("inplace", G::fn(x) == 1 && G::fn(y) == 2 && G::fn(d) == 2 && G::fn(e) == 3, when);
        CHECK("inplace", F::fn(vp(a)) == 1 && F::fn(vp(b)) == 2 && F::fn(vp(c)) == 3 && F::fn(vp(d)) == 4 && F::fn(vp(e)) == 4, when);
    }
    static virtual_ptr<A, Reg> vp(A& a) { return virtual_ptr<A, Reg>(a, box(a)); }
    static auto box(A& a) { return a.boost_openmethod_vptr; }
    template<class T> static virtual_ptr<T, Reg> final_or(T& t) { return final_virtual_ptr<Reg>(t); }
};
template struct H<rip>;
template struct H<rii>;

static void indirect_inplace() {
    // live objects keep working after re-initialization
    using HH = H<rii>;
    bom::initialize<HH::Reg>();
    HH::A a; HH::B b; HH::E e;
    auto before = HH::sv<HH::A>();
    for (int k = 0; k < 2; ++k) {
        if (k) bom::finalize<HH::Reg>();
        bom::initialize<HH::Reg>();
        HH::see("A after re-initialization", iv<HH::A, HH::Reg>(&a), HH::sv<HH::A>());
        HH::see("B after re-initialization", iv<HH::A, HH::Reg>(&b), HH::sv<HH::B>());
        e.all("E after re-initialization", HH::sv<HH::E>());
        CHECK("inplace", HH::F::fn(HH::vp(a)) == 1 && HH::F::fn(HH::vp(b)) == 2 && HH::F::fn(HH::vp(e)) == 4, "");
    }
    (void)before;
}

// --------------------------------------------------- indirect and re-initialize
template<class Reg>
struct LateCls { static inline std::unique_ptr<use_classes<Animal, late_class, Reg>> p; };

template<class Reg>
void indirect(Rng& g, const char* name) {
    Animal an; Dog dog; Cat cat; Bulldog bull; Robot rob; Chimera chi;
    virtual_ptr<Animal, Reg> p[] = {an, dog, cat, bull, rob, chi};
    Animal* o[] = {&an, &dog, &cat, &bull, &rob, &chi};
    virtual_ptr<std::shared_ptr<Animal>, Reg> s[] = {std::make_shared<Dog>(), std::make_shared<Robot>()};
    auto u = make_unique_virtual<Bulldog, Reg>();
    struct IdLate;
    struct Late { static int f(virtual_ptr<Dog, Reg>) { return 1; } };
    using LM = method<IdLate, int(virtual_ptr<Animal, Reg>), Reg>;
    // registered once, kept: the method list is extended at first use
    static typename LM::template override_impl<Late::f, int> lo;
    for (int k = 0; k < 3; ++k) {
        if (rnd(g, 2)) {
            alignas(16) static unsigned char buf[sizeof(use_classes<Animal, late_class, Reg>)];
            static bool on = false;
            using UC = use_classes<Animal, late_class, Reg>;
            if (on) reinterpret_cast<UC*>(buf)->~UC();
            else { std::memset(buf, 0, sizeof buf); new (buf) UC; }
            on = !on;
        }
        if (rnd(g, 3) == 0) bom::finalize<Reg>();
        bom::initialize<Reg>();
        for (int i = 0; i < 6; ++i) {
            CHECK("indirect", p[i].vptr() == vptr_of<Reg>(o[i]) && p[i].vptr() != nullptr, name);
            virtual_ptr<Animal, Reg> fresh(*o[i]);
            CHECK("indirect", fresh.vptr() == p[i].vptr(), name);
            CHECK("indirect", Methods<Reg>::name::fn(p[i]) == Methods<Reg>::expect(o[i]), name);
        }
        for (auto& q : s) CHECK("indirect", q.vptr() == vptr_of<Reg>(q.get()), name);
        CHECK("indirect", u.vptr() == vptr_of<Reg>(u.get()), name);
        virtual_ptr<Animal, Reg> nul(nullptr);
        CHECK("indirect", nul.vptr() == nullptr && nul.get() == nullptr, name);
        count("reinit");
    }
}

// ------------------------------------------------------------ argument passing
struct rargs : registry<std_rtti, vptr_map<>, rec_handler, runtime_checks> {};
using RA = rargs::registry_type;
static use_classes<Animal, Toy, Plush, Dog, Cat, Bulldog, Robot, Hydra, Chimera, RA> cra;

struct Counted {
    static inline int copies = 0, moves = 0;
    int v = 0;
    explicit Counted(int v) : v(v) {}
    Counted(const Counted& o) : v(o.v) { ++copies; }
    Counted(Counted&& o) : v(o.v) { o.v = -1; ++moves; }
};
static struct Seen {
    const void* obj[4] = {};
    int iv[4] = {};
    const void* ref = nullptr;
    long uses = 0;
    int copies = 0;
    std::string who;
} seen;

namespace args {
template<int N> struct Id;
// references: lvalue, const, rvalue, pointer
using mref = method<Id<0>, int&(virtual_<Animal&>, int&, const int&), RA>;
inline int& ref_dog(Dog& d, int& a, const int& b) { seen = {}; seen.obj[0] = &d; seen.obj[1] = &a; seen.obj[2] = &b; return a; }
inline int& ref_rob(Robot& d, int& a, const int& b) { seen = {}; seen.obj[0] = &d; seen.obj[1] = &a; seen.obj[2] = &b; seen.iv[0] = d.r; return a; }
inline int& ref_chi(Chimera& d, int& a, const int& b) { seen = {}; seen.obj[0] = &d; seen.obj[1] = &a; seen.obj[2] = &b; seen.iv[0] = d.m; return a; }
static mref::override<ref_dog, ref_rob, ref_chi> o0;

using mcref = method<Id<1>, void(int, virtual_<const Animal&>, Counted, virtual_<const Toy&>), RA>;
inline void cref_dog(int i, const Dog& d, Counted c, const Toy& t) { seen.who = "dog"; seen.iv[0] = i; seen.iv[1] = c.v; seen.obj[0] = &d; seen.obj[1] = &t; seen.copies = Counted::copies; }
inline void cref_rob(int i, const Dog& d, Counted c, const Robot& t) { seen.who = "rob"; seen.iv[0] = i; seen.iv[1] = c.v; seen.obj[0] = &d; seen.obj[1] = &t; seen.copies = Counted::copies; }
inline void cref_chi(int i, const Chimera& d, Counted c, const Robot& t) { seen.who = "chi"; seen.iv[0] = i; seen.iv[1] = c.v; seen.obj[0] = &d; seen.obj[1] = &t; seen.copies = Counted::copies; }
static mcref::override<cref_dog, cref_rob, cref_chi> o1;

using mrref = method<Id<2>, std::unique_ptr<int>(virtual_<Animal&&>, std::unique_ptr<int>), RA>;
inline std::unique_ptr<int> rref_dog(Dog&& d, std::unique_ptr<int> p) { seen = {}; seen.obj[0] = &d; seen.obj[1] = p.get(); return p; }
inline std::unique_ptr<int> rref_hyd(Hydra&& d, std::unique_ptr<int> p) { seen = {}; seen.obj[0] = &d; seen.obj[1] = p.get(); return p; }
static mrref::override<rref_dog, rref_hyd> o2;

using mptr = method<Id<3>, std::uintptr_t(virtual_<Animal*>, char*), RA>;
inline std::uintptr_t ptr_dog(Dog* d, char* s) { seen = {}; seen.obj[0] = d; seen.obj[1] = s; return (std::uintptr_t)(void*)d; }
inline std::uintptr_t ptr_rob(Robot* d, char* s) { seen = {}; seen.obj[0] = d; seen.obj[1] = s; return (std::uintptr_t)(void*)d; }
inline std::uintptr_t ptr_chi(Chimera* d, char* s) { seen = {}; seen.obj[0] = d; seen.obj[1] = s; return (std::uintptr_t)(void*)d; }
static mptr::override<ptr_dog, ptr_rob, ptr_chi> o3;

using mvp = method<Id<4>, Counted(virtual_ptr<Animal, RA>, virtual_ptr<Toy, RA>, Counted&&), RA>;
} // namespace args

namespace args2 {
template<int N> struct Id;
template<class T> using VP = virtual_ptr<T, RA>;
template<class T> using SVP = virtual_ptr<std::shared_ptr<T>, RA>;
template<class T> using UVP = virtual_ptr<std::unique_ptr<T>, RA>;
template<class T> using IVP = virtual_ptr<boost::intrusive_ptr<T>, RA>;
using mvp = method<Id<4>, Counted(VP<Animal>, const VP<Toy>&, Counted), RA>;
inline Counted vp_dog(VP<Dog> d, const VP<Plush>& t, Counted c) { seen = {}; seen.who = "dog"; seen.obj[0] = d.get(); seen.obj[1] = t.get(); seen.ref = d.vptr(); return c; }
inline Counted vp_rob(VP<Robot> d, const VP<Robot>& t, Counted c) { seen = {}; seen.who = "rob"; seen.obj[0] = d.get(); seen.obj[1] = t.get(); seen.ref = d.vptr(); return c; }
inline Counted vp_chi(VP<Chimera> d, const VP<Robot>& t, Counted c) { seen = {}; seen.who = "chi"; seen.obj[0] = d.get(); seen.obj[1] = t.get(); seen.ref = d.vptr(); return c; }
static mvp::override<vp_dog, vp_rob, vp_chi> o4;

using msh = method<Id<5>, long(virtual_<std::shared_ptr<Animal>>, int), RA>;
inline long sh_dog(std::shared_ptr<Dog> d, int i) { seen = {}; seen.obj[0] = d.get(); seen.iv[0] = i; return d.use_count(); }
inline long sh_chi(std::shared_ptr<Chimera> d, int i) { seen = {}; seen.obj[0] = d.get(); seen.iv[0] = i; return d.use_count(); }
inline long sh_ani(std::shared_ptr<Animal> d, int i) { seen = {}; seen.obj[0] = d.get(); seen.iv[0] = i; return d.use_count(); }
static msh::override<sh_dog, sh_chi, sh_ani> o5;

using mshc = method<Id<6>, long(virtual_<const std::shared_ptr<Animal>&>), RA>;
inline long shc_dog(const std::shared_ptr<Dog>& d) { seen = {}; seen.obj[0] = d.get(); return d.use_count(); }
inline long shc_chi(const std::shared_ptr<Chimera>& d) { seen = {}; seen.obj[0] = d.get(); return d.use_count(); }
inline long shc_ani(const std::shared_ptr<Animal>& d) { seen = {}; seen.obj[0] = d.get(); seen.ref = &d; return d.use_count(); }
static mshc::override<shc_dog, shc_chi, shc_ani> o6;

using mun = method<Id<7>, std::unique_ptr<Animal>(int, virtual_<std::unique_ptr<Animal>>), RA>;
inline std::unique_ptr<Animal> un_dog(int i, std::unique_ptr<Dog> d) { seen = {}; seen.iv[0] = i; seen.obj[0] = d.get(); return d; }
inline std::unique_ptr<Animal> un_chi(int i, std::unique_ptr<Chimera> d) { seen = {}; seen.iv[0] = i; seen.obj[0] = d.get(); return d; }
static mun::override<un_dog, un_chi> o7;

using min_ = method<Id<8>, long(virtual_<boost::intrusive_ptr<Animal>>), RA>;
inline long in_dog(boost::intrusive_ptr<Dog> d) { seen = {}; seen.obj[0] = d.get(); return d->use_count(); }
inline long in_chi(boost::intrusive_ptr<Chimera> d) { seen = {}; seen.obj[0] = d.get(); return d->use_count(); }
static min_::override<in_dog, in_chi> o8;
using minc = method<Id<9>, long(virtual_<const boost::intrusive_ptr<Animal>&>), RA>;
inline long inc_dog(const boost::intrusive_ptr<Dog>& d) { seen = {}; seen.obj[0] = d.get(); return d->use_count(); }
inline long inc_chi(const boost::intrusive_ptr<Chimera>& d) { seen = {}; seen.obj[0] = d.get(); return d->use_count(); }
inline long inc_ani(const boost::intrusive_ptr<Animal>& d) { seen = {}; seen.obj[0] = d.get(); seen.ref = &d; return d->use_count(); }
static minc::override<inc_dog, inc_chi, inc_ani> o9;

using msvp = method<Id<10>, long(SVP<Animal>, int, const SVP<Animal>&), RA>;
inline long svp_dd(SVP<Dog> d, int i, const SVP<Dog>& e) { seen = {}; seen.obj[0] = d.get(); seen.obj[1] = e.get(); seen.iv[0] = i; seen.ref = d.vptr(); return d.pointer().use_count(); }
inline long svp_cd(SVP<Chimera> d, int i, const SVP<Dog>& e) { seen = {}; seen.obj[0] = d.get(); seen.obj[1] = e.get(); seen.iv[0] = i; seen.ref = d.vptr(); return d.pointer().use_count(); }
inline long svp_dr(SVP<Dog> d, int i, const SVP<Robot>& e) { seen = {}; seen.who = "dr"; seen.obj[0] = d.get(); seen.obj[1] = e.get(); seen.iv[0] = i; seen.ref = d.vptr(); return d.pointer().use_count(); }
static msvp::override<svp_dd, svp_cd, svp_dr> o10;

using muvp = method<Id<11>, std::uintptr_t(UVP<Animal>), RA>;
inline std::uintptr_t uvp_dog(UVP<Dog> d) { seen = {}; seen.obj[0] = d.get(); seen.ref = d.vptr(); return (std::uintptr_t)(void*)d.get(); }
inline std::uintptr_t uvp_chi(UVP<Chimera> d) { seen = {}; seen.obj[0] = d.get(); seen.ref = d.vptr(); return (std::uintptr_t)(void*)d.get(); }
static muvp::override<uvp_dog, uvp_chi> o11;

using mivp = method<Id<12>, long(IVP<Animal>), RA>;
inline long ivp_dog(IVP<Dog> d) { seen = {}; seen.obj[0] = d.get(); seen.ref = d.vptr(); return d->use_count(); }
inline long ivp_chi(IVP<Chimera> d) { seen = {}; seen.obj[0] = d.get(); seen.ref = d.vptr(); return d->use_count(); }
static mivp::override<ivp_dog, ivp_chi> o12;
} // namespace args2

static void arguments() {
    bom::initialize<RA>();
    Animal an; Dog dog; Bulldog bull; Robot rob; Hydra hyd; Chimera chi; Cat cat; Toy toy; Plush plush;
    int a = 10; const int b = 20;
    {
        using namespace args;
        int& r0 = mref::fn(dog, a, b);
        CHECK("args", &r0 == &a && seen.obj[0] == &dog && seen.obj[1] == &a && seen.obj[2] == &b, "mref Dog");
        mref::fn(bull, a, b);
        CHECK("args", seen.obj[0] == static_cast<Dog*>(&bull), "mref Bulldog");
        mref::fn(rob, a, b);
        CHECK("args", seen.obj[0] == &rob && seen.iv[0] == 6, "mref Robot (non-primary base)");
        mref::fn(chi, a, b);
        CHECK("args", seen.obj[0] == &chi && seen.iv[0] == 8, "mref Chimera (virtual base)");
        for (int lv = 0; lv < 2; ++lv) {
            Counted c(7);
            auto call = [&](const Animal& x, const Toy& t) {
                seen = {}; Counted::copies = 0;
                if (lv) { mcref::fn(5, x, c, t); } else { mcref::fn(5, x, Counted(7), t); }
                CHECK("args", seen.copies == lv, "copies of a by-value argument: " + std::to_string(seen.copies));
                CHECK("args", seen.iv[0] == 5 && seen.iv[1] == 7, "values of by-value arguments");
            };
            call(bull, toy); CHECK("args", seen.who == "dog" && seen.obj[0] == static_cast<Dog*>(&bull) && seen.obj[1] == &toy, "mcref");
            call(dog, rob); CHECK("args", seen.who == "rob" && seen.obj[0] == &dog && seen.obj[1] == &rob, "mcref");
            call(chi, rob); CHECK("args", seen.who == "chi" && seen.obj[0] == &chi && seen.obj[1] == &rob, "mcref");
            call(rob, rob); CHECK("args", seen.who == "rob" && seen.obj[0] == static_cast<Dog*>(&rob) && seen.obj[1] == &rob, "mcref");
        }
        auto p = std::make_unique<int>(3);
        auto raw = p.get();
        auto q = mrref::fn(std::move(bull), std::move(p));
        CHECK("args", q.get() == raw && !p && seen.obj[0] == static_cast<Dog*>(&bull), "mrref Bulldog");
        q = mrref::fn(std::move(chi), std::move(q));
        CHECK("args", q.get() == raw && seen.obj[0] == static_cast<Hydra*>(&chi), "mrref Chimera (virtual base)");
        char s[] = "x";
        CHECK("args", mptr::fn(&rob, s) == (std::uintptr_t)&rob && seen.obj[0] == &rob && seen.obj[1] == s, "mptr Robot");
        CHECK("args", mptr::fn(&chi, s) == (std::uintptr_t)&chi && seen.obj[0] == &chi, "mptr Chimera");
        CHECK("args", mptr::fn(&bull, s) == (std::uintptr_t)static_cast<Dog*>(&bull), "mptr Bulldog");
        count("calls", 14);
    }
    {
        using namespace args2;
        auto t1 = mvp::fn(VP<Animal>(bull), VP<Toy>(plush), Counted(9));
        CHECK("args", t1.v == 9 && seen.who == "dog" && seen.obj[0] == static_cast<Dog*>(&bull) && seen.obj[1] == &plush && seen.ref == RA::static_vptr<Bulldog>, "mvp");
        auto t2 = mvp::fn(VP<Animal>(rob), VP<Toy>(rob), Counted(9));
        CHECK("args", t2.v == 9 && seen.who == "rob" && seen.obj[0] == &rob && seen.obj[1] == &rob && seen.ref == RA::static_vptr<Robot>, "mvp");
        auto t3 = mvp::fn(VP<Animal>(chi), VP<Toy>(rob), Counted(9));
        CHECK("args", t3.v == 9 && seen.who == "chi" && seen.obj[0] == &chi && seen.obj[1] == &rob && seen.ref == RA::static_vptr<Chimera>, "mvp");
        int l0 = live;
        {
            auto d = std::make_shared<Bulldog>();
            auto c = std::make_shared<Chimera>();
            std::shared_ptr<Animal> n = std::make_shared<Animal>(), dn = d;
            long k = msh::fn(d, 4);
            CHECK("args", seen.obj[0] == static_cast<Dog*>(d.get()) && seen.iv[0] == 4 && k >= 3 && d.use_count() == 2, "msh");
            msh::fn(c, 4);
            CHECK("args", seen.obj[0] == c.get() && c.use_count() == 1, "msh Chimera");
            k = msh::fn(n, 4);
            CHECK("args", seen.obj[0] == n.get() && k >= 2 && n.use_count() == 1, "msh same class");
            long m0 = msh::fn(std::move(n), 4);
            CHECK("args", m0 >= 1 && !n, "msh moved");
            n = std::make_shared<Animal>();
            mshc::fn(dn);
            CHECK("args", seen.obj[0] == static_cast<Dog*>(d.get()) && d.use_count() == 2, "mshc");
            mshc::fn(c);
            CHECK("args", seen.obj[0] == c.get(), "mshc Chimera");
            k = mshc::fn(n);
            CHECK("args", seen.obj[0] == n.get() && seen.ref == &n && k == 1, "mshc same type passes the reference itself");
            std::unique_ptr<Animal> u(new Bulldog);
            Animal* ru = u.get();
            u = mun::fn(3, std::move(u));
            CHECK("args", u.get() == ru && seen.iv[0] == 3 && seen.obj[0] == static_cast<Dog*>(static_cast<Bulldog*>(ru)), "mun");
            std::unique_ptr<Animal> uc(new Chimera);
            Animal* ruc = uc.get();
            uc = mun::fn(3, std::move(uc));
            CHECK("args", uc.get() == ruc && seen.obj[0] == dynamic_cast<Chimera*>(ruc), "mun Chimera");
            boost::intrusive_ptr<Animal> id(new Bulldog), ic(new Chimera), ia(new Animal);
            k = min_::fn(id);
            CHECK("args", seen.obj[0] == dynamic_cast<Dog*>(id.get()) && k >= 2 && id->use_count() == 1, "min");
            min_::fn(ic);
            CHECK("args", seen.obj[0] == dynamic_cast<Chimera*>(ic.get()) && ic->use_count() == 1, "min Chimera");
            minc::fn(id);
            CHECK("args", seen.obj[0] == dynamic_cast<Dog*>(id.get()) && id->use_count() == 1, "minc");
            minc::fn(ic);
            CHECK("args", seen.obj[0] == dynamic_cast<Chimera*>(ic.get()) && ic->use_count() == 1, "minc Chimera");
            k = minc::fn(ia);
            CHECK("args", seen.ref == &ia && k == 1, "minc same type passes the reference itself");
            SVP<Animal> sd(d), sc(c), sr(std::make_shared<Robot>());
            k = msvp::fn(sd, 8, sd);
            CHECK("args", seen.obj[0] == static_cast<Dog*>(d.get()) && seen.obj[1] == static_cast<Dog*>(d.get()) && seen.iv[0] == 8 && seen.ref == RA::static_vptr<Bulldog> && k > 3 && d.use_count() == 3, "msvp");
            msvp::fn(sc, 8, sd);
            CHECK("args", seen.obj[0] == c.get() && seen.obj[1] == static_cast<Dog*>(d.get()) && seen.ref == RA::static_vptr<Chimera>, "msvp");
            msvp::fn(sd, 8, sr);
            CHECK("args", seen.who == "dr" && seen.obj[1] == dynamic_cast<Robot*>(sr.get()), "msvp Robot");
            UVP<Animal> uv = make_unique_virtual<Bulldog, RA>();
            auto ruv = uv.get();
            CHECK("args", muvp::fn(std::move(uv)) == (std::uintptr_t)static_cast<Dog*>(static_cast<Bulldog*>(ruv)) && !uv.get() && seen.ref == RA::static_vptr<Bulldog>, "muvp");
            UVP<Animal> uv2 = make_unique_virtual<Chimera, RA>();
            auto dyn = dynamic_cast<Chimera*>(uv2.get());
            CHECK("args", muvp::fn(std::move(uv2)) == (std::uintptr_t)dyn && seen.ref == RA::static_vptr<Chimera>, "muvp Chimera");
            IVP<Animal> iv1(id), iv2(ic);
            k = mivp::fn(iv1);
            CHECK("args", seen.obj[0] == dynamic_cast<Dog*>(id.get()) && k > 2 && id->use_count() == 2 && seen.ref == RA::static_vptr<Bulldog>, "mivp");
            mivp::fn(iv2);
            CHECK("args", seen.obj[0] == dynamic_cast<Chimera*>(ic.get()) && seen.ref == RA::static_vptr<Chimera>, "mivp Chimera");
        }
        CHECK("args", live == l0, "objects leaked or destroyed twice");
        count("calls", 24);
    }
    bom::finalize<RA>();
}

// ------------------------------------------------------- errors, next, has_next
struct rerr : registry<std_rtti, vptr_map<>, rec_handler, runtime_checks> {};
using RE = rerr::registry_type;
static use_classes<Animal, Dog, Cat, Bulldog, Robot, Toy, RE> cre;
namespace errs {
template<int N> struct Id;
static int ran = 0;
using VA = virtual_ptr<Animal, RE>;
using m2 = method<Id<0>, int(int, virtual_<Animal&>, double, VA, char), RE>;
static int f1(int, Dog&, double, VA, char) { ++ran; return 1; }
static int f2(int, Animal&, double, virtual_ptr<Dog, RE>, char) { ++ran; return 2; }
static int f3(int, Cat&, double, virtual_ptr<Cat, RE>, char) { ++ran; return 3; }
static m2::override<f1, f2, f3> o;
using m1 = method<Id<1>, int(const char*, VA), RE>;
static int g_dog(const char*, virtual_ptr<Dog, RE>) { ++ran; return 1; }
static int g_bull(const char* s, virtual_ptr<Bulldog, RE> p) { ++ran; return 10 + m1::next<g_bull>(s, p); }
static int g_cat(const char* s, virtual_ptr<Cat, RE> p) { ++ran; return m1::has_next<g_cat>() ? -1 : m1::next<g_cat>(s, p); }
static m1::override<g_dog, g_bull, g_cat> o1;
using m3 = method<Id<2>, int(virtual_<Animal&>, virtual_<Animal&>), RE>;
static int h_dd(Dog& a, Dog& b) { ++ran; return m3::next<h_dd>(a, b); }
static int h_da(Dog&, Animal&) { ++ran; return 2; }
static int h_ad(Animal&, Dog&) { ++ran; return 3; }
static int h_cc(Cat& a, Cat& b) { ++ran; return 10 + m3::next<h_cc>(a, b); }
static int h_ca(Cat&, Animal&) { ++ran; return 5; }
static m3::override<h_dd, h_da, h_ad, h_cc, h_ca> o3;
// more virtual arguments than the error object can describe
#define A4 virtual_<Animal&>, virtual_<Animal&>, virtual_<Animal&>, virtual_<Animal&>
using m17 = method<Id<3>, int(A4, A4, int, A4, A4, virtual_<Animal&>), RE>;
#undef A4
static int big(Dog&, Dog&, Dog&, Dog&, Dog&, Dog&, Dog&, Dog&, int, Dog&, Dog&, Dog&, Dog&, Dog&, Dog&, Dog&, Dog&, Dog&) { ++ran; return 1; }
static m17::override<big> o17;

static void run() {
    bom::initialize<RE>();
    Animal an; Dog dog; Cat cat; Bulldog bull; Robot rob;
    Err e;
    auto expect = [&](const char* what, const char* kind, type_id meth, std::vector<const Animal*> as, auto f) {
        ran = 0;
        e = {};
        auto k = caught(f, e);
        CHECK("errors", k == kind, std::string(what) + " got " + k);
        if (k != kind) return;
        CHECK("badcall", e.arity == as.size(), std::string(what) + " arity " + std::to_string(e.arity));
        CHECK("badcall", e.method == meth, what);
        for (std::size_t i = 0; i < as.size() && i < e.types.size(); ++i)
            CHECK("badcall", e.types[i] == &typeid(*as[i]), std::string(what) + " type of virtual argument " + std::to_string(i));
        handler_throws = false;
        CHECK("errors", aborts([&] { f(); }), std::string(what) + " continued after the handler returned");
        handler_throws = true;
        count("errors");
    };
    expect("m2(cat,bull)=no", "ambiguous_call", &typeid(m2), {&bull, &dog}, [&] { m2::fn(1, bull, 2., VA(dog), 'c'); });
    CHECK("errors", ran == 0, "an overrider ran in an ambiguous call");
    expect("m2", "no_overrider", &typeid(m2), {&an, &cat}, [&] { m2::fn(1, an, 2., VA(cat), 'c'); });
    expect("m2", "no_overrider", &typeid(m2), {&cat, &an}, [&] { m2::fn(1, cat, 2., VA(an), 'c'); });
    expect("m2", "ambiguous_call", &typeid(m2), {&rob, &bull}, [&] { m2::fn(1, rob, 2., VA(bull), 'c'); });
    CHECK("errors", ran == 0, "an overrider ran in a failed call");
    CHECK("dispatch", m2::fn(1, dog, 2., VA(an), 'c') == 1 && m2::fn(1, an, 2., VA(rob), 'c') == 2 && m2::fn(1, cat, 2., VA(cat), 'c') == 3, "");
    expect("m1", "no_overrider", &typeid(m1), {&an}, [&] { m1::fn("x", VA(an)); });
    CHECK("next", m1::fn("x", VA(bull)) == 11, "next of Bulldog is Dog");
    CHECK("next", m1::has_next<g_bull>() && !m1::has_next<g_dog>() && !m1::has_next<g_cat>(), "has_next");
    expect("next of g_cat", "no_overrider", &typeid(m1), {&cat}, [&] { m1::fn("x", VA(cat)); });
    CHECK("next", !m3::has_next<h_dd>() && m3::has_next<h_cc>() && !m3::has_next<h_da>(), "has_next m3");
    expect("next of h_dd", "ambiguous_call", &typeid(m3), {&bull, &dog}, [&] { m3::fn(bull, dog); });
    CHECK("next", m3::fn(cat, cat) == 15, "next of h_cc is h_ca");
    {
        std::vector<const Animal*> as{&an, &dog, &cat, &bull, &rob, &an, &dog, &cat, &bull, &rob, &an, &dog, &cat, &bull, &rob, &an, &dog};
        auto f = [&] { m17::fn(an, dog, cat, bull, rob, an, dog, cat, 99, bull, rob, an, dog, cat, bull, rob, an, dog); };
        expect("m17", "no_overrider", &typeid(m17), as, f);
        CHECK("badcall", e.types.size() == 16, "");
        CHECK("dispatch", m17::fn(dog, dog, dog, dog, dog, dog, dog, dog, 1, dog, dog, dog, dog, dog, dog, dog, dog, bull) == 1, "");
    }
    bom::finalize<RE>();
    auto ni = [&](const char* what, auto f) {
        auto k = caught(f, e);
        CHECK("uninit", k == "not_initialized", std::string(what) + " got " + k);
        handler_throws = false;
        CHECK("uninit", aborts([&] { f(); }), std::string(what) + " continued after the handler returned");
        handler_throws = true;
    };
    ni("call", [&] { m3::fn(dog, dog); });
    ni("virtual_ptr", [&] { VA p(dog); });
    ni("final_virtual_ptr", [&] { final_virtual_ptr<RE>(dog); });
    ni("shared", [&] { virtual_ptr<std::shared_ptr<Animal>, RE> p(std::make_shared<Dog>()); });
    bom::initialize<RE>();
    CHECK("dispatch", m3::fn(cat, cat) == 15, "after a second initialize");
}
} // namespace errs

// ------------------------------------------------------- deferred static rtti
namespace deferred {
struct A { int id; explicit A(int i = 11) : id(i) {} };
struct B : A { explicit B(int i = 12) : A(i) {} };
struct C : B { C() : B(13) {} };
static bool ready = false;
struct drtti : deferred_static_rtti {
    template<class Registry>
    struct fn : rtti::defaults {
        template<class T> static constexpr bool is_polymorphic = std::is_base_of_v<A, T>;
        template<class T> static type_id static_type() {
            std::uintptr_t v = 99;
            if constexpr (std::is_same_v<T, A>) v = 11;
            else if constexpr (std::is_same_v<T, B>) v = 12;
            else if constexpr (std::is_same_v<T, C>) v = 13;
            else if constexpr (std::is_same_v<T, void>) v = 98;
            return reinterpret_cast<type_id>(ready ? v : std::uintptr_t(1000));
        }
        template<class T> static type_id dynamic_type(const T& o) {
            if constexpr (std::is_base_of_v<A, T>) return reinterpret_cast<type_id>(std::uintptr_t(o.id));
            else return nullptr;
        }
        static type_id type_index(type_id t) { return t; }
        template<class D, class S> static D dynamic_cast_ref(S&& s) { return static_cast<D>(s); }
    };
};
struct rdef : registry<drtti, vptr_map<>, rec_handler> {};
using R = rdef::registry_type;
static use_classes<A, B, C, R> u;
struct Id;
using m = method<Id, int(virtual_<A&>, virtual_<A&>), R>;
static int faa(A&, A&) { return 1; }
static int fba(B&, A&) { return 2; }
static int fcc(C& a, C& b) { return 10 + m::next<fcc>(a, b); }
static m::override<faa, fba, fcc> o;
static void run() {
    ready = true;
    bom::initialize<R>();
    A a; B b; C c;
    CHECK("deferred", m::fn(a, a) == 1 && m::fn(a, c) == 1 && m::fn(b, c) == 2 && m::fn(c, a) == 2 && m::fn(c, c) == 12, "");
    count("deferred");
}
} // namespace deferred

int main(int argc, char** argv) {
    catch_crashes();
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
    std::uint64_t first = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 0;
    std::uint64_t cnt = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 100;
    if (argc > 4) only_tag = argv[4];
    bom::initialize<rd::registry_type>();
    bom::initialize<ri::registry_type>();
    bom::initialize<rn::registry_type>();
    bom::initialize<rin::registry_type>();
    cur = "fixed";
    arguments();
    errs::run();
    deferred::run();
    finals<rd::registry_type, true>();
    finals<ri::registry_type, true>();
    finals<rn::registry_type, false>();
    finals<rin::registry_type, false>();
    missing<rd::registry_type>();
    missing<ri::registry_type>();
    bom::initialize<rip::registry_type>();
    H<rip>::run();
    H<rip>::calls("direct");
    bom::initialize<rii::registry_type>();
    H<rii>::run();
    H<rii>::calls("indirect");
    indirect_inplace();
    for (std::uint64_t n = first; n < first + cnt; ++n) {
        Rng g(seed * 1000003 + n);
        cur = std::to_string(seed) + ":" + std::to_string(n);
        count("cases");
        values<rd::registry_type>(g, "direct+checks");
        values<ri::registry_type>(g, "indirect+checks");
        values<rn::registry_type>(g, "direct");
        values<rin::registry_type>(g, "indirect");
        indirect<ri::registry_type>(g, "indirect+checks");
        indirect<rin::registry_type>(g, "indirect");
    }
    return done();
}
