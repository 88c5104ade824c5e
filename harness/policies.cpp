// Concrete replay / bounded stand-in: perfect hash, v-table pointer policies
// and registration lists (C08, C09, C10, C11) on the real headers.
// usage: policies SEED FIRST COUNT [TAGS]
#include "common.hpp"
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
using namespace hx;
namespace bom = boost::openmethod;
using namespace bom;
using namespace bom::policies;
using bom::type_id;

struct Obj { type_id tid; };

struct id_rtti : rtti {
    template<class Registry>
    struct fn : rtti::defaults {
        template<class T> static constexpr bool is_polymorphic = std::is_base_of_v<Obj, T>;
        template<class T> static type_id static_type() { return nullptr; }
        template<class T> static type_id dynamic_type(const T& o) {
            if constexpr (std::is_base_of_v<Obj, T>) return o.tid; else return nullptr;
        }
        static type_id type_index(type_id id) { return id; }
    };
};

struct Rec {
    int kind = 0;  // 1 missing_class 2 not_initialized 3 search_error 9 other
    type_id type = nullptr;
    std::size_t attempts = 0;
};
static bool handler_throws = true;
static Rec last;
struct rec_handler : error_handler {
    template<class Registry>
    struct fn {
        template<class E> static void error(const E& e) {
            Rec r;
            if constexpr (std::is_same_v<E, missing_class>) { r.kind = 1; r.type = e.type; }
            else if constexpr (std::is_same_v<E, not_initialized>) r.kind = 2;
            else if constexpr (std::is_same_v<E, fast_perfect_hash::search_error>) { r.kind = 3; r.attempts = e.attempts; }
            else r.kind = 9;
            last = r;
            if (handler_throws) throw r;
        }
    };
};

struct r0 : registry<id_rtti, fast_perfect_hash, vptr_vector, rec_handler, runtime_checks> {};
struct r1 : registry<id_rtti, fast_perfect_hash, vptr_vector, rec_handler> {};
struct r2 : registry<id_rtti, fast_perfect_hash, vptr_vector, rec_handler, indirect_vptr, runtime_checks> {};
struct r3 : registry<id_rtti, vptr_map<>, rec_handler, runtime_checks> {};
struct r4 : registry<id_rtti, vptr_map<boost::mp11::mp_quote<std::map>>, rec_handler, indirect_vptr, runtime_checks> {};
struct r5 : registry<id_rtti, vptr_vector, rec_handler, runtime_checks> {};
struct r6 : registry<id_rtti, vptr_vector, rec_handler, indirect_vptr, runtime_checks> {};
struct r7 : registry<id_rtti, fast_perfect_hash, vptr_vector, rec_handler, indirect_vptr> {};
struct r8 : registry<id_rtti, vptr_vector, rec_handler> {};

struct MockClass {
    std::vector<type_id> ids;
    vptr_type* slot;
    const vptr_type& vptr() const { return *slot; }
    auto type_id_begin() const { return ids.begin(); }
    auto type_id_end() const { return ids.end(); }
};
struct Ctx {
    std::vector<MockClass> cs;
    auto classes_begin() const { return cs.begin(); }
    auto classes_end() const { return cs.end(); }
    template<class T> static constexpr bool has_option = false;
};

static bom::detail::word words[4096];

static std::vector<std::uintptr_t> gen_ids(Rng& g, std::size_t n, bool small) {
    std::set<std::uintptr_t> s;
    int style = rnd(g, 6);
    std::uintptr_t base = g();
    if (style == 3) base &= 0x7fffffffffffull;
    while (s.size() < n) {
        std::uintptr_t v;
        if (small) v = g() % (2 * n + 3);
        else switch (style) {
            case 0: v = g(); break;
            case 1: v = base + 8 * s.size(); break;
            case 2: v = base + 16 * (g() % (4 * n)); break;
            case 3: v = base + 64 * s.size() + 8 * rnd(g, 3); break;
            case 4: v = g() % (3 * n); break;
            default: v = (g() % 7) << (g() % 61) ^ (g() % 5); break;
        }
        if (v == ~std::uintptr_t(0)) continue;
        if (!small && style == 5 && s.count(v)) v = g();
        s.insert(v);
    }
    std::vector<std::uintptr_t> r(s.begin(), s.end());
    std::shuffle(r.begin(), r.end(), g);
    return r;
}

template<class R, bool hash, bool indirect, bool checks, bool small>
static void kind(Rng& g, const char* name) {
    using Reg = typename R::registry_type;
    using VP = typename Reg::template policy<policies::vptr>;
    static vptr_type slots[4096];
    int rounds = 1 + rnd(g, 3);
    for (int round = 0; round < rounds; ++round) {
        std::size_t n;
        switch (rnd(g, 5)) { case 0: n = rnd(g, 4); break; case 1: n = rnd(g, 130); break; default: n = 1 + rnd(g, 40); }
        if (hash && n == 0 && !checks) n = 1;
        auto ids = gen_ids(g, n, small);
        Ctx ctx;
        std::size_t at = 0;
        while (at < ids.size()) {
            std::size_t k = 1 + (rnd(g, 4) == 0 ? rnd(g, 3) : 0);
            MockClass c;
            while (k-- && at < ids.size()) c.ids.push_back(reinterpret_cast<type_id>(ids[at++]));
            c.slot = &slots[ctx.cs.size()];
            *c.slot = words + g() % 4096;
            ctx.cs.push_back(c);
        }
        std::string who = std::string(name) + " round " + std::to_string(round) + " n=" + std::to_string(n);
        // what a registry does: initialize the v-table pointer policy
        try {
            VP::initialize(ctx, std::tuple<>());
        } catch (Rec& r) {
            if (r.kind == 3) { count("search_error"); continue; }
            fail("hash", who + " unexpected error in initialize");
            continue;
        }
        count("initialized");
        std::map<std::uintptr_t, vptr_type*> expect;
        for (auto& c : ctx.cs) for (auto t : c.ids) expect[std::uintptr_t(t)] = c.slot;
        if constexpr (hash) {
            using H = typename Reg::template policy<policies::type_hash>;
            std::map<std::size_t, std::uintptr_t> seen;
            for (auto& [id, sl] : expect) {
                std::size_t h;
                try { h = H::hash(reinterpret_cast<type_id>(id)); }
                catch (Rec&) { fail("checks", who + " registered type rejected"); continue; }
                auto [it, fresh] = seen.insert({h, id});
                (void)it;
                if (!fresh) fail("hash", who + " two registered types have the same hash");
                if (h < H::min_value || h > H::max_value) fail("hash", who + " hash outside [min,max]");
                std::size_t sz = indirect ? bom::detail::vptr_vector_indirect_vptrs<Reg>.size() : bom::detail::vptr_vector_vptrs<Reg>.size();
                if (h >= sz) fail("hash", who + " hash outside the table");
                count("hashes");
            }
        }
        int bump = rnd(g, 2);
        if (indirect && bump) for (auto& c : ctx.cs) *c.slot = words + g() % 4096;  // re-initialized tables
        for (auto& [id, sl] : expect) {
            Obj o{reinterpret_cast<type_id>(id)};
            try {
                const vptr_type& v = VP::dynamic_vptr(o);
                if (v != *sl) fail("vptr", who + " wrong v-table pointer");
                if (indirect && &v != sl) fail("vptr", who + " indirect pointer does not designate the class' own pointer");
                count("lookups");
            } catch (Rec&) { fail("checks", who + " error reported for a registered class"); }
        }
        if constexpr (checks) {
            for (int k = 0; k < 60; ++k) {
                std::uintptr_t id;
                if (small) {
                    std::uintptr_t mx = 0;
                    for (auto& [i, s] : expect) mx = std::max(mx, i);
                    id = mx + 1 + (k < 3 ? k : g() % 1000000);
                    if (k == 5) id = ~std::uintptr_t(0);
                } else if (k % 3 == 0 || expect.empty()) id = g();
                else {
                    auto it = expect.begin();
                    std::advance(it, g() % expect.size());
                    id = it->first + (k % 3 == 1 ? 1 : -std::uintptr_t(1 + rnd(g, 8)));
                }
                if (expect.count(id) || id == ~std::uintptr_t(0)) continue;
                Obj o{reinterpret_cast<type_id>(id)};
                last = Rec{};
                try {
                    VP::dynamic_vptr(o);
                    fail("missing", who + " unregistered class not reported");
                } catch (Rec& r) {
                    if (r.kind != 1 || r.type != o.tid) fail("missing", who + " wrong error for unregistered class");
                }
                count("missing");
            }
        }
        if (rnd(g, 4) == 0) VP::finalize(std::tuple<>());
    }
}

struct node : bom::detail::static_list<node>::static_link { int v = 0; };

static void lists(Rng& g) {
    // the library's lists live in static storage and are never constructed
    alignas(8) static char lbuf[sizeof(bom::detail::static_list<node>)];
    std::memset(lbuf, 0, sizeof lbuf);
    auto& l = *new (lbuf) bom::detail::static_list<node>;
    constexpr int N = 7;
    alignas(16) static char nbuf[N * sizeof(node)];
    std::memset(nbuf, 0, sizeof nbuf);
    node* ns[N];
    std::vector<node*> model, outn;
    for (int i = 0; i < N; ++i) { ns[i] = new (nbuf + i * sizeof(node)) node; outn.push_back(ns[i]); }
    std::string ops;
    for (int s = 0; s < 24; ++s) {
        int op = rnd(g, 20);
        if (op == 0) {
            l.clear(); ops += " clear";
            for (auto m : model) outn.push_back(m);
            model.clear();
        } else if (op < 11 && !outn.empty()) {
            int k = rnd(g, int(outn.size()));
            l.push_back(*outn[k]); ops += " push" + std::to_string(outn[k] - ns[0]);
            model.push_back(outn[k]); outn.erase(outn.begin() + k);
        } else if (!model.empty()) {
            int w = rnd(g, 4);
            int k = w == 0 ? 0 : w == 1 ? int(model.size()) - 1 : rnd(g, int(model.size()));
            l.remove(*model[k]); ops += " remove" + std::to_string(model[k] - ns[0]);
            outn.push_back(model[k]); model.erase(model.begin() + k);
        }
        std::vector<node*> got;
        int guard = 0;
        for (auto& x : l) { got.push_back(&x); if (++guard > 2 * N) break; }
        std::vector<const node*> cgot;
        guard = 0;
        for (auto& x : std::as_const(l)) { cgot.push_back(&x); if (++guard > 2 * N) break; }
        if (got != model) { fail("list", "iteration differs from the registrations after" + ops); return; }
        if (!std::equal(cgot.begin(), cgot.end(), model.begin(), model.end())) { fail("list", "const iteration differs after" + ops); return; }
        if (l.size() != model.size() || l.empty() != model.empty()) { fail("list", "size/empty wrong after" + ops); return; }
        count("listops");
    }
}

// real registration objects, constructed and destroyed in any order
struct A { virtual ~A() {} };
struct B : A {};
struct C : A {};
struct D : B {};
struct rl : registry<std_rtti, vptr_map<>, rec_handler> {};
struct MId;
using ML = method<MId, int(virtual_<A&>), rl::registry_type>;
static int fa(A&) { return 1; }
static int fb(B&) { return 2; }
static int fc(C&) { return 3; }
static int fd(D&) { return 4; }

template<class T>
struct Slot {
    alignas(T) unsigned char buf[sizeof(T)];
    bool live = false;
    void make() { std::memset(buf, 0, sizeof buf); new (buf) T; live = true; }
    void kill() { reinterpret_cast<T*>(buf)->~T(); live = false; }
};

static void objects(Rng& g) {
    using Reg = rl::registry_type;
    static Slot<use_classes<A, B, Reg>> u1;
    static Slot<use_classes<A, C, D, Reg>> u2;
    static Slot<use_classes<D, B, Reg>> u3;
    static Slot<ML::override_impl<fa, int>> o1;
    static Slot<ML::override_impl<fb, int>> o2;
    static Slot<ML::override_impl<fc, int>> o3;
    static Slot<ML::override_impl<fd, int>> o4;
    std::vector<std::vector<type_id>> dummy;
    struct E { const void* base; std::size_t size; };
    std::vector<std::pair<int, int>> live;  // (kind, index): construction order of the live groups
    std::string ops;
    auto ids = [](int k) -> std::multiset<type_id> {
        auto t = [](const std::type_info& i) { return type_id(&i); };
        switch (k) {
        case 0: return {t(typeid(A)), t(typeid(B))};
        case 1: return {t(typeid(A)), t(typeid(C)), t(typeid(D))};
        default: return {t(typeid(B)), t(typeid(D))};
        }
    };
    std::vector<int> us, os;
    auto flip_u = [&](int k) {
        auto f = [&](auto& s) {
            if (s.live) { s.kill(); us.erase(std::find(us.begin(), us.end(), k)); ops += " -u" + std::to_string(k); }
            else { s.make(); us.push_back(k); ops += " +u" + std::to_string(k); }
        };
        if (k == 0) f(u1); else if (k == 1) f(u2); else f(u3);
    };
    auto flip_o = [&](int k) {
        auto f = [&](auto& s) {
            if (s.live) { s.kill(); os.erase(std::find(os.begin(), os.end(), k)); ops += " -o" + std::to_string(k); }
            else { s.make(); os.push_back(k); ops += " +o" + std::to_string(k); }
        };
        if (k == 0) f(o1); else if (k == 1) f(o2); else if (k == 2) f(o3); else f(o4);
    };
    void (*pfs[4])() = {
        reinterpret_cast<void (*)()>(ML::thunk<fa, int (*)(A&)>::fn), reinterpret_cast<void (*)()>(ML::thunk<fb, int (*)(B&)>::fn),
        reinterpret_cast<void (*)()>(ML::thunk<fc, int (*)(C&)>::fn), reinterpret_cast<void (*)()>(ML::thunk<fd, int (*)(D&)>::fn)};
    auto verify = [&] {
        std::multiset<type_id> got, exp;
        int guard = 0;
        for (auto& c : Reg::classes) { got.insert(c.type); if (++guard > 50) break; }
        for (int k : us) for (auto t : ids(k)) exp.insert(t);
        CHECK("list", got == exp, "registered classes after" + ops);
        // groups stay in construction order
        std::vector<type_id> order;
        guard = 0;
        for (auto& c : Reg::classes) { order.push_back(c.type); if (++guard > 50) break; }
        std::size_t at = 0;
        for (int k : us) {
            auto e = ids(k);
            std::multiset<type_id> grp;
            for (std::size_t i = 0; i < e.size() && at < order.size(); ++i) grp.insert(order[at++]);
            CHECK("list", grp == e, "class order after" + ops);
        }
        std::vector<void (*)()> go, eo;
        guard = 0;
        for (auto& o : ML::fn.overriders) { go.push_back(o.pf); if (++guard > 50) break; }
        for (int k : os) eo.push_back(pfs[k]);
        CHECK("list", go == eo, "overriders after" + ops);
    };
    int steps = 4 + rnd(g, 20);
    for (int s = 0; s < steps; ++s) {
        if (rnd(g, 2)) flip_u(rnd(g, 3)); else flip_o(rnd(g, 4));
        verify();
        if (rnd(g, 6) == 0 && o1.live) {
            // registering the same overrider again leaves one registration
            new (o1.buf) ML::override_impl<fa, int>;
            ops += " again-o0";
            verify();
        }
        count("objops");
    }
    while (!us.empty()) { flip_u(us[rnd(g, int(us.size()))]); verify(); }
    while (!os.empty()) { flip_o(os[rnd(g, int(os.size()))]); verify(); }
}

static void search_failure() {
    // two classes with one identifier: no hash function exists
    auto go = [](auto r) {
        using Reg = typename decltype(r)::registry_type;
        Ctx ctx;
        static vptr_type s[3];
        int x[3] = {7, 9, 7};
        for (int i = 0; i < 3; ++i) ctx.cs.push_back(MockClass{{reinterpret_cast<type_id>(std::uintptr_t(x[i]))}, &s[i]});
        handler_throws = true;
        try {
            Reg::template policy<policies::vptr>::initialize(ctx, std::tuple<>());
            fail("search", "colliding identifiers accepted");
        } catch (Rec& e) {
            CHECK("search", e.kind == 3, "");
            CHECK("search", e.attempts > 0, "");
        }
        handler_throws = false;
        CHECK("search", aborts([&] { Reg::template policy<policies::vptr>::initialize(ctx, std::tuple<>()); }), "handler returned");
        handler_throws = true;
    };
    go(r0());
    go(r1());
}

template<class R, bool small>
static void missing_abort() {
    using Reg = typename R::registry_type;
    using VP = typename Reg::template policy<policies::vptr>;
    static vptr_type s[2];
    Ctx ctx;
    ctx.cs.push_back(MockClass{{reinterpret_cast<type_id>(std::uintptr_t(3))}, &s[0]});
    ctx.cs.push_back(MockClass{{reinterpret_cast<type_id>(std::uintptr_t(5))}, &s[1]});
    VP::initialize(ctx, std::tuple<>());
    handler_throws = false;
    for (std::uintptr_t id : {std::uintptr_t(6), std::uintptr_t(1234567), std::uintptr_t(7)})
        CHECK("missing", aborts([&] { Obj o{reinterpret_cast<type_id>(id)}; VP::dynamic_vptr(o); }), "program continued after missing_class");
    CHECK("checks", !aborts([&] { Obj o{reinterpret_cast<type_id>(std::uintptr_t(5))}; VP::dynamic_vptr(o); }), "");
    handler_throws = true;
}

int main(int argc, char** argv) {
    catch_crashes();
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
    std::uint64_t first = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 0;
    std::uint64_t cnt = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 300;
    if (argc > 4) only_tag = argv[4];
    if (first == 0) {
        cur = "fixed";
        search_failure();
        missing_abort<r0, false>();
        missing_abort<r2, false>();
        missing_abort<r3, false>();
        missing_abort<r4, false>();
        missing_abort<r5, true>();
        missing_abort<r6, true>();
    }
    for (std::uint64_t n = first; n < first + cnt; ++n) {
        Rng g(seed * 1000003 + n);
        cur = std::to_string(seed) + ":" + std::to_string(n);
        count("cases");
        for (int i = 0; i < 20; ++i) lists(g);
        objects(g);
        kind<r0, true, false, true, false>(g, "hash+vector+checks");
        kind<r1, true, false, false, false>(g, "hash+vector");
        kind<r2, true, true, true, false>(g, "hash+vector+indirect+checks");
        kind<r3, false, false, true, false>(g, "map+checks");
        kind<r4, false, true, true, false>(g, "std::map+indirect+checks");
        kind<r5, false, false, true, true>(g, "vector+checks");
        kind<r6, false, true, true, true>(g, "vector+indirect+checks");
        kind<r7, true, true, false, false>(g, "hash+vector+indirect");
        kind<r8, false, false, false, true>(g, "vector");
    }
    return done();
}
