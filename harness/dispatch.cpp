// Concrete replay / bounded stand-in for the dispatch properties.  Runs the
// REAL boost::openmethod code (headers of /repo) on generated class
// hierarchies, registration histories, methods and overriders, and compares
// every observable result with an oracle written from the documentation.
// Compile with -fno-access-control -I/repo/include.
//
// usage: dispatch SEED FIRST COUNT [REPLAY_CASE] ; prints
//   "FAIL <tag> case=<seed>:<n> <text>"  for each disagreement (max 20)
//   "DONE cases=.. calls=.. nontrivial=.. ..." at the end.
#include <boost/openmethod.hpp>
#include <boost/openmethod/initialize.hpp>
#include <boost/openmethod/policies/vptr_map.hpp>
#include <boost/openmethod/policies/vptr_vector.hpp>
#include <boost/openmethod/policies/fast_perfect_hash.hpp>
#include <boost/openmethod/policies/throw_error_handler.hpp>
#include <csignal>
#include <cstdio>
#include <cstring>
#include <random>
#include <set>
#include <string>
#include <sstream>
#include <vector>

#ifndef KIND
#define KIND 0
#endif

namespace bom = boost::openmethod;
using namespace bom;
using namespace bom::policies;
using bom::type_id;

constexpr std::size_t MAXC = 8;
constexpr std::size_t NALIAS = 3;
constexpr std::uintptr_t VOID_ID = 60, INT_ID = 61, METHOD_ID = 62, OTHER_ID = 63;

// type ids: class c, alias k  ->  (k * 64 + c); type_index = id mod 64
inline type_id mkid(std::size_t c, std::size_t k) {
    return reinterpret_cast<type_id>(std::uintptr_t(k * 64 + c));
}

struct Obj {
    type_id tid;
    int payload = 0;
};
struct Sub : Obj {};

static std::uintptr_t ret_id_of_method = VOID_ID;

struct int_rtti : rtti {
    template<class Registry>
    struct fn : rtti::defaults {
        template<class T>
        static constexpr bool is_polymorphic = std::is_base_of_v<Obj, T>;
        template<class T>
        static type_id static_type() {
            if constexpr (std::is_void_v<T>) {
                return mkid(VOID_ID, 0);
            } else if constexpr (std::is_same_v<T, int>) {
                return mkid(INT_ID, 0);
            } else {
                return mkid(OTHER_ID, 0);
            }
        }
        template<class T>
        static type_id dynamic_type(const T& obj) {
            if constexpr (std::is_base_of_v<Obj, T>) {
                return obj.tid;
            } else {
                return mkid(INT_ID, 0);
            }
        }
        static std::uintptr_t type_index(type_id id) {
            return std::uintptr_t(id) % 64;
        }
        template<typename D, typename B>
        static D dynamic_cast_ref(B&& obj) {
            return static_cast<D>(obj);
        }
    };
};

#if KIND == 0
struct reg : registry<int_rtti, vptr_map<>, throw_error_handler, runtime_checks> {};
#elif KIND == 1
struct reg : registry<int_rtti, fast_perfect_hash, vptr_vector, throw_error_handler, runtime_checks> {};
#elif KIND == 2
struct reg : registry<int_rtti, vptr_vector, throw_error_handler, indirect_vptr, runtime_checks> {};
#elif KIND == 3
struct reg : registry<int_rtti, vptr_map<>, throw_error_handler, indirect_vptr> {};
#elif KIND == 4
struct reg : registry<int_rtti, fast_perfect_hash, vptr_vector, throw_error_handler> {};
#endif
using Reg = reg::registry_type;
#if KIND == 2 || KIND == 3
constexpr bool INDIRECT = true;
#else
constexpr bool INDIRECT = false;
#endif

constexpr int NTOK = 10;
template<class Sig>
struct pieces;

static const void* last_args[4];
static void stale() {}

template<int I, class... P>
int tok_fn(P...) {
    return I;
}

struct Id1;
struct Id2;
struct Id3;
struct Id4;
struct Id5;
struct Id6;
struct Id7;
struct Id8;
using M1 = method<Id1, int(virtual_<Obj&>), Reg>;
using M2 = method<Id2, int(int, virtual_<Obj&>, int), Reg>;
using M3 = method<Id3, int(virtual_<Obj&>, virtual_<Obj&>), Reg>;
using M4 = method<Id4, int(virtual_<Obj&>, int, virtual_<Obj&>), Reg>;
using M5 = method<Id5, int(int, virtual_ptr<Obj, Reg>, virtual_<Obj&>, int), Reg>;
using M6 = method<Id6, int(virtual_<Obj&>, int, int, virtual_<Obj&>, virtual_<Obj&>), Reg>;
using M7 = method<Id7, int(virtual_<Obj&>, virtual_ptr<Obj, Reg>, int, virtual_<Obj&>), Reg>;
using M8 = method<Id8, int(virtual_<Obj&>, int, virtual_<Obj&>, virtual_ptr<Obj, Reg>, virtual_<Obj&>), Reg>;

template<class M>
struct sig_of;
template<class Id, class... P, class R>
struct sig_of<method<Id, int(P...), R>> {
    using pf = int (*)(bom::detail::remove_virtual_<P>...);
    template<int I>
    static int tok(bom::detail::remove_virtual_<P>...) {
        return I;
    }
    template<int... I>
    static std::vector<void (*)()> toks(std::integer_sequence<int, I...>) {
        return {reinterpret_cast<void (*)()>(&tok<I>)...};
    }
};

struct MDesc {
    const char* name;
    std::size_t arity;
    bom::detail::method_info* info;
    std::vector<void (*)()> toks;
    void (*not_impl)();
    void (*ambig)();
    int (*call)(Obj* const*);
};

template<class M>
MDesc mk(const char* n, std::size_t arity, int (*call)(Obj* const*)) {
    return {n, arity, &M::fn, sig_of<M>::toks(std::make_integer_sequence<int, NTOK>()),
#ifndef NO_INTERNALS
            reinterpret_cast<void (*)()>(&M::fn_not_implemented),
            reinterpret_cast<void (*)()>(&M::fn_ambiguous), call};
#else
            nullptr, nullptr, call};
#endif
}

using VP = virtual_ptr<Obj, Reg>;

static std::vector<MDesc> mdescs{
    mk<M1>("M1(v)", 1, [](Obj* const* o) { return M1::fn(*o[0]); }),
    mk<M2>("M2(i,v,i)", 1, [](Obj* const* o) { return M2::fn(1, *o[0], 2); }),
    mk<M3>("M3(v,v)", 2, [](Obj* const* o) { return M3::fn(*o[0], *o[1]); }),
    mk<M4>("M4(v,i,v)", 2, [](Obj* const* o) { return M4::fn(*o[0], 7, *o[1]); }),
    mk<M5>("M5(i,p,v,i)", 2, [](Obj* const* o) { return M5::fn(7, VP(*o[0]), *o[1], 8); }),
    mk<M6>("M6(v,i,i,v,v)", 3, [](Obj* const* o) { return M6::fn(*o[0], 7, 8, *o[1], *o[2]); }),
    mk<M7>("M7(v,p,i,v)", 3, [](Obj* const* o) { return M7::fn(*o[0], VP(*o[1]), 8, *o[2]); }),
    mk<M8>("M8(v,i,v,p,v)", 4, [](Obj* const* o) { return M8::fn(*o[0], 7, *o[1], VP(*o[2]), *o[3]); }),
};

// ---------------------------------------------------------------- a test case

struct Ov {
    std::vector<int> vp;
    int ret = -1;  // class index for covariant return, -1 = void/not a class
};
struct Meth {
    int desc;
    std::vector<int> vp;
    std::vector<Ov> ovs;
    int ret = -1;
};
struct Reg1 {  // one class_info
    int cls, alias;
    std::vector<std::pair<int, int>> bases;  // (class, alias)
};
struct Case {
    int n = 0;
    std::vector<std::vector<int>> direct;  // direct bases
    std::vector<char> abstract_;
    std::vector<Reg1> regs;
    std::vector<Meth> meths;
    bool n2216 = false;
    // computed
    std::vector<std::vector<char>> base;  // base[a][b]: b is a or ancestor of a
    void close() {
        base.assign(n, std::vector<char>(n, 0));
        for (int i = 0; i < n; ++i) {
            base[i][i] = 1;
            for (int b : direct[i])
                for (int k = 0; k < n; ++k)
                    if (base[b][k]) base[i][k] = 1;
        }
    }
    bool sub(int d, int b) const { return d < n && b < n && base[d][b]; }
    std::string str() const {
        std::ostringstream os;
        os << "{classes:";
        for (int i = 0; i < n; ++i) {
            os << " C" << i << (abstract_[i] ? "*" : "") << "(";
            for (int b : direct[i]) os << "C" << b << ",";
            os << ")";
        }
        os << "; regs:";
        for (auto& r : regs) {
            os << " C" << r.cls << "/" << r.alias << "[";
            for (auto& b : r.bases) os << "C" << b.first << "/" << b.second << ",";
            os << "]";
        }
        os << "; methods:";
        for (auto& m : meths) {
            os << " " << mdescs[m.desc].name << "->" << m.ret << " <";
            for (int v : m.vp) os << "C" << v << ",";
            os << "> overriders{";
            for (auto& o : m.ovs) {
                os << "(";
                for (int v : o.vp) os << "C" << v << ",";
                os << ")->" << o.ret << " ";
            }
            os << "}";
        }
        os << (n2216 ? " n2216" : "") << "}";
        return os.str();
    }
};

using Rng = std::mt19937_64;
static int rnd(Rng& g, int n) { return int(g() % std::uint64_t(n)); }

static const char* only_tag = nullptr;

static Case generate(Rng& g) {
    Case c;
    c.n = 1 + rnd(g, int(MAXC));
    if (rnd(g, 3)) c.n = 3 + rnd(g, int(MAXC) - 2);
    // random topological labelling, so that index order says nothing
    std::vector<int> perm(c.n);
    for (int i = 0; i < c.n; ++i) perm[i] = i;
    std::shuffle(perm.begin(), perm.end(), g);
    c.direct.resize(c.n);
    c.abstract_.resize(c.n);
    int style = rnd(g, 5);
    // return types among several undominated overriders: aim at them
    bool ties = only_tag && !std::strcmp(only_tag, "n2216");
    if (ties && rnd(g, 2)) style = 4;
    bool focus = style == 4 && rnd(g, 3);
    if (focus && c.n < 6) { c.n = 6 + rnd(g, int(MAXC) - 5); perm.resize(c.n); for (int i = 0; i < c.n; ++i) perm[i] = i; std::shuffle(perm.begin(), perm.end(), g); c.direct.resize(c.n); c.abstract_.resize(c.n); }
    for (int i = 0; i < c.n; ++i) {
        c.abstract_[perm[i]] = rnd(g, 5) == 0;
        if (i == 0) continue;
        if (style == 4) {
            // one root, interrelated middle classes, one class below them all:
            // many overriders applicable at once, with unrelated parameters
            if (i == c.n - 1) {
                for (int k = 0; k < i; ++k) c.direct[perm[i]].push_back(perm[k]);
            } else {
                c.direct[perm[i]].push_back(perm[i > 1 && rnd(g, 2) ? 1 + rnd(g, i - 1) : 0]);
            }
            continue;
        }
        int nb = style == 0 ? 1 : style == 1 ? rnd(g, 3) : 1 + rnd(g, 3);
        if (style == 0 && rnd(g, 6) == 0) nb = 0;
        std::set<int> bs;
        for (int k = 0; k < nb; ++k) bs.insert(perm[rnd(g, i)]);
        for (int b : bs) c.direct[perm[i]].push_back(b);
        std::shuffle(c.direct[perm[i]].begin(), c.direct[perm[i]].end(), g);
    }
    // drop direct bases that are also indirect (virtual inheritance lattices
    // may keep them; keep half of the time)
    c.close();
    if (style == 4 || rnd(g, 2)) {
        for (int i = 0; i < c.n; ++i) {
            std::vector<int> keep;
            for (int b : c.direct[i]) {
                bool indirect = false;
                for (int o : c.direct[i])
                    if (o != b && c.sub(o, b)) indirect = true;
                if (!indirect) keep.push_back(b);
            }
            c.direct[i] = keep;
        }
        c.close();
    }
    // registration calls: subsets of the classes; every class in some call,
    // every direct edge inside some call
    struct CallR { std::vector<int> cls; int alias; };
    std::vector<CallR> calls;
    int rstyle = rnd(g, 4);
    if (rstyle == 0) {
        CallR all{{}, 0};
        for (int i = 0; i < c.n; ++i) all.cls.push_back(i);
        calls.push_back(all);
    } else {
        for (int i = 0; i < c.n; ++i) {
            // class with all its direct bases, split in one or more calls
            std::vector<int> bs = c.direct[i];
            std::shuffle(bs.begin(), bs.end(), g);
            std::size_t at = 0;
            do {
                std::size_t take = rstyle == 1 ? bs.size() : std::size_t(rnd(g, int(bs.size()) + 1));
                if (at + take > bs.size()) take = bs.size() - at;
                if (take == 0 && at < bs.size()) take = 1;
                CallR k{{i}, 0};
                for (std::size_t j = 0; j < take; ++j) k.cls.push_back(bs[at + j]);
                at += take;
                if (rnd(g, 4) == 0) k.cls.push_back(rnd(g, c.n));
                calls.push_back(k);
            } while (at < bs.size());
        }
    }
    int extra = rnd(g, 3);
    for (int e = 0; e < extra; ++e) {
        CallR k{{}, 0};
        for (int i = 0; i < c.n; ++i) if (rnd(g, 3) == 0) k.cls.push_back(i);
        if (!k.cls.empty()) calls.push_back(k);
    }
    bool aliases = rnd(g, 3) == 0;
    for (auto& k : calls) {
        std::set<int> s(k.cls.begin(), k.cls.end());
        k.cls.assign(s.begin(), s.end());
        std::shuffle(k.cls.begin(), k.cls.end(), g);
        k.alias = aliases ? rnd(g, int(NALIAS)) : 0;
    }
    std::shuffle(calls.begin(), calls.end(), g);
    for (auto& k : calls)
        for (int x : k.cls) {
            Reg1 r{x, k.alias, {}};
            for (int b : k.cls)
                if (c.sub(x, b)) r.bases.push_back({b, k.alias});
            c.regs.push_back(r);
        }
    // methods
    c.n2216 = ties ? rnd(g, 4) != 0 : rnd(g, 4) == 0;
    int nm = 1 + rnd(g, 4);
    std::vector<int> ds;
    for (int i = 0; i < int(mdescs.size()); ++i) ds.push_back(i);
    std::shuffle(ds.begin(), ds.end(), g);
    for (int i = 0; i < nm; ++i) {
        Meth m;
        m.desc = focus && i == 0 ? 5 + rnd(g, 2) : ds[i];
        if (focus && i > 0 && m.desc == c.meths[0].desc) continue;
        // four virtual parameters: many combinations, less often
        if (mdescs[m.desc].arity == 4 && nm > 1 && rnd(g, 3)) continue;
        auto ar = mdescs[m.desc].arity;
        std::vector<std::vector<int>> conf;
        for (std::size_t k = 0; k < ar; ++k) {
            int v = rnd(g, c.n);
            if (style == 4 && (focus || rnd(g, 4))) v = perm[0];
            // prefer general classes
            for (int t = 0; t < 2; ++t) { int w = rnd(g, c.n); if (c.sub(v, w)) v = w; }
            m.vp.push_back(v);
            std::vector<int> cf;
            for (int d = 0; d < c.n; ++d) if (c.sub(d, v)) cf.push_back(d);
            conf.push_back(cf);
        }
        m.ret = rnd(g, 3) == 0 ? rnd(g, c.n) : -1;
        if (ties && rnd(g, 2)) m.ret = perm[0];
        int no = rnd(g, NTOK + 1);
        if (rnd(g, 2)) no = rnd(g, 6);
        if (focus && i == 0) no = 5 + rnd(g, NTOK - 4);
        for (int o = 0; o < no; ++o) {
            Ov ov;
            for (std::size_t k = 0; k < ar; ++k) ov.vp.push_back(conf[k][rnd(g, int(conf[k].size()))]);
            if (focus)
                // overriders on the interrelated middle classes only
                for (std::size_t k = 0; k < ar; ++k)
                    for (int t = 0; t < 6 && (ov.vp[k] == perm[0] || ov.vp[k] == perm[c.n - 1]); ++t)
                        ov.vp[k] = conf[k][rnd(g, int(conf[k].size()))];
            if (m.ret >= 0) {
                do ov.ret = rnd(g, c.n); while (!c.sub(ov.ret, m.ret));
            }
            bool dup = false;
            for (auto& p : m.ovs) if (p.vp == ov.vp) dup = true;
            if (dup && rnd(g, 5)) continue;
            m.ovs.push_back(ov);
        }
        c.meths.push_back(m);
    }
    return c;
}

// ------------------------------------------------------------------- the oracle

static bool more_specific(const Case& c, const Ov& a, const Ov& b) {
    bool some = false;
    for (std::size_t i = 0; i < a.vp.size(); ++i) {
        if (a.vp[i] == b.vp[i]) continue;
        if (c.sub(a.vp[i], b.vp[i])) some = true;
        else if (c.sub(b.vp[i], a.vp[i])) return false;
    }
    return some;
}

// result: survivors of the non-dominated filter; if every candidate is
// dominated (cyclic), all of them
static std::vector<int> survivors(const Case& c, const Meth& m, const std::vector<int>& cand) {
    std::vector<int> s;
    for (int i : cand) {
        bool dom = false;
        for (int j : cand) if (more_specific(c, m.ovs[j], m.ovs[i])) dom = true;
        if (!dom) s.push_back(i);
    }
    if (s.empty()) return cand;
    return s;
}

// n2216: acceptable picks among the survivors
static std::set<int> n2216_ok(const Case& c, const Meth& m, const std::vector<int>& sv) {
    std::set<int> all(sv.begin(), sv.end());
    if (m.ret < 0) return all;
    // unique most specialised covariant return type
    for (int i : sv) {
        bool best = true;
        for (int j : sv)
            if (j != i && !(c.sub(m.ovs[i].ret, m.ovs[j].ret))) best = false;
        if (best) {
            // several may share the same most specialised type
            std::set<int> r;
            for (int j : sv) if (m.ovs[j].ret == m.ovs[i].ret) r.insert(j);
            return r;
        }
    }
    return all;
}

// ---------------------------------------------------------------------- driving

static int fails = 0;
static std::string cur;
static unsigned long long n_calls, n_nontrivial, n_ambig, n_noimpl, n_next, n_slots, n_mi, n_reinit;
static std::set<std::string> seen_case_tags;

static void fail(const char* tag, const Case& c, const std::string& what) {
    if (only_tag && !std::strstr(only_tag, tag)) return;
    if (!seen_case_tags.insert(tag).second) return;
    if (++fails <= 40)
        std::printf("FAIL %s kind=%d case=%s %s -- %s\n", tag, KIND, cur.c_str(), what.c_str(), c.str().c_str());
}

template<class T>
struct Arena {
    std::vector<std::unique_ptr<T>> v;
    T* make() {
        void* p = ::operator new(sizeof(T));
        std::memset(p, 0, sizeof(T));
        v.emplace_back(new (p) T);
        return v.back().get();
    }
};

struct Installed {
    Arena<bom::detail::class_info> cis;
    std::vector<std::unique_ptr<std::vector<type_id>>> idv;
    std::vector<bom::detail::overrider_info*> ois;
    std::vector<std::vector<bom::detail::overrider_info*>> by_method;
    std::vector<std::vector<void (*)()>> nexts;
    vptr_type svptr[MAXC] = {};
    std::vector<std::vector<int>> aliases;

    type_id* ids(std::vector<type_id> v) {
        idv.emplace_back(new std::vector<type_id>(std::move(v)));
        return idv.back()->data();
    }

    void classes(const Case& c, bool rename = false) {
        (void)rename;
        Reg::classes.clear();
        aliases.assign(c.n, {});
        for (auto& r : c.regs) {
            auto ci = cis.make();
            ci->type = mkid(r.cls, r.alias);
            ci->static_vptr = &svptr[r.cls];
            ci->is_abstract = c.abstract_[r.cls];
            std::vector<type_id> b;
            for (auto& x : r.bases) b.push_back(mkid(x.first, x.second));
            auto nb = b.size();
            b.push_back(nullptr);
            ci->first_base = ids(b);
            ci->last_base = ci->first_base + nb;
            Reg::classes.push_back(*ci);
            aliases[r.cls].push_back(r.alias);
        }
    }
    void methods(const Case& c, Rng& g) {
        for (auto& d : mdescs) {
            d.info->overriders.clear();
        }
        Reg::methods.clear();
        nexts.resize(c.meths.size());
        by_method.resize(c.meths.size());
        for (std::size_t mi = 0; mi < c.meths.size(); ++mi) {
            auto& m = c.meths[mi];
            auto& d = mdescs[m.desc];
            std::vector<type_id> v;
            auto al = [&](int cls) { return cls >= int(aliases.size()) ? 0 : aliases[cls][rnd(g, int(aliases[cls].size()))]; };
            for (int x : m.vp) v.push_back(mkid(x, al(x)));
            d.info->vp_begin = ids(v);
            d.info->vp_end = d.info->vp_begin + m.vp.size();
            d.info->method_type_id = mkid(METHOD_ID, 0);
            d.info->return_type_id = m.ret < 0 ? mkid(VOID_ID, 0) : mkid(m.ret, al(m.ret));
            Reg::methods.push_back(*d.info);
            // what an earlier initialization left there must not show
            nexts[mi].assign(m.ovs.size() + 1, rnd(g, 2) ? nullptr : &stale);
            by_method[mi].clear();
            for (std::size_t oi = 0; oi < m.ovs.size(); ++oi) {
                void* p = ::operator new(sizeof(bom::detail::overrider_info));
                std::memset(p, 0, sizeof(bom::detail::overrider_info));
                auto o = new (p) bom::detail::overrider_info;
                ois.push_back(o);
                o->method = d.info;
                o->return_type = m.ovs[oi].ret < 0 ? mkid(VOID_ID, 0) : mkid(m.ovs[oi].ret, al(m.ovs[oi].ret));
                o->type = mkid(OTHER_ID, 0);
                o->next = &nexts[mi][oi];
                std::vector<type_id> w;
                for (int x : m.ovs[oi].vp) w.push_back(mkid(x, al(x)));
                o->vp_begin = ids(w);
                o->vp_end = o->vp_begin + w.size();
                o->pf = d.toks[oi];
                d.info->overriders.push_back(*o);
                by_method[mi].push_back(o);
            }
        }
    }
    ~Installed() {
        for (auto& d : mdescs) d.info->overriders.clear();
        Reg::methods.clear();
        Reg::classes.clear();
        for (auto o : ois) ::operator delete(static_cast<void*>(o));
    }
};

struct Outcome {
    int kind;  // 0 token, 1 not implemented, 2 ambiguous, 3 other error
    int tok = -1;
    std::size_t arity = 0;
    std::vector<type_id> types;
    type_id method = nullptr;
    std::string what;
    bool operator==(const Outcome& o) const { return kind == o.kind && tok == o.tok; }
    std::string str() const {
        std::ostringstream os;
        const char* n[] = {"overrider", "no_overrider", "ambiguous_call", "error", "not_initialized"};
        os << n[kind];
        if (kind == 0) os << " #" << tok;
        if (kind == 3) os << " " << what;
        return os.str();
    }
};

static Outcome do_call(const MDesc& d, Obj* const* o) {
    Outcome r{};
    try {
        r.tok = d.call(o);
        r.kind = 0;
    } catch (no_overrider& e) {
        r.kind = 1;
        r.arity = e.arity;
        r.method = e.method;
        r.types.assign(e.types, e.types + std::min<std::size_t>(e.arity, bad_call::max_types));
    } catch (ambiguous_call& e) {
        r.kind = 2;
        r.arity = e.arity;
        r.method = e.method;
        r.types.assign(e.types, e.types + std::min<std::size_t>(e.arity, bad_call::max_types));
    } catch (not_initialized&) {
        r.kind = 4;
    } catch (openmethod_error&) {
        r.kind = 3;
        r.what = "openmethod_error";
    } catch (std::exception& e) {
        r.kind = 3;
        r.what = e.what();
    }
    return r;
}

// everything a caller observes after an initialization, for comparisons
static std::string* sig = nullptr;

#ifndef NO_INTERNALS
template<class Comp>
static void check_layout(const Case& c, Comp& comp, Installed& in) {
    // slots: at each class, every (method, parameter) that accepts it has a
    // slot inside the class' v-table, and distinct ones have distinct slots
    std::vector<typename bom::detail::generic_compiler::class_*> cls(c.n, nullptr);
    for (auto& k : comp.classes) cls[std::uintptr_t(k.type_ids[0]) % 64] = &k;
    for (int i = 0; i < c.n; ++i) {
        auto k = cls[i];
        if (!k) { fail("closure", c, "class lost"); return; }
        // inheritance closure
        for (int d = 0; d < c.n; ++d) {
            bool real = k->transitive_derived.count(cls[d]) != 0;
            if (real != c.sub(d, i)) fail("closure", c, "transitive_derived of C" + std::to_string(i) + " wrong at C" + std::to_string(d));
        }
        std::set<std::size_t> tids;
        for (auto t : k->type_ids) tids.insert(std::uintptr_t(t));
        std::set<std::size_t> exp;
        for (int a : in.aliases[i]) exp.insert(std::uintptr_t(mkid(i, a)));
        if (tids != exp) fail("closure", c, "type_ids of C" + std::to_string(i));
        std::map<std::size_t, std::pair<std::size_t, std::size_t>> used;
        for (std::size_t mi = 0; mi < c.meths.size(); ++mi)
            for (std::size_t p = 0; p < c.meths[mi].vp.size(); ++p)
                if (c.sub(i, c.meths[mi].vp[p])) {
                    ++n_slots;
                    auto s = comp.methods[mi].slots[p];
                    if (s < k->first_slot || s - k->first_slot >= k->vtbl.size())
                        fail("slots", c, "slot out of v-table bounds at C" + std::to_string(i));
                    auto ins = used.insert({s, {mi, p}});
                    if (!ins.second)
                        fail("slots", c, "two method parameters share slot " + std::to_string(s) + " at C" + std::to_string(i));
                }
    }
}

#else
template<class Comp>
static void check_layout(const Case&, Comp&, Installed&) {}
#endif

template<class... Opt>
static void run(const Case& c, Rng& g, Installed& in, Opt... opt) {
    using Comp = typename Reg::template compiler<Opt...>;
    Comp comp(opt...);
    try {
        comp.initialize();
    } catch (std::exception& e) {
        fail("init", c, std::string("initialize threw: ") + e.what());
        return;
    }
    check_layout(c, comp, in);
    std::size_t exp_cells = 0, exp_ni = 0, exp_am = 0;
    for (std::size_t mi = 0; mi < c.meths.size(); ++mi) {
        auto& m = c.meths[mi];
        auto& d = mdescs[m.desc];
        std::size_t ar = m.vp.size();
        std::vector<std::vector<int>> conf(ar);
        for (std::size_t k = 0; k < ar; ++k)
            for (int x = 0; x < c.n; ++x) if (c.sub(x, m.vp[k])) conf[k].push_back(x);
        // groups per dimension
        std::size_t cells = 1;
        for (std::size_t k = 0; k < ar; ++k) {
            std::set<std::vector<char>> masks;
            for (int x : conf[k]) {
                std::vector<char> mask;
                for (auto& o : m.ovs) mask.push_back(c.sub(x, o.vp[k]));
                masks.insert(mask);
            }
            cells *= masks.size();
        }
        if (ar > 1) exp_cells += cells;
        bool any_ni = false, any_am = false;
        std::vector<std::size_t> ix(ar, 0);
        for (;;) {
            std::vector<int> args;
            Obj objs[4];
            Obj* po[4];
            for (std::size_t k = 0; k < ar; ++k) {
                int x = conf[k][ix[k]];
                args.push_back(x);
                int a = in.aliases[x][rnd(g, int(in.aliases[x].size()))];
                objs[k].tid = mkid(x, a);
                po[k] = &objs[k];
            }
            std::vector<int> cand;
            for (int o = 0; o < int(m.ovs.size()); ++o) {
                bool ok = true;
                for (std::size_t k = 0; k < ar; ++k) ok = ok && c.sub(args[k], m.ovs[o].vp[k]);
                if (ok) cand.push_back(o);
            }
            auto sv = survivors(c, m, cand);
            Outcome got = do_call(d, po);
            ++n_calls;
            if (sig) *sig += got.str() + ";";
            if (cand.size() > 1) ++n_nontrivial;
            std::string at;
            for (int x : args) at += "C" + std::to_string(x) + ",";
            at = std::string(d.name) + "(" + at + ")";
            if (cand.empty()) {
                any_ni = true;
                ++n_noimpl;
                if (got.kind != 1) fail("nooverrider", c, "call " + at + " has no applicable overrider, got " + got.str());
            } else if (sv.size() == 1) {
                if (got.kind != 0 || got.tok != sv[0])
                    fail("dispatch", c, "call " + at + " expected overrider #" + std::to_string(sv[0]) + ", got " + got.str());
            } else {
                ++n_ambig;
                if (!c.n2216) {
                    any_am = true;
                    if (got.kind != 2) fail("ambiguous", c, "call " + at + " is ambiguous, got " + got.str());
                } else {
                    auto ok = n2216_ok(c, m, sv);
                    if (got.kind != 0 || !ok.count(got.tok))
                        fail("n2216", c, "call " + at + " n2216 pick wrong: got " + got.str());
                    Outcome again = do_call(d, po);
                    if (!(again == got)) fail("n2216", c, "call " + at + " not deterministic");
                }
            }
            if (got.kind == 1 || got.kind == 2) {
                if (got.arity != ar) fail("badcall", c, "call " + at + " error.arity = " + std::to_string(got.arity));
                else
                    for (std::size_t k = 0; k < ar; ++k)
                        if (got.types[k] != objs[k].tid) fail("badcall", c, "call " + at + " error.types wrong");
                if (got.method != mkid(OTHER_ID, 0)) fail("badcall", c, "error.method wrong");
            }
            std::size_t k = 0;
            while (k < ar && ++ix[k] == conf[k].size()) ix[k++] = 0;
            if (k == ar) break;
        }
        if (any_ni) ++exp_ni;
        if (any_am) ++exp_am;
        // next
        for (int o = 0; o < int(m.ovs.size()); ++o) {
            bool dup = false;
            for (int p = 0; p < int(m.ovs.size()); ++p) if (p != o && m.ovs[p].vp == m.ovs[o].vp) dup = true;
            std::vector<int> cand;
            for (int p = 0; p < int(m.ovs.size()); ++p) {
                if (m.ovs[p].vp == m.ovs[o].vp) continue;
                bool ok = true;
                for (std::size_t k = 0; k < ar; ++k) ok = ok && c.sub(m.ovs[o].vp[k], m.ovs[p].vp[k]);
                if (ok) cand.push_back(p);
            }
            auto nx = in.nexts[mi][o];
            int which = !d.not_impl ? -4 : nx == d.not_impl ? -1 : nx == d.ambig ? -2 : -4;
            for (int t = 0; t < int(m.ovs.size()); ++t) if (d.toks[t] == nx) which = t;
            if (!nx || nx == &stale) which = -3;
            ++n_next;
            if (sig) *sig += std::to_string(which) + ";";
            auto sv = survivors(c, m, cand);
            if (which == -4 && !d.not_impl && (dup || cand.empty() || (sv.size() != 1 && !c.n2216))) continue;
            if (dup) {
                if (!c.n2216) { if (which >= 0 && std::find(cand.begin(), cand.end(), which) == cand.end()) fail("next", c, "next of duplicate overrider not a base"); continue; }
            }
            std::string who = std::string(d.name) + " overrider #" + std::to_string(o);
            if (dup) {
                // n2216, ambiguous among duplicates: next is applicable, if set
                if (which >= 0 && std::find(cand.begin(), cand.end(), which) == cand.end()) fail("next", c, who + " next not applicable");
            } else if (cand.empty()) {
                if (which != -1) fail("next", c, who + ": expected no next, got " + std::to_string(which));
            } else if (sv.size() == 1) {
                if (which != sv[0]) fail("next", c, who + ": expected next #" + std::to_string(sv[0]) + ", got " + std::to_string(which));
            } else if (!c.n2216) {
                if (which != -2) fail("next", c, who + ": expected ambiguous next, got " + std::to_string(which));
            } else {
                if (!n2216_ok(c, m, sv).count(which)) fail("next", c, who + ": n2216 next wrong, got " + std::to_string(which));
            }
        }
    }
    if (sig) *sig += std::to_string(comp.report.cells) + "," + std::to_string(comp.report.not_implemented) + "," + std::to_string(comp.report.ambiguous);
    if (comp.report.cells != exp_cells) fail("report", c, "cells " + std::to_string(comp.report.cells) + " expected " + std::to_string(exp_cells));
    if (comp.report.not_implemented != exp_ni) fail("report", c, "not_implemented " + std::to_string(comp.report.not_implemented) + " expected " + std::to_string(exp_ni));
    if (!c.n2216 && comp.report.ambiguous != exp_am) fail("report", c, "ambiguous " + std::to_string(comp.report.ambiguous) + " expected " + std::to_string(exp_am));
}

constexpr bool CHECKS = KIND <= 2;
constexpr int BOGUS = 50;

// every use of the registry is refused while it is not initialized
static void check_refused(const Case& c, Installed& in, const char* when) {
    if (!CHECKS) return;
    for (auto& m : c.meths) {
        Obj objs[4];
        Obj* po[4] = {objs, objs + 1, objs + 2, objs + 3};
        for (std::size_t k = 0; k < m.vp.size(); ++k) objs[k].tid = mkid(m.vp[k] < c.n ? m.vp[k] : 0, 0);
        Outcome got = do_call(mdescs[m.desc], po);
        if (got.kind != 4) fail("uninit", c, std::string("method call ") + when + ": expected not_initialized, got " + got.str());
    }
    bool refused = false;
    Obj o{mkid(0, 0)};
    try { virtual_ptr<Obj, Reg> p(o); } catch (not_initialized&) { refused = true; } catch (...) {}
    if (!refused) fail("uninit", c, std::string("virtual_ptr construction ") + when + " not refused");
    refused = false;
    try { final_virtual_ptr<Reg>(o); } catch (not_initialized&) { refused = true; } catch (...) {}
    if (!refused) fail("uninit", c, std::string("final_virtual_ptr ") + when + " not refused");
}

static unsigned long long n_malformed;
static void malformed(const Case& good, Rng& g) {
    Case c = good;
    int kind = rnd(g, 5);
    int exp_base = -1, exp_derived = -1;
    std::string what;
    if (kind == 0) {
        auto& r = c.regs[rnd(g, int(c.regs.size()))];
        r.bases.insert(r.bases.begin() + rnd(g, int(r.bases.size()) + 1), {BOGUS, rnd(g, 3)});
        what = "unregistered listed base";
    } else {
        auto& m = c.meths[rnd(g, int(c.meths.size()))];
        std::size_t k = rnd(g, int(m.vp.size()));
        if (kind == 1) { m.vp[k] = BOGUS; what = "unregistered method parameter"; }
        else {
            if (m.ovs.empty()) m.ovs.push_back({m.vp, m.ret});
            auto& o = m.ovs[rnd(g, int(m.ovs.size()))];
            if (kind == 4) {
                if (m.ret < 0) return;
                o.ret = BOGUS; what = "unregistered covariant return class";
            } else if (kind == 2) { o.vp[k] = BOGUS; what = "unregistered overrider parameter"; }
            else {
                std::vector<int> no;
                for (int x = 0; x < c.n; ++x) if (!c.sub(x, m.vp[k])) no.push_back(x);
                if (no.empty()) return;
                o.vp[k] = no[rnd(g, int(no.size()))];
                exp_base = m.vp[k]; exp_derived = o.vp[k];
                what = "overrider parameter not below the method parameter";
            }
        }
    }
    ++n_malformed;
    Installed in;
    in.classes(c);
    in.methods(c, g);
    Reg::dispatch_data.clear();
    Reg::initialized = false;
    try {
        typename Reg::template compiler<> comp;
        comp.initialize();
        fail("malformed", c, what + ": accepted");
    } catch (missing_class& e) {
        if (exp_base >= 0) fail("malformed", c, what + ": missing_class reported");
        else if (std::uintptr_t(e.type) % 64 != BOGUS) fail("malformed", c, what + ": wrong class in missing_class");
        else if (kind == 0) { bool ok = false; for (auto& r : c.regs) for (auto& b : r.bases) if (b.first == BOGUS && mkid(b.first, b.second) == e.type) ok = true; if (!ok) fail("malformed", c, "missing_class carries another identifier"); }
    } catch (missing_base& e) {
        if (exp_base < 0) fail("malformed", c, what + ": missing_base reported");
        else {
            if (int(std::uintptr_t(e.base) % 64) != exp_base) fail("malformed", c, what + ": wrong base in missing_base");
            if (int(std::uintptr_t(e.derived) % 64) != exp_derived) fail("malformed", c, what + ": wrong derived in missing_base");
        }
    } catch (...) { fail("malformed", c, what + ": other error"); }
    if (Reg::initialized) fail("malformed", c, what + ": registry marked initialized");
    if (!Reg::dispatch_data.empty()) fail("malformed", c, what + ": tables installed");
    for (int i = 0; i < c.n; ++i) if (in.svptr[i]) fail("malformed", c, what + ": v-table installed");
    if (seen_case_tags.empty()) check_refused(c, in, "after a rejected initialization");
    Reg::initialized = false;
}

static void one(std::uint64_t seed, std::uint64_t n) {
    Rng g(seed * 1000003 + n);
    cur = std::to_string(seed) + ":" + std::to_string(n);
    seen_case_tags.clear();
    Case c = generate(g);
    bool mi = false;
    for (auto& d : c.direct) mi = mi || d.size() > 1;
    n_mi += mi;
    if (n % 2) for (int k = 0; k < 2; ++k) { Rng h(seed * 77 + n * 5 + k); malformed(c, h); }
    Installed in;
    in.classes(c);
    in.methods(c, g);
    if (n % 8 == 2) check_refused(c, in, "before initialize");
    if (c.n2216) run(c, g, in, bom::n2216());
    else run(c, g, in);
    // second history: more registrations and a re-initialize, without finalize
    if (n % 3 == 0) {
        ++n_reinit;
        Case c2 = c;
        // add a leaf class and an overrider
        std::vector<Obj> held;
        std::vector<virtual_ptr<Obj, Reg>> vps;
        Obj hob[MAXC];
        if (INDIRECT)
            for (int i = 0; i < c.n; ++i) { hob[i].tid = mkid(i, in.aliases[i][0]); vps.emplace_back(hob[i]); }
        for (auto& m : c2.meths) {
            if (!m.ovs.empty() && rnd(g, 2)) m.ovs.pop_back();
            else if (m.ovs.size() < NTOK) {
                Ov ov = Ov{m.vp, m.ret};
                bool dup = false;
                for (auto& p : m.ovs) if (p.vp == ov.vp) dup = true;
                if (!dup) m.ovs.push_back(ov);
            }
        }
        std::reverse(c2.regs.begin(), c2.regs.end());
        if (rnd(g, 2) && c2.n < int(MAXC)) {
            int b = rnd(g, c2.n);
            c2.n++;
            c2.direct.push_back({b});
            c2.abstract_.push_back(0);
            Reg1 r{c2.n - 1, 0, {{c2.n - 1, 0}, {b, c2.regs.empty() ? 0 : in.aliases[b][0]}}};
            c2.regs.insert(c2.regs.begin() + rnd(g, int(c2.regs.size()) + 1), r);
            c2.close();
        }
        if (rnd(g, 3) == 0) Reg::finalize();
        Rng g1 = g;
        std::string s1, s2, s3;
        in.classes(c2);
        in.methods(c2, g);
        sig = &s1;
        if (c2.n2216) run(c2, g, in, bom::n2216());
        else run(c2, g, in);
        sig = nullptr;
        if (INDIRECT)
            for (int i = 0; i < c.n; ++i)
                if (vps[i].vptr() != in.svptr[i]) fail("indirect", c2, "virtual_ptr built before re-initialize does not see the new v-table");
        if (n % 2 == 0) {
            // twice in a row, then after a finalization: the same observations
            Rng g2 = g1, g3 = g1;
            in.classes(c2);
            in.methods(c2, g2);
            sig = &s2;
            if (c2.n2216) run(c2, g2, in, bom::n2216());
            else run(c2, g2, in);
            sig = nullptr;
            if (s1 != s2) fail("reinit", c2, "initializing twice gives other results: " + s1 + " / " + s2);
            Reg::finalize();
            Installed fresh;
            fresh.classes(c2);
            fresh.methods(c2, g3);
            sig = &s3;
            if (c2.n2216) run(c2, g3, fresh, bom::n2216());
            else run(c2, g3, fresh);
            sig = nullptr;
            if (s1 != s3) fail("reinit", c2, "re-initialization and fresh initialization differ: " + s1 + " / " + s3);
        }
    }
    Reg::finalize();
    if (Reg::initialized || !Reg::dispatch_data.empty()) fail("finalize", c, "state left after finalize");
    if (n % 8 == 2) check_refused(c, in, "after finalize");
}

static void on_crash(int sig) {
    std::printf("FAIL crash kind=%d case=%s signal %d\n", KIND, cur.c_str(), sig);
    std::fflush(stdout);
    std::_Exit(1);
}

int main(int argc, char** argv) {
    std::signal(SIGSEGV, on_crash);
    std::signal(SIGABRT, on_crash);
    std::signal(SIGBUS, on_crash);
    std::signal(SIGFPE, on_crash);
    std::signal(SIGILL, on_crash);
    std::uint64_t seed = argc > 1 ? std::strtoull(argv[1], nullptr, 10) : 1;
    std::uint64_t first = argc > 2 ? std::strtoull(argv[2], nullptr, 10) : 0;
    std::uint64_t count = argc > 3 ? std::strtoull(argv[3], nullptr, 10) : 1000;
    if (argc > 4) only_tag = argv[4];
    for (std::uint64_t n = first; n < first + count; ++n) one(seed, n);
    std::printf("DONE kind=%d cases=%llu calls=%llu nontrivial=%llu noimpl=%llu ambiguous=%llu next=%llu slots=%llu mi=%llu reinit=%llu malformed=%llu fails=%d\n",
        KIND, (unsigned long long)count, n_calls, n_nontrivial, n_noimpl, n_ambig, n_next, n_slots, n_mi, n_reinit, n_malformed, fails);
    std::fflush(stdout);
    // skip static destructors: the method list was replaced by hand
    std::_Exit(fails ? 1 : 0);
}
