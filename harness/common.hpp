// shared by the concrete replay harnesses
#pragma once
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <sys/wait.h>
#include <unistd.h>

namespace hx {
using Rng = std::mt19937_64;
inline int rnd(Rng& g, int n) { return int(g() % std::uint64_t(n)); }
inline int fails = 0;
inline std::string cur = "-";
inline const char* only_tag = nullptr;
inline std::map<std::string, unsigned long long> counters;
inline std::map<std::string, int> per_tag;
inline void count(const char* k, unsigned long long n = 1) { counters[k] += n; }

inline void fail(const std::string& tag, const std::string& what) {
    if (only_tag && !std::strstr(only_tag, tag.c_str())) return;
    ++fails;
    if (++per_tag[tag] <= 5)
        std::printf("FAIL %s case=%s %s\n", tag.c_str(), cur.c_str(), what.c_str());
}
#define CHECK(tag, cond, ...)                                                  \
    do {                                                                       \
        ::hx::count("checks");                                                 \
        if (!(cond)) ::hx::fail(tag, std::string(#cond) + " " + __VA_ARGS__);   \
    } while (0)

inline void on_crash(int sig) {
    std::printf("FAIL crash case=%s signal %d\n", cur.c_str(), sig);
    std::fflush(stdout);
    std::_Exit(1);
}
inline void catch_crashes() {
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) std::signal(s, on_crash);
}
// runs f in a child; true iff it ended with abort()
inline int child_status(const std::function<void()>& f) {
    std::fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) std::signal(s, SIG_DFL);
        f();
        std::_Exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return st;
}
inline bool aborts(const std::function<void()>& f) {
    int st = child_status(f);
    return WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
}
inline int done() {
    std::printf("DONE");
    for (auto& [k, v] : counters) std::printf(" %s=%llu", k.c_str(), v);
    std::printf(" fails=%d\n", fails);
    std::fflush(stdout);
    std::_Exit(fails ? 1 : 0);
}
} // namespace hx
