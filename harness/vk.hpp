// Explorer runtime shared by all property drivers (see DESIGN.md).
#pragma once
#include <algorithm>
#include <array>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>

namespace vk {

typedef long long ll;
typedef unsigned long long u64;

inline std::string strf(const char* f, ...) {
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

struct Hash {
    u64 h = 1469598103934665603ULL;
    Hash& add(u64 v) { for (int i = 0; i < 8; ++i) { h ^= (v >> (8 * i)) & 255; h *= 1099511628211ULL; } h ^= h >> 29; return *this; }
    Hash& addd(double d) { if (d == 0) d = 0; u64 v; memcpy(&v, &d, 8); return add(v); }
    // rounded double: for outcome classes
    Hash& addr(double d, double q = 1e-6) { return add((u64)(ll)std::llround(d / q)); }
    Hash& adds(const std::string& s) { for (char c : s) add((unsigned char)c); return add(s.size()); }
    operator u64() const { return h; }
};

extern volatile sig_atomic_t g_fd;
extern volatile ll g_idx;

struct Run {
    bool thorough = false;
    ll shard = 0, nshards = 1, after = -1, maxcase = -1;
    std::set<ll> only;
    FILE* out = nullptr;
    ll idx = -1;
    ll transitions = 0, traces = 0, cases = 0, nfail = 0;
    ll maxfail = 3000;
    std::unordered_set<u64> states, outcomes;
    std::set<std::string> failedKinds;
    int caseCpu = 40;
    bool replay() const { return !only.empty(); }

    void arm() {
        struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = caseCpu; setitimer(ITIMER_VIRTUAL, &t, nullptr);
    }
    // Case gate: true when this process must execute the case with the next index.
    template <class F> bool next(F&& desc) {
        ++idx;
        if (replay()) {
            if (!only.count(idx)) return false;
        } else {
            if (idx % nshards != shard || idx <= after) return false;
            if (nfail >= maxfail) return false;
        }
        g_idx = idx; ++cases; failedKinds.clear();
        if (replay()) { fprintf(out, "D %lld %s\n", idx, esc(desc()).c_str()); fflush(out); }
        else if (cases == 1 || cases == 7 || cases == 1000) { fprintf(out, "S %lld %s\n", idx, esc(desc()).c_str()); }
        arm();
        return true;
    }
    static std::string esc(std::string s) { for (auto& c : s) if (c == '\n' || c == '\r') c = ' '; if (s.size() > 1500) s.resize(1500); return s; }

    void state(u64 h) { if (states.size() < 4000000) states.insert(h); }
    void outcome(u64 h) { if (outcomes.size() < 1000000) outcomes.insert(h); }
    void op(ll n = 1) { transitions += n; }
    void trace(ll n = 1) { traces += n; }

    bool expect(bool ok, const char* kind, const char* f = "", ...) {
        if (ok) return true;
        if (!failedKinds.insert(kind).second) return false;
        ++nfail;
        char b[3000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a);
        std::string kd = kind; for (char& c : kd) if (c == ' ') c = '-';
        fprintf(out, "F %lld %s %s\n", idx, kd.c_str(), esc(b).c_str()); fflush(out);
        return false;
    }
    bool failedNow() const { return !failedKinds.empty(); }
};

struct Section { const char* name; const char* bounds; void (*fn)(Run&); };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char* n, const char* b, void (*f)(Run&)) { sections().push_back({n, b, f}); } };

#define VK_CAT2(a, b) a##b
#define VK_CAT(a, b) VK_CAT2(a, b)
#define VK_SECTION_(fn, name, bounds) static void fn(vk::Run& r); static vk::Reg VK_CAT(fn, _reg)(name, bounds, fn); static void fn(vk::Run& r)
#define SECTION(name, bounds) VK_SECTION_(VK_CAT(vk_section_, __COUNTER__), name, bounds)

// relative/absolute closeness, NaN is never close
inline bool near(double a, double b, double tol = 1e-9) {
    return std::fabs(a - b) <= tol * (1.0 + std::max(std::fabs(a), std::fabs(b)));
}

// ---- enumeration helpers -------------------------------------------------
// calls f(vector<int>) for every sequence of length n over 0..k-1
template <class F> void sequences(int n, int k, F&& f) {
    std::vector<int> s(n, 0);
    if (k <= 0 && n > 0) return;
    while (true) {
        f((const std::vector<int>&)s);
        int i = n - 1;
        while (i >= 0 && ++s[i] == k) s[i--] = 0;
        if (i < 0) break;
    }
}
template <class F> void combinations(int n, int k, F&& f) { // k-subsets of 0..n-1, ascending
    std::vector<int> s(k);
    for (int i = 0; i < k; ++i) s[i] = i;
    if (k > n) return;
    while (true) {
        f((const std::vector<int>&)s);
        int i = k - 1;
        while (i >= 0 && s[i] == n - k + i) --i;
        if (i < 0) break;
        ++s[i];
        for (int j = i + 1; j < k; ++j) s[j] = s[j - 1] + 1;
    }
}
template <class F> void permutations(int n, F&& f) {
    std::vector<int> s(n);
    for (int i = 0; i < n; ++i) s[i] = i;
    do f((const std::vector<int>&)s); while (std::next_permutation(s.begin(), s.end()));
}
template <class T> std::string show(const std::vector<T>& v) {
    std::ostringstream o; o << "["; for (size_t i = 0; i < v.size(); ++i) { if (i) o << ","; o << v[i]; } o << "]"; return o.str();
}

struct V3i {
    ll x, y, z;
    V3i(ll a = 0, ll b = 0, ll c = 0) : x(a), y(b), z(c) {}
    V3i operator+(const V3i& o) const { return V3i(x + o.x, y + o.y, z + o.z); }
    V3i operator-(const V3i& o) const { return V3i(x - o.x, y - o.y, z - o.z); }
    V3i operator*(ll k) const { return V3i(x * k, y * k, z * k); }
    bool operator==(const V3i& o) const { return x == o.x && y == o.y && z == o.z; }
    bool operator!=(const V3i& o) const { return !(*this == o); }
    bool operator<(const V3i& o) const { return x != o.x ? x < o.x : y != o.y ? y < o.y : z < o.z; }
    ll dot(const V3i& o) const { return x * o.x + y * o.y + z * o.z; }
    V3i cross(const V3i& o) const { return V3i(y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x); }
    ll n2() const { return dot(*this); }
    double n() const { return std::sqrt((double)n2()); }
};
inline std::ostream& operator<<(std::ostream& o, const V3i& p) { return o << "(" << p.x << " " << p.y << " " << p.z << ")"; }
inline ll det3(const V3i& a, const V3i& b, const V3i& c) { return a.dot(b.cross(c)); }
inline std::vector<V3i> lattice(int nx, int ny, int nz) {
    std::vector<V3i> v;
    for (int x = 0; x <= nx; ++x) for (int y = 0; y <= ny; ++y) for (int z = 0; z <= nz; ++z) v.push_back(V3i(x, y, z));
    return v;
}

} // namespace vk

#ifndef VK_NO_MAIN
namespace vk {
volatile sig_atomic_t g_fd = -1;
volatile ll g_idx = -1;
static void onSignal(int s) {
    char b[128]; int n = snprintf(b, sizeof b, "C %lld %d\n", (ll)g_idx, s);
    if (g_fd >= 0) { ssize_t w = write(g_fd, b, n); (void)w; }
    _exit(40);
}
}
int main(int argc, char** argv) {
    using namespace vk;
    if (argc < 2 || !strcmp(argv[1], "list")) {
        for (auto& s : sections()) printf("%s\t%s\n", s.name, s.bounds);
        return 0;
    }
    // run <section> <outfile> <thorough> <shard> <nshards> <after> [idx,idx,...]
    std::string name = argv[2];
    Run r; r.out = fopen(argv[3], "w");
    if (!r.out) return 3;
    r.thorough = atoi(argv[4]); r.shard = atoll(argv[5]); r.nshards = atoll(argv[6]); r.after = atoll(argv[7]);
    if (argc > 8) { std::stringstream ss(argv[8]); std::string t; while (std::getline(ss, t, ',')) r.only.insert(atoll(t.c_str())); }
    g_fd = fileno(r.out);
    static char alt[1 << 16]; stack_t st; memset(&st, 0, sizeof st); st.ss_sp = alt; st.ss_size = sizeof alt; sigaltstack(&st, nullptr);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
    struct rlimit rl; rl.rlim_cur = rl.rlim_max = 6ULL << 30; setrlimit(RLIMIT_AS, &rl);
    struct rlimit cl; cl.rlim_cur = cl.rlim_max = 0; setrlimit(RLIMIT_CORE, &cl);
    int dn = open("/dev/null", O_WRONLY); if (dn >= 0) { dup2(dn, 1); }
    for (auto& s : sections()) if (name == s.name) {
        r.arm();
        s.fn(r);
        struct itimerval t; memset(&t, 0, sizeof t); setitimer(ITIMER_VIRTUAL, &t, nullptr);
        for (u64 h : r.states) fprintf(r.out, "H %llx\n", h);
        for (u64 h : r.outcomes) fprintf(r.out, "O %llx\n", h);
        fprintf(r.out, "END %lld %lld %lld %lld %lld %d\n", r.idx + 1, r.cases, r.transitions, r.traces, r.nfail, r.nfail >= r.maxfail ? 1 : 0);
        fclose(r.out);
        _exit(0);
    }
    return 4;
}
#endif
