// Exploration driver shared by all harnesses: every harness enumerates a finite space of cases
// (inputs x configurations x operation sequences) deterministically; run.py shards the enumeration.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <cstdarg>
#include <string>
#include <vector>
#include <sstream>
#include <limits>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <fnmatch.h>
#include <sys/mman.h>

namespace vh {

using u64 = std::uint64_t;
enum : u64 { TABLE = 1u << 20 };
struct Shared {
    u64 cur_idx, cases, transitions, traces, checks, finished, nstates, table_full, suppressed;
    char cur_case[1024];
    u64 table[TABLE];
};

struct Ctx {
    Shared *sh = nullptr;
    FILE *out = nullptr;              // line-based violation / sample log
    u64 idx = 0, shard = 0, nshards = 1, start = 0;
    bool has_only = false; u64 only = 0;
    bool running = false; bool case_ok = true;
    bool thorough = false; bool verbose = false;
    unsigned case_timeout = 120;
    unsigned nviol = 0, nsamples = 0;
    std::vector<std::pair<std::string, std::string>> known;
    std::vector<unsigned> known_hits;
    std::string id;
    std::string last_note;
};
inline Ctx &ctx() { static Ctx c; return c; }
inline bool thorough() { return ctx().thorough; }

inline std::string esc(const std::string &s) {
    std::string r;
    for (char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if ((unsigned char)c < 32) r += ' ';
        else r += c;
    }
    return r;
}

inline void finish_case() {
    Ctx &c = ctx();
    if (!c.running) return;
    c.running = false;
    c.sh->cases++;
    if (c.case_ok) c.sh->traces++;
    u64 n = c.sh->cases;
    if (c.out && ((n & (n - 1)) == 0) && c.nsamples < 14) {
        c.nsamples++;
        std::fprintf(c.out, "{\"t\":\"s\",\"idx\":%llu,\"case\":\"%s\",\"note\":\"%s\"}\n",
                     (unsigned long long)c.sh->cur_idx, esc(c.id).c_str(), esc(c.last_note).c_str());
    }
}

// true when this case belongs to this shard and has to be executed now
inline bool mine() {
    Ctx &c = ctx();
    u64 i = c.idx;
    if (c.has_only) return i == c.only;
    return (i % c.nshards) == c.shard && i >= c.start;
}
inline void skip_case() { ctx().idx++; }

inline bool begin(const std::string &id) {
    Ctx &c = ctx();
    finish_case();
    bool m = mine();
    u64 i = c.idx++;
    if (!m) return false;
    c.running = true; c.case_ok = true; c.id = id; c.last_note.clear();
    c.sh->cur_idx = i;
    std::strncpy(c.sh->cur_case, id.c_str(), sizeof(c.sh->cur_case) - 1);
    alarm(c.case_timeout);
    if (c.verbose) { std::printf("CASE %llu %s\n", (unsigned long long)i, id.c_str()); std::fflush(stdout); }
    return true;
}
// cheap variant: the id is only built when the case is executed
template <typename F> inline bool begin_lazy(F &&f) {
    if (!mine()) { finish_case(); ctx().idx++; return false; }
    return begin(f());
}

inline void op(u64 n = 1) { ctx().sh->transitions += n; }

inline void state(u64 h) {
    Shared *s = ctx().sh;
    if (h == 0) h = 1;
    u64 p = (h * 0x9E3779B97F4A7C15ull) >> 44;
    for (u64 k = 0; k < 64; ++k) {
        u64 &e = s->table[(p + k) & (TABLE - 1)];
        if (e == h) return;
        if (e == 0) { if (s->nstates < TABLE * 9 / 10) { e = h; s->nstates++; } else s->table_full = 1; return; }
    }
    s->table_full = 1;
}

struct Hash {
    u64 h = 1469598103934665603ull;
    Hash &raw(u64 v) { h ^= v; h *= 1099511628211ull; h ^= h >> 29; return *this; }
    Hash &i(long long v) { return raw((u64)v); }
    Hash &s(const std::string &v) { for (unsigned char c : v) raw(c); return *this; }
    // doubles enter rounded, so that numerically equal observations are one state
    Hash &d(double v) { if (!(std::abs(v) < 1e12)) return raw(std::isnan(v) ? 77u : 99u);
        return raw((u64)(long long)std::llround(v * 1e4)); }
    template <typename M> Hash &m(const M &v) { for (int j = 0; j < (int)v.cols(); ++j) for (int k = 0; k < (int)v.rows(); ++k) d((double)v(k, j)); return *this; }
};

inline std::string fmt(const char *f, ...) {
    char b[2048]; va_list a; va_start(a, f); std::vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline void note(const std::string &s) { ctx().last_note = s; }

inline void fail(const char *name, const std::string &msg) {
    Ctx &c = ctx();
    c.case_ok = false;
    for (std::size_t k = 0; k < c.known.size(); ++k)
        if (fnmatch(c.known[k].first.c_str(), c.id.c_str(), 0) == 0 && fnmatch(c.known[k].second.c_str(), name, 0) == 0) {
            if (c.known_hits[k]++ == 0 && c.out) {
                std::fprintf(c.out, "{\"t\":\"k\",\"k\":%zu,\"idx\":%llu,\"case\":\"%s\",\"check\":\"%s\",\"msg\":\"%s\"}\n", k,
                    (unsigned long long)c.sh->cur_idx, esc(c.id).c_str(), name, esc(msg).c_str());
                std::fflush(c.out);
            }
            c.sh->suppressed++;
            return;
        }
    c.nviol++;
    if (c.verbose) std::printf("  FAIL %s: %s\n", name, msg.c_str());
    if (c.out) {
        std::fprintf(c.out, "{\"t\":\"v\",\"idx\":%llu,\"case\":\"%s\",\"check\":\"%s\",\"msg\":\"%s\"}\n",
            (unsigned long long)c.sh->cur_idx, esc(c.id).c_str(), name, esc(msg).c_str());
        std::fflush(c.out);
    }
    if (c.nviol >= 60 && !c.has_only) {   // enough evidence: stop this shard
        if (c.out) { std::fprintf(c.out, "{\"t\":\"stop\"}\n"); std::fclose(c.out); }
        c.sh->finished = 2;
        _exit(0);
    }
}
inline bool check(bool ok, const char *name, const std::string &msg) { ctx().sh->checks++; if (!ok) fail(name, msg); return ok; }
inline bool check(bool ok, const char *name) { ctx().sh->checks++; if (!ok) fail(name, ""); return ok; }

// |a-b| <= tol * (1 + max(|a|,|b|))
inline bool close(double a, double b, double tol) {
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::abs(a - b) <= tol * (1.0 + std::max(std::abs(a), std::abs(b)));
}
inline bool near(double a, double b, double tol, const char *name, const std::string &what = "") {
    bool ok = close(a, b, tol);
    return check(ok, name, ok ? std::string() : fmt("%s got %.12g expected %.12g (tol %.1e)", what.c_str(), a, b, tol));
}
// scale-aware matrix comparison
template <typename A, typename B>
inline bool mnear(const A &a, const B &b, double tol, const char *name, const std::string &what = "") {
    ctx().sh->checks++;
    if (a.rows() != b.rows() || a.cols() != b.cols()) { fail(name, fmt("%s: size %dx%d vs %dx%d", what.c_str(), (int)a.rows(), (int)a.cols(), (int)b.rows(), (int)b.cols())); return false; }
    double sc = 1.0;
    for (int j = 0; j < (int)b.cols(); ++j) for (int i = 0; i < (int)b.rows(); ++i) if (std::isfinite((double)b(i, j))) sc = std::max(sc, std::abs((double)b(i, j)));
    for (int j = 0; j < (int)b.cols(); ++j) for (int i = 0; i < (int)b.rows(); ++i) {
        double x = a(i, j), y = b(i, j);
        if (!std::isfinite(x) || !std::isfinite(y) || std::abs(x - y) > tol * sc) {
            fail(name, fmt("%s at (%d,%d): got %.12g expected %.12g (tol %.1e, scale %.3g)", what.c_str(), i, j, x, y, tol, sc));
            return false;
        }
    }
    return true;
}
template <typename M> inline std::string vec(const M &m) {
    std::string s = "[";
    for (int j = 0; j < (int)m.cols(); ++j) for (int i = 0; i < (int)m.rows(); ++i) s += fmt("%s%.5g", (i || j) ? "," : "", (double)m(i, j));
    return s + "]";
}
template <typename M> inline bool finite(const M &m) {
    for (int j = 0; j < (int)m.cols(); ++j) for (int i = 0; i < (int)m.rows(); ++i) if (!std::isfinite((double)m(i, j))) return false;
    return true;
}
// plain deterministic generator (no library RNG): dyadic rationals in [-2,2]
struct Lcg { u64 s; explicit Lcg(u64 seed) : s(seed * 2862933555777941757ull + 3037000493ull) { next(); next(); }
    u64 next() { s = s * 6364136223846793005ull + 1442695040888963407ull; return s >> 33; }
    double operator()() { return ((double)(next() % 4097) - 2048.0) / 1024.0; } };

} // namespace vh

void vh_run();

int main(int argc, char **argv) {
    using namespace vh;
    Ctx &c = ctx();
    std::string outp, shmp, knownp;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--shard") c.shard = std::stoull(val());
        else if (a == "--nshards") c.nshards = std::stoull(val());
        else if (a == "--start") c.start = std::stoull(val());
        else if (a == "--only") { c.has_only = true; c.only = std::stoull(val()); }
        else if (a == "--out") outp = val();
        else if (a == "--shm") shmp = val();
        else if (a == "--known") knownp = val();
        else if (a == "--thorough") c.thorough = true;
        else if (a == "--timeout") c.case_timeout = (unsigned)std::stoul(val());
        else if (a == "-v") c.verbose = true;
    }
    if (!shmp.empty()) {
        int fd = open(shmp.c_str(), O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) return 3;
        c.sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (c.sh == MAP_FAILED) return 3;
        close(fd);
    } else c.sh = (Shared *)std::calloc(1, sizeof(Shared));
    if (!outp.empty()) c.out = std::fopen(outp.c_str(), "a");
    if (!knownp.empty()) if (FILE *f = std::fopen(knownp.c_str(), "r")) {
        char b[4096];
        while (std::fgets(b, sizeof b, f)) { std::string s(b); while (!s.empty() && (s.back() == '\n')) s.pop_back();
            auto t = s.find('\t'); if (t != std::string::npos) c.known.emplace_back(s.substr(0, t), s.substr(t + 1)); }
        std::fclose(f);
    }
    c.known_hits.assign(c.known.size(), 0);
    vh_run();
    finish_case();
    alarm(0);
    c.sh->finished = 1;
    for (std::size_t k = 0; k < c.known.size(); ++k) if (c.out && c.known_hits[k]) std::fprintf(c.out, "{\"t\":\"kc\",\"k\":%zu,\"n\":%u}\n", k, c.known_hits[k]);
    if (c.out) std::fclose(c.out);
    if (c.verbose || outp.empty()) std::printf("cases=%llu ops=%llu traces_ok=%llu checks=%llu states=%llu viol=%u\n", (unsigned long long)c.sh->cases,
        (unsigned long long)c.sh->transitions, (unsigned long long)c.sh->traces, (unsigned long long)c.sh->checks, (unsigned long long)c.sh->nstates, c.nviol);
    return 0;
}
