// Harness framework: deterministic case generation, monitors, result file.
#ifndef VH_HPP
#define VH_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <algorithm>
#include <csignal>
#include <sys/time.h>
#include <fcntl.h>
#include <unistd.h>
#include <valgrind/memcheck.h>

typedef std::vector<uint8_t> Bytes;

namespace vh {

struct Rng {
    uint64_t s[2];
    static uint64_t sm(uint64_t &x) {
        uint64_t z = (x += 0x9E3779B97F4A7C15ULL);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }
    explicit Rng(uint64_t seed = 0, uint64_t n = 0) {
        uint64_t x = seed * 0xD1342543DE82EF95ULL + n * 0x2545F4914F6CDD1DULL + 77;
        s[0] = sm(x); s[1] = sm(x);
    }
    uint64_t next() {
        uint64_t a = s[0], b = s[1], r = a + b;
        b ^= a; s[0] = ((a << 24) | (a >> 40)) ^ b ^ (b << 16); s[1] = (b << 37) | (b >> 27);
        return r;
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + below(hi - lo + 1); }
    bool chance(int num, int den) { return (int)below(den) < num; }
    void fill(void *p, size_t n) { uint8_t *b = (uint8_t *)p; while (n--) *b++ = (uint8_t)(next() >> 23); }
    Bytes bytes(size_t n) { Bytes b(n); fill(b.data(), n); return b; }
    template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
};

inline std::string hex(const void *p, size_t n, size_t max = 40) {
    static const char d[] = "0123456789abcdef";
    std::string s; const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n && i < max; ++i) { s += d[b[i] >> 4]; s += d[b[i] & 15]; }
    if (n > max) s += "..";
    return s;
}
inline std::string hex(const Bytes &b, size_t max = 40) { return hex(b.data(), b.size(), max); }

inline std::string fmt(const char *f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    return buf;
}
inline std::string jesc(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}

struct Ctx {
    uint64_t seed = 1, from = 0, to = 0; bool thorough = false; std::string outp;
    FILE *out = nullptr; int prog = -1;
    uint64_t cur = 0, evals = 0;
    std::map<std::string, uint64_t> events;
    std::unordered_set<uint64_t> sigs;
    std::set<std::string> vkeys;
    int nsamples = 0; int nviol = 0; std::string desc;
    std::map<std::string, std::string> opts;
};
inline Ctx &ctx() { static Ctx c; return c; }

inline void ev(const char *name, uint64_t n = 1) { ctx().events[name] += n; }
inline void ev(const std::string &name, uint64_t n = 1) { ctx().events[name] += n; }
#ifndef VH_BACKEND
#define VH_BACKEND ""
#endif
inline void sig(const std::string &s) {
    uint64_t h = 1469598103934665603ULL;
    for (unsigned char c : std::string(VH_BACKEND) + s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29;
    ctx().sigs.insert(h);
}
inline void eval(uint64_t n = 1) { ctx().evals += n; }
inline void sample(const std::string &s) {
    if (ctx().nsamples++ < 4) { fprintf(ctx().out, "{\"t\":\"s\",\"s\":%s}\n", jesc(s).c_str()); fflush(ctx().out); }
}
inline void viol(const std::string &key, const char *f, ...) {
    char buf[4096]; va_list ap; va_start(ap, f); vsnprintf(buf, sizeof buf, f, ap); va_end(ap);
    Ctx &c = ctx();
    ev("violations_raised");
    if (!c.vkeys.insert(key).second) return;
    if (++c.nviol > 40) return;
    fprintf(c.out, "{\"t\":\"v\",\"key\":%s,\"case\":\"%llu %s\",\"msg\":%s}\n", jesc(key).c_str(),
            (unsigned long long)c.cur, c.desc.c_str(), jesc(std::string(buf) + " | case " + std::to_string(c.cur) + " " + c.desc).c_str());
    fflush(c.out);
}
// What is being run, kept where a crash cannot lose it.
inline void describe(const std::string &s) {
    Ctx &c = ctx();
    std::string t;
    for (char ch : s) if ((unsigned char)ch >= 0x20 && ch != '"' && ch != '\\' && (unsigned char)ch < 0x7f) t += ch;
    if (t.size() > 400) t.resize(400);
    c.desc = t;
    if (c.prog >= 0) {
        std::string l = std::to_string(c.cur) + " " + t;
        l.resize(512, ' ');
        if (pwrite(c.prog, l.data(), l.size(), 0) < 0) {}
    }
}
inline void on_prof(int) { _exit(97); }
inline void budget(int secs) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = secs;
    setitimer(ITIMER_PROF, &it, nullptr);
}
[[noreturn]] inline void die(const char *f, ...) {
    va_list ap; va_start(ap, f); vfprintf(stderr, f, ap); va_end(ap); fputc('\n', stderr); _exit(96);
}

inline std::string opt(const char *k, const char *d = "") {
    auto it = ctx().opts.find(k); return it == ctx().opts.end() ? d : it->second;
}

inline void finish() {
    Ctx &c = ctx();
    std::string s = "{\"t\":\"end\",\"evals\":" + std::to_string(c.evals) + ",\"events\":{";
    bool first = true;
    for (auto &e : c.events) { if (!first) s += ","; first = false; s += jesc(e.first) + ":" + std::to_string(e.second); }
    s += "},\"sigs\":[";
    first = true;
    for (uint64_t h : c.sigs) { char b[24]; snprintf(b, 24, "%s\"%016llx\"", first ? "" : ",", (unsigned long long)h); first = false; s += b; }
    s += "]}\n";
    fwrite(s.data(), 1, s.size(), c.out);
    fclose(c.out);
}

inline void init(int argc, char **argv) {
    Ctx &c = ctx();
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed") c.seed = strtoull(v.c_str(), 0, 0);
        else if (k == "--from") c.from = strtoull(v.c_str(), 0, 0);
        else if (k == "--to") c.to = strtoull(v.c_str(), 0, 0);
        else if (k == "--case") { c.from = strtoull(v.c_str(), 0, 0); c.to = c.from + 1; }
        else if (k == "--tier") c.thorough = v == "thorough";
        else if (k == "--out") c.outp = v;
        else c.opts[k] = v;
    }
    c.out = c.outp.empty() ? stdout : fopen(c.outp.c_str(), "w");
    if (!c.out) die("cannot open output");
    if (!c.outp.empty()) c.prog = open((c.outp + ".prog").c_str(), O_CREAT | O_RDWR | O_TRUNC, 0600);
    signal(SIGPROF, on_prof);
    signal(SIGPIPE, SIG_IGN);
}

// Under Valgrind (--memlog): errors of the case just run, named by the function in Valgrind's log.
struct Memcheck {
    std::string path; long seen = 0; unsigned n = 0;
    void start() {
        path = opt("--memlog"); if (path.empty()) return;
        path += std::to_string(getpid());
        if (!RUNNING_ON_VALGRIND) die("not under valgrind");
        uint8_t *t = (uint8_t *)malloc(4); if (!VALGRIND_CHECK_MEM_IS_DEFINED(t, 4)) die("undefined memory is not seen"); free(t);
        FILE *f = fopen(path.c_str(), "r"); if (!f) die("no valgrind log"); fseek(f, 0, SEEK_END); seen = ftell(f); fclose(f);
        n = VALGRIND_COUNT_ERRORS;
    }
    void check() {
        if (path.empty()) return;
        ev("memcheck_cases");
        unsigned m = VALGRIND_COUNT_ERRORS; if (m == n) return;
        n = m; bool any = false; std::string l, what, fn = "-"; FILE *f = fopen(path.c_str(), "r");
        if (f) {
            fseek(f, seen, SEEK_SET); char b[1000];
            while (fgets(b, sizeof b, f)) {
                l = b; size_t z = l.find("== "); if (z == std::string::npos) continue;
                l = l.substr(z + 3); while (l.size() && (l.back() == '\n' || l.back() == ' ')) l.pop_back();
                bool frame = l.find("   at 0x") != std::string::npos || l.find("   by 0x") != std::string::npos;
                if (!frame) {
                    if (l.find("ninit") != std::string::npos || l.find("Invalid") != std::string::npos || l.find("overlap") != std::string::npos || l.find("ddressable") != std::string::npos || l.find("Mismatched") != std::string::npos) { if (l.find("created by") == std::string::npos) { what = l; fn = ""; } }
                    continue;
                }
                if (!fn.empty()) continue;
                z = l.find(": "); if (z == std::string::npos || l.find("vg_replace") != std::string::npos || l.find("(in /") != std::string::npos || l.find("defined(") != std::string::npos) continue;
                size_t e = l.find(' ', z + 2); fn = l.substr(z + 2, e - z - 2); any = true;
                viol("memcheck:" + fn, "%s: %s", what.c_str(), l.substr(z + 2).c_str());
            }
            seen = ftell(f); fclose(f);
        }
        if (!any) viol("memcheck", "Valgrind saw undefined or foreign memory used");
    }
};
// Runs body(rng) for each case number; every case has its own generator.
inline int run(int argc, char **argv, const std::function<void(uint64_t, Rng &)> &body, int cpu_budget = 60) {
    init(argc, argv);
    Ctx &c = ctx(); Memcheck mc; mc.start(); if (!mc.path.empty()) cpu_budget *= 20;
    for (uint64_t i = c.from; i < c.to; ++i) {
        c.cur = i; Rng r(c.seed, i);
        describe("-");
        budget(cpu_budget);
        body(i, r); mc.check();
    }
    budget(0);
    finish();
    return 0;
}

// Exact-size heap buffer with canaries outside it for builds without ASan; under
// ASan any access outside is caught by redzones.
struct Guard {
    uint8_t *raw, *p; size_t n;
    explicit Guard(size_t n_, uint8_t fillb = 0xA5) : n(n_) {
        raw = (uint8_t *)malloc(n + 64); memset(raw, 0x5C, n + 64); p = raw + 32; memset(p, fillb, n);
    }
    Guard(const Guard &) = delete;
    ~Guard() { free(raw); }
    bool intact() const {
        for (int i = 0; i < 32; ++i) if (raw[i] != 0x5C || raw[32 + n + i] != 0x5C) return false;
        return true;
    }
};
} // namespace vh
#endif
