// C17: randomness: entropy use, no repeats, reseeding, backtracking, faults, fresh keys.
#include "vh.hpp"
#include <noise/protocol.h>
#include <sanitizer/allocator_interface.h>
#include <sys/wait.h>
#include <cerrno>
#include <cstdarg>
#if SODIUM
#include <sodium.h>
#endif
using namespace vh;

// ------------------------------------------------------ the entropy source
struct Source {
    bool on = false; Rng r; uint64_t reads = 0, bytes = 0; long long flip = -1; std::set<int> fds;
    int fail = 0; unsigned fail_at = 0; int eintr = 0; unsigned opened = 0; uint64_t op = 0; unsigned interrupted = 0;
    void start(uint64_t seed) { on = true; r = Rng(seed, 99); reads = bytes = 0; flip = -1; fail = 0; eintr = 0; op = 0; interrupted = 0; }
    void fill(void *p, size_t n) { uint8_t *b = (uint8_t *)p; for (size_t i = 0; i < n; ++i) { b[i] = (uint8_t)(r.next() >> 19); if (flip >= 0 && (uint64_t)(flip / 8) == bytes + i) b[i] ^= 1 << (flip % 8); } bytes += n; ++reads; }
};
static Source src;
extern "C" {
int __real_open(const char *, int, ...); ssize_t __real_read(int, void *, size_t); int __real_close(int); 
static bool dev(const char *n) { return src.on && n && (!strcmp(n, "/dev/urandom") || !strcmp(n, "/dev/random")); }
int __wrap_open(const char *n, int f, ...) {
    va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a);
    if (dev(n)) { ++src.opened; if (src.fail == 1 && src.op++ == src.fail_at) { errno = src.reads % 2 ? ENOENT : EMFILE; return -1; } int fd = __real_open("/dev/null", O_RDONLY); src.fds.insert(fd); if (src.fds.size() > 16) viol("descriptors-left", "%zu descriptors of the random source are open at once", src.fds.size()); return fd; }
    return __real_open(n, f, m);
}
int __wrap_open64(const char *n, int f, ...) { va_list a; va_start(a, f); int m = va_arg(a, int); va_end(a); return __wrap_open(n, f, m); }
ssize_t __wrap_read(int fd, void *p, size_t n) {
    if (!src.fds.count(fd)) return __real_read(fd, p, n);
    if (src.fail >= 2 && src.op++ == src.fail_at) {
        switch (src.fail) { case 2: errno = EIO; return -1; case 3: return 0; case 4: src.fill(p, n / 2); return n / 2; default: src.fill(p, n - 1); return n - 1; }
    }
    if (src.eintr > 0) { --src.eintr; ++src.interrupted; errno = EINTR; return -1; }
    src.fill(p, n); return n;
}
int __wrap_close(int fd) { src.fds.erase(fd); return __real_close(fd); }
static ssize_t ent(void *p, size_t n) {
    if (!src.on) { FILE *f = fopen("/dev/urandom", "rb"); size_t k = fread(p, 1, n, f); fclose(f); return k; }
    if (src.fail && src.op++ == src.fail_at) { errno = EIO; return -1; }
    if (src.eintr > 0) { --src.eintr; ++src.interrupted; errno = EINTR; return -1; }
    src.fill(p, n); return n;
}
ssize_t __wrap_getrandom(void *p, size_t n, unsigned) { return ent(p, n); }
int __wrap_getentropy(void *p, size_t n) { return ent(p, n) < 0 ? -1 : 0; }
}
#if SODIUM
static const char *sname() { return "vh"; }
static uint32_t s32() { uint32_t v; ent(&v, 4); return v; }
static void sbuf(void *const p, const size_t n) { ent(p, n); }
static int sclose() { return 0; }
static randombytes_implementation impl = {sname, s32, 0, 0, sbuf, sclose};
#endif

static const uint64_t RESEED = 1600000;
struct Seen { // 16-byte blocks, by hash
    std::unordered_set<uint64_t> s; unsigned dup = 0;
    void add(const uint8_t *p, size_t n) { for (size_t i = 0; i + 16 <= n; i += 16) { uint64_t a, b; memcpy(&a, p + i, 8); memcpy(&b, p + i + 8, 8); uint64_t h = a * 0x9E3779B97F4A7C15ULL ^ (b * 0xD1342543DE82EF95ULL) ^ (b >> 31); if (!s.insert(h).second) ++dup; } }
};
static void stream_case(Rng &r) {
    src.start(r.next()); NoiseRandState *st = 0; if (noise_randstate_new(&st) || !st) { viol("new", "randstate_new failed"); return; }
    if (src.bytes < 32) viol("seed-short", "a new generator took only %llu bytes of entropy", (unsigned long long)src.bytes);
    Seen seen; uint64_t since = 0, reads = src.reads, total = 0; int n = 5 + r.below(40); std::string sg = "stream"; uint64_t bits[8] = {0}, cnt = 0; bool big = r.chance(1, 40);
    for (int i = 0; i < n; ++i) {
        size_t len; switch (r.below(6)) { case 0: len = r.below(20); break; case 1: len = 60 + r.below(10); break; case 2: len = 1000 + r.below(100); break; case 3: len = r.below(5000); break; case 4: len = big ? 1000000 + r.below(2500000) : r.below(60000); break; default: len = 16 << r.below(8); }
        sg += fmt(" %zu", len);
        Guard g(len, 0x5A); uint64_t b0 = src.reads, e0 = src.bytes; (void)e0; int e = noise_randstate_generate(st, g.p, len); eval();
        if (e) viol("generate", "generate of %zu gave %d", len, e);
        if (!g.intact()) viol("overrun", "generate wrote outside the buffer");
        seen.add(g.p, len); total += len;
        if (len >= 40) { size_t z = 0; for (size_t j = 0; j < len; ++j) z = g.p[j] == 0 ? z + 1 : 0; if (z >= 8) viol("tail-zero", "a request of %zu ends with %zu zero bytes", len, z); for (size_t j = 0; j + 12 < len; ++j) if (!memcmp(g.p + j, "\0\0\0\0\0\0\0\0\0\0\0\0", 12) || !memcmp(g.p + j, "ZZZZZZZZZZZZ", 12)) { viol("unfilled", "12 bytes at %zu of %zu are untouched or zero", j, len); break; } }
        for (size_t j = 0; j < len; ++j) for (int k = 0; k < 8; ++k) bits[k] += g.p[j] >> k & 1; cnt += len;
        // reseeding: no more than RESEED bytes from one seed
        if (src.reads == b0) since += len; else since = len > RESEED ? 0 : len;
        if (len > RESEED && src.reads - b0 < len / RESEED) viol("reseed-inside", "a request of %zu bytes reseeded %llu times", len, (unsigned long long)(src.reads - b0));
        if (since > RESEED + RESEED / 100) viol("reseed-late", "%llu bytes were generated from one seed", (unsigned long long)since);
        if (r.chance(1, 12)) { uint64_t c = src.reads, by = src.bytes; if (noise_randstate_reseed(st) || src.reads == c || src.bytes - by < 32) viol("reseed", "reseed took no fresh entropy"); since = 0; ev("reseeds_forced"); }
    }
    if (src.reads > reads) ev("reseeds", src.reads - reads);
    if (seen.dup) viol("repeat", "%u 16-byte blocks of output repeated within %llu bytes", seen.dup, (unsigned long long)total);
    if (cnt > 2000) for (int k = 0; k < 8; ++k) { double d = (double)bits[k] - cnt / 2.0; if (d * d > 49.0 * cnt / 4) viol("bias", "bit %d is one in %llu of %llu bytes", k, (unsigned long long)bits[k], (unsigned long long)cnt); }
    ev("requests", n); ev("bytes_generated", total); sig(sg); sample(sg.substr(0, 120)); noise_randstate_free(st); src.on = false;
}
// every bit of the entropy matters, and nothing else does
static void entropy_case(Rng &r) {
    uint64_t seed = r.next(); size_t len = 16 + r.below(200); int mode = r.below(3); std::vector<Bytes> outs; uint64_t used = 0;
    auto go = [&](long long flip) { src.start(seed); src.flip = flip; Bytes o(len); NoiseRandState *s = 0;
        if (mode == 0) { noise_randstate_new(&s); noise_randstate_generate(s, o.data(), len); noise_randstate_free(s); }
        else if (mode == 1) { noise_randstate_new(&s); noise_randstate_reseed(s); noise_randstate_generate(s, o.data(), len); noise_randstate_free(s); }
        else noise_randstate_generate_simple(o.data(), len);
        used = src.bytes; src.on = false; return o; };
    Bytes base = go(-1); uint64_t n = used; if (n < 32) { viol("entropy-little", "%zu bytes generated from %llu bytes of entropy", len, (unsigned long long)n); return; }
    Seen seen; seen.add(base.data(), base.size());
    for (int i = 0; i < 12; ++i) { long long f = r.chance(1, 2) ? r.below(256) : r.below(n * 8); Bytes o = go(f); eval(); size_t same = 0; for (size_t j = 0; j < len; ++j) same += o[j] == base[j];
        if (same > len / 4 + 3) viol(fmt("entropy-ignored:%d", mode), "entropy bit %lld of %llu changed only %zu of %zu output bytes", f, (unsigned long long)n * 8, len - same, len); ev("entropy_bits_flipped"); }
    sig(fmt("entropy %d %zu %llu", mode, len, (unsigned long long)seed));
}
static size_t heapsize(void *p) { return __sanitizer_get_allocated_size(p); }
// what the state holds after a request does not give the previous state or output back
static void backtrack_case(Rng &r) {
    src.start(r.next()); NoiseRandState *a, *b; noise_randstate_new(&a); noise_randstate_new(&b); size_t n = heapsize(a); Bytes fresh1((uint8_t *)a, (uint8_t *)a + n), fresh2((uint8_t *)b, (uint8_t *)b + n);
    int k = 1 + r.below(6); sig(fmt("backtrack %d %llu", k, (unsigned long long)r.s[0]));
    auto own = [&](size_t j, size_t m) { size_t d = 0; for (size_t q = j; q < j + m; ++q) d += fresh1[q] != fresh2[q]; return d; };
    for (int i = 0; i < k; ++i) {
        Bytes before((uint8_t *)a, (uint8_t *)a + n); size_t len = 1 + r.below(r.chance(1, 4) ? 3000 : 100); Bytes o(len); noise_randstate_generate(a, o.data(), len); Bytes after((uint8_t *)a, (uint8_t *)a + n); eval();
        // 16 bytes that stay and are not the same in every generator
        for (size_t j = 0; j + 16 <= n; ++j) if (!memcmp(&before[j], &after[j], 16) && own(j, 16) >= 12) { viol("state-kept", "16 bytes of the state at %zu stay the same over a request of %zu", j, len); break; }
        if (len >= 12) for (size_t j = 0; j + 12 <= len; ++j) if (memmem(after.data(), n, &o[j], 12)) { viol("output-kept", "output of a request stays in the state"); break; }
        // the next output is not derivable by replaying a copy of the output: both generators go separate ways
        Bytes o1(64), o2(64); noise_randstate_generate(a, o1.data(), 64); noise_randstate_generate(b, o2.data(), 64); if (o1 == o2) viol("same-stream", "two generators give the same bytes"); ev("states_inspected");
    }
    noise_randstate_free(a); noise_randstate_free(b); src.on = false;
}
static void pad_case(Rng &r) {
    src.start(r.next()); NoiseRandState *st; noise_randstate_new(&st); size_t orig = r.below(80), padded = r.below(160), n = std::max(orig, padded); int mode = r.chance(1, 3) ? NOISE_PADDING_ZERO : r.chance(1, 2) ? NOISE_PADDING_RANDOM : (int)r.next(); bool nul = r.chance(1, 10);
    Guard g(n, 0x5A); Bytes p = r.bytes(orig); if (orig) memcpy(g.p, p.data(), orig); sig(fmt("pad %zu %zu %d", orig, padded, mode)); int e = noise_randstate_pad(nul ? 0 : st, g.p, orig, padded, mode); eval();
    if (e != (nul ? NOISE_ERROR_INVALID_PARAM : 0)) viol("pad-error", "pad gave %d", e);
    if (!g.intact() || (orig && memcmp(g.p, p.data(), orig))) viol("pad-payload", "pad changed the payload or beyond (%zu -> %zu)", orig, padded);
    if (padded > orig) { size_t m = padded - orig, z = 0, fives = 0; for (size_t i = orig; i < padded; ++i) { z += g.p[i] == 0; fives += g.p[i] == 0x5A; }
        if (nul || mode == NOISE_PADDING_ZERO) { if (z != m) viol("pad-zero", "zero padding of %zu has %zu zero bytes", m, z); } else if (m >= 8 && (z > m / 2 || fives > m / 2)) viol("pad-random", "random padding of %zu has %zu zero, %zu unchanged bytes", m, z, fives); ev("paddings"); }
    const int IP = NOISE_ERROR_INVALID_PARAM; Guard h(20, 0x5A);
    bool ok = noise_randstate_pad(st, 0, 0, 5, mode) == IP && noise_randstate_generate(st, 0, 5) == IP && noise_randstate_generate_simple(0, 5) == IP && noise_randstate_new(0) == IP && noise_randstate_free(0) == IP && noise_randstate_reseed(0) == IP && noise_randstate_generate(0, h.p, 20) == IP;
    for (int i = 0; i < 20; ++i) if (h.p[i]) ok = false;
    if (!ok) viol("null", "null arguments not refused as documented"); noise_randstate_free(st); src.on = false;
}
// every byte asked for is written: no byte keeps what was there, whatever was there
static void fill_case(Rng &r) {
    src.start(r.next()); NoiseRandState *st; noise_randstate_new(&st); int how = r.below(3);
    size_t len = r.chance(1, 3) ? r.below(200) : r.chance(1, 2) ? r.below(66000) : (64 << r.below(11)) + r.below(7) - 3, orig = how == 2 ? r.below(100) : 0; sig(fmt("fill %d %zu %zu", how, len, orig));
    std::vector<bool> kept(len, true), zero(len, true); static const int v[6] = {0x5A, 0xA5, 0xFF, 0x33, 0x81, 0x00};
    for (int k = 0; k < 6; ++k) {
        Guard g(orig + len, v[k]); int e = how == 0 ? noise_randstate_generate(st, g.p, len) : how == 1 ? noise_randstate_generate_simple(g.p, len) : noise_randstate_pad(st, g.p, orig, orig + len, NOISE_PADDING_RANDOM); eval();
        if (e || !g.intact()) viol("fill-error", "request %d of %zu gave %d", how, len, e);
        for (size_t i = 0; i < len; ++i) { if (g.p[orig + i] != v[k]) kept[i] = false; if (g.p[orig + i]) zero[i] = false; }
    }
    for (size_t i = 0; i < len; ++i) if (kept[i] || zero[i]) { viol("unfilled", "%s of %zu bytes %s byte %zu", how == 0 ? "generate" : how == 1 ? "generate_simple" : "pad", len, kept[i] ? "never writes" : "always clears", i); break; }
    ev("requests_filled"); noise_randstate_free(st); src.on = false;
}
// ------------------------------------------------------------------ keys
struct Gen { const char *name; size_t len; std::function<int(Bytes &)> f; };
static int dhgen(int id, Bytes &k) { NoiseDHState *d = 0; int e = noise_dhstate_new_by_id(&d, id); if (e) return e; noise_dhstate_set_role(d, NOISE_ROLE_INITIATOR); e = noise_dhstate_generate_keypair(d); Bytes priv(noise_dhstate_get_private_key_length(d)), pub(noise_dhstate_get_public_key_length(d)); if (!e) e = noise_dhstate_get_keypair(d, priv.data(), priv.size(), pub.data(), pub.size()); k = priv; noise_dhstate_free(d); return e; }
static int signgen(Bytes &k) { NoiseSignState *d = 0; int e = noise_signstate_new_by_id(&d, NOISE_SIGN_ED25519); if (e) return e; e = noise_signstate_generate_keypair(d); Bytes priv(32), pub(32); if (!e) e = noise_signstate_get_keypair(d, priv.data(), 32, pub.data(), 32); k = priv; noise_signstate_free(d); return e; }
static int simple(Bytes &k) { k.assign(32, 0); return noise_randstate_generate_simple(k.data(), 32); }
// the ephemeral public key in the first message of a handshake
static int hsgen(const char *proto, Bytes &k) {
    NoiseHandshakeState *h = 0; int e = noise_handshakestate_new_by_name(&h, proto, NOISE_ROLE_INITIATOR); if (e) return e;
    if (noise_handshakestate_needs_pre_shared_key(h)) { uint8_t p[32] = {1}; noise_handshakestate_set_pre_shared_key(h, p, 32); }
    e = noise_handshakestate_start(h); uint8_t m[4096]; NoiseBuffer b; noise_buffer_set_output(b, m, sizeof m); if (!e) e = noise_handshakestate_write_message(h, &b, 0); if (!e) k.assign(m, m + b.size); noise_handshakestate_free(h); return e;
}
static std::vector<Gen> gens = {
    {"dh25519", 32, [](Bytes &k) { return dhgen(NOISE_DH_CURVE25519, k); }}, {"dh448", 56, [](Bytes &k) { return dhgen(NOISE_DH_CURVE448, k); }}, {"newhope", 32, [](Bytes &k) { return dhgen(NOISE_DH_NEWHOPE, k); }},
    {"sign", 32, signgen}, {"simple", 32, simple},
    {"hs25519", 32, [](Bytes &k) { return hsgen("Noise_NN_25519_ChaChaPoly_BLAKE2s", k); }}, {"hs448", 56, [](Bytes &k) { return hsgen("Noise_NN_448_AESGCM_SHA256", k); }},
    {"hspsk", 32, [](Bytes &k) { return hsgen("NoisePSK_NN_25519_AESGCM_SHA512", k); }}, {"hshfs", 1856, [](Bytes &k) { return hsgen("Noise_NNhfs_25519+NewHope_ChaChaPoly_BLAKE2b", k); }}};
static void keys_case(uint64_t i, Rng &r) {
    Gen &g = gens[i % gens.size()]; bool full = strncmp(g.name, "hs", 2) != 0; src.start(r.next()); int n = g.len > 1000 ? 12 : strstr(g.name, "448") ? 30 : 160; std::set<Bytes> seen; std::vector<unsigned> ones; size_t len = 0; describe(fmt("keys %s", g.name)); sig(fmt("keys %s %llu", g.name, (unsigned long long)r.s[1]));
    for (int j = 0; j < n; ++j) {
        uint64_t b0 = src.bytes; Bytes k; int e = g.f(k); eval(); if (e || k.size() < 32) { viol(fmt("keygen:%s", g.name), "generating gave %d", e); break; }
        if (src.bytes - b0 < 32) viol(fmt("key-entropy:%s", g.name), "a key took %llu bytes of fresh entropy", (unsigned long long)(src.bytes - b0));
        // ephemeral and hybrid parts separately
        if (!seen.insert(Bytes(k.begin(), k.begin() + 32)).second) viol(fmt("key-repeat:%s", g.name), "the same key was generated twice");
        if (k.size() > 1000 && !seen.insert(Bytes(k.begin() + 32, k.begin() + 200)).second) viol(fmt("key-repeat-hybrid:%s", g.name), "the same hybrid key was generated twice");
        if (full) { len = k.size(); ones.resize(len * 8); for (size_t b = 0; b < len * 8; ++b) ones[b] += k[b / 8] >> (b % 8) & 1; }
        ev("keys_generated");
    }
    if (full && n >= 160) for (size_t b = 0; b < len * 8; ++b) { // a fixed bit must be one that the curve fixes
        bool clamp = (!strcmp(g.name, "dh25519") || !strcmp(g.name, "sign")) && (b < 3 || b >= 254); double d = ones[b] - n / 2.0;
        if (!clamp && d * d > 42.0 * n / 4) viol(fmt("key-bias:%s", g.name), "bit %zu of the private keys is one in %u of %d", b, ones[b], n); }
    // one flipped entropy bit gives another key
    for (int j = 0; j < 6; ++j) { uint64_t s = r.next(); Bytes a, b; src.start(s); g.f(a); uint64_t used = src.bytes; if (!used) break; long long f = r.below(used * 8); src.start(s); src.flip = f; g.f(b);
        // the curves ignore up to 5 bits of a private key, all in the first or last byte
        uint64_t by = f / 8; bool edge = strstr(g.name, "25519") || strstr(g.name, "448") || !strcmp(g.name, "sign") || !strcmp(g.name, "hspsk") || !strcmp(g.name, "hshfs") ? by % 8 == 0 || by % 8 == 7 : false;
        if (a == b && !edge) viol(fmt("key-entropy-ignored:%s", g.name), "entropy bit %lld of %llu has no influence on the key", f, (unsigned long long)used * 8); ev("entropy_bits_flipped"); }
    src.on = false;
}
// ------------------------------------------------------- entropy failures
static void fault_case(uint64_t i, Rng &r) {
    if (SODIUM) return;                                     // libsodium aborts by itself
    Gen *g = &gens[r.below(gens.size() + 1) % gens.size()]; bool gen = r.chance(1, 4); int kind = 1 + (i / 7) % 5; unsigned at; uint64_t seed = r.next(); describe(fmt("entropy fault %d in %s", kind, gen ? "randstate" : g->name));
    auto work = [&](Bytes &k) { if (!gen) return g->f(k); NoiseRandState *s = 0; int e = noise_randstate_new(&s); if (e) return e; k.resize(5000); e = noise_randstate_generate(s, k.data(), k.size()); if (!e) e = noise_randstate_reseed(s); noise_randstate_free(s); return e; };
    Bytes k; src.start(seed); src.eintr = kind == 5 ? 1 + r.below(5) : 0; int e = work(k); uint64_t reads = src.reads; unsigned intr = src.interrupted; src.on = false; eval();
    if (e) viol("keygen-clean", "generating gave %d", e);
    if (kind == 5) { Bytes k2; src.start(seed); work(k2); src.on = false; if (k != k2) viol("eintr", "an interrupted read changed the result"); if (intr) ev("interrupted_reads"); sig(fmt("eintr %s %llu", g->name, (unsigned long long)seed)); return; }
    at = r.below(reads ? reads : 1); sig(fmt("fault %d %u %s", kind, at, gen ? "gen" : g->name));
    int pfd[2]; if (pipe(pfd)) die("pipe"); fflush(ctx().out); pid_t pid = fork(); if (pid < 0) die("fork");
    if (!pid) {
        close(pfd[0]); if (ctx().prog >= 0) close(ctx().prog); int nul = __real_open("/dev/null", O_RDWR); dup2(nul, 1); dup2(nul, 2); signal(SIGABRT, SIG_DFL);
        src.start(seed); src.fail = kind; src.fail_at = at; Bytes o; int er = work(o); char res = er ? 'E' : o == k ? 'R' : 'K'; /* R: retried, and got all the entropy in the end */ if (write(pfd[1], &res, 1) != 1) {} _exit(er ? 41 : 42);
    }
    close(pfd[1]); char res = 0; ssize_t got = read(pfd[0], &res, 1); close(pfd[0]); int stt = 0; waitpid(pid, &stt, 0); (void)got;
    if (res == 'K') viol(fmt("fault-ignored:%d:%s", kind, gen ? "gen" : g->name), "entropy read %u failed (kind %d), but a key or data was returned as good", at, kind);
    else if (res == 'R') ev("entropy_faults_overcome");
    else if (res == 'E') ev("entropy_faults_reported");
    else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0) viol("fault-exit-0", "entropy failure ended the process with status 0"); else ev("entropy_faults_ended_process");
}
int main(int argc, char **argv) {
#if SODIUM
    randombytes_set_implementation(&impl);
#endif
    noise_init();
    return run(argc, argv, [](uint64_t i, Rng &r) {
        switch (i % 7) { case 0: stream_case(r); break; case 1: entropy_case(r); break; case 2: backtrack_case(r); break; case 3: r.chance(1, 2) ? pad_case(r) : fill_case(r); break; case 4: fault_case(i, r); break; case 5: keys_case(i / 7, r); break; default: r.chance(1, 8) ? stream_case(r) : entropy_case(r); }
    }, 120);
}
