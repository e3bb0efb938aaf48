// C08/C25: loading and saving certificates, chains and keys; hostile data, bounded effort, file faults.
#include "certdesc.hpp"
#include <noise/keys/loader.h>
#include <noise/protocol.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <cerrno>
#include <thread>
using namespace vh;
using pb::Obj; using pb::POb; using pb::putv;

// ---- heap accounting
static thread_local bool counting; static thread_local long long cur_live, peak_live; static thread_local unsigned long long nalloc;
static void on_malloc(const volatile void *p, size_t n) { if (counting) { cur_live += n; ++nalloc; if (cur_live > peak_live) peak_live = cur_live; } }
static void on_free(const volatile void *p) { if (counting && p) cur_live -= __sanitizer_get_allocated_size(p); }
struct Meter { size_t in; Meter(size_t n) : in(n) { cur_live = peak_live = 0; nalloc = 0; counting = true; } void stop() { counting = false; } };
static const long long PER_BYTE = 400, FIXED = 8192;

// ---- what loading has to give: 0 and an object, -2 not judged, or an error
static bool firsttag(const Bytes &d, uint64_t &tag) { pb::Dec dec{d}; size_t q = 0; uint64_t v; if (!dec.varint(q, v)) return false; tag = v >> 3; return true; }
static int judge_cert(const Bytes &d, POb &out) {
    uint64_t t; if (!firsttag(d, t)) return -2;
    pb::Dec dec{d};
    if (t == 8) {
        size_t q = 0; uint64_t v, n;
        while (q < d.size()) {
            if (!dec.varint(q, v)) return NOISE_ERROR_INVALID_FORMAT;
            if (v != (8 << 3 | 2)) return NOISE_ERROR_INVALID_FORMAT;
            if (!dec.varint(q, n) || n > d.size() - q) return NOISE_ERROR_INVALID_FORMAT;
            POb c(new Obj(&Noise_Certificate_d)); if (!dec.msg(q, q + n, *c)) return dec.unjudged ? -2 : NOISE_ERROR_INVALID_FORMAT;
            if (!out) out = c;
        }
    } else { size_t q = 0; out.reset(new Obj(&Noise_Certificate_d)); if (!dec.msg(q, d.size(), *out)) return dec.unjudged ? -2 : NOISE_ERROR_INVALID_FORMAT; }
    return dec.unjudged ? -2 : 0;
}
static int judge_chain(const Bytes &d, POb &out) {
    uint64_t t; if (!firsttag(d, t)) return -2;
    pb::Dec dec{d}; size_t q = 0; out.reset(new Obj(&Noise_CertificateChain_d));
    bool ok;
    if (t == 8) ok = dec.msg(q, d.size(), *out);
    else { POb c(new Obj(&Noise_Certificate_d)); ok = dec.msg(q, d.size(), *c); out->v[0].ms.push_back(c); }
    return dec.unjudged ? -2 : ok ? 0 : NOISE_ERROR_INVALID_FORMAT;
}
static POb randobj(Rng &r, const pb::MsgD *d, int ops, void **keep) {
    void *o = 0; if (d->mk(&o)) die("new"); POb m(new Obj(d)); while (ops--) pb::mutate(r, o, *m, 0);
    if (keep) *keep = o; else d->fr(o); return m;
}
static const char *fixed_bad[] = {"\x42", "\x42\x00", "\x42\x01", "\x42\xff\xff\xff\xff\x0f", "\x42\xff\xff\xff\xff\xff\xff\xff\xff\xff\x01", "\x40\x01", "\x08", "\x08\x80", "\x0a\x02\x08", "\x12\xff\xff\xff\xff\xff\xff\xff\xff\x7f", "\x1a\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x01", "\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80\x80", "\xff\xff\xff\xff\xff\xff\xff\xff\xff\x7f"};
// Data worth loading.
static Bytes makedata(Rng &r, std::string &what) {
    Bytes d; bool bad = false;
    switch (r.below(10)) {
    case 0: what = "noise"; return r.bytes(r.below(r.chance(1, 10) ? 65536 : 80));
    case 1: { what = "fixed"; const char *s = fixed_bad[r.below(sizeof fixed_bad / sizeof *fixed_bad)]; d.assign(s, s + strlen(s)); if (r.chance(1, 3)) { Bytes x = r.bytes(r.below(20)); d.insert(d.end(), x.begin(), x.end()); } return d; }
    case 2: { // as many tiny elements as fit, to make every array grow
        what = "swarm"; size_t n = r.chance(1, 60) ? 30000 : 1 + r.below(r.chance(1, 8) ? 3000 : 300); static const uint8_t el[] = {0x42, 0x1a}; uint8_t t = el[r.below(2)]; if (r.chance(1, 6)) { Bytes in; for (size_t i = 0; i < n; ++i) { in.push_back(r.chance(1, 2) ? 0x22 : 0x2a); in.push_back(0); } d.push_back(0x12); putv(d, in.size()); d.insert(d.end(), in.begin(), in.end()); return d; }
        for (size_t i = 0; i < n; ++i) { d.push_back(t); d.push_back(0); } return d; }
    case 3: { what = "unknown"; size_t n = 1 + r.below(200); while (n--) { uint64_t tag = 20 + r.below(1u << (1 + r.below(28))); int w = "\0\1\2\5"[r.below(4)]; putv(d, tag << 3 | w); if (w == 0) putv(d, r.next() >> r.below(64)); else if (w == 2) { Bytes x = r.bytes(r.below(9)); putv(d, x.size()); d.insert(d.end(), x.begin(), x.end()); } else { Bytes x = r.bytes(w == 1 ? 8 : 4); d.insert(d.end(), x.begin(), x.end()); } }
        if (r.chance(1, 4)) pb::damage(r, d); return d; }
    case 4: { what = "other"; POb m = randobj(r, all[r.below(all.size())], 10, 0); pb::enc(d, *m, bad); return d; }
    default: { bool ch = r.chance(1, 2); POb m = randobj(r, ch ? &Noise_CertificateChain_d : &Noise_Certificate_d, 5 + r.below(50), 0); pb::enc(d, *m, bad);
        what = ch ? "chain" : "certificate"; if (r.chance(2, 3)) { pb::damage(r, d); what += "-damaged"; } return d; }
    }
}
template <class T> static void load1(const Bytes &d, const char *what, const char *kind, int (*load)(T **, NoiseProtobuf *), int (*fr)(T *), int (*judge)(const Bytes &, POb &)) {
    POb m; int want = judge(d, m); pb::Exact x(d); NoiseProtobuf b; noise_protobuf_prepare_input(&b, x.p, x.n);
    size_t before = pb::live(); T *o = (T *)1;
    Meter mt(d.size()); int e = load(&o, &b); mt.stop(); eval();
    if (peak_live > FIXED + PER_BYTE * (long long)d.size()) viol(fmt("heap:%s", kind), "%s: loading %zu bytes took %lld bytes of heap", what, d.size(), peak_live);
    if (nalloc > 64 + 4 * d.size()) viol(fmt("allocs:%s", kind), "%s: loading %zu bytes took %llu allocations", what, d.size(), nalloc);
    if (want != -2 && e != want) viol(fmt("%s-%s", kind, want ? "accepted" : "refused"), "%s: %s gave %d, expected %d: %s", what, kind, e, want, hex(d, 200).c_str());
    if (e && o) viol(fmt("%s-object-on-error", kind), "%s: an object with error %d", what, e);
    if (e) ev(fmt("%s_refused", kind)); else ev(fmt("%s_loaded", kind));
    if (!e && !o) { viol(fmt("%s-null", kind), "%s: success without an object", what); return; }
    if (!e) { if (want == 0) pb::same(o, *m, what); fr(o); }
    // a second load for leaks, after the model has grown what it grows
    { pb::Exact y(d); noise_protobuf_prepare_input(&b, y.p, y.n); size_t b0 = pb::live(); o = 0; e = load(&o, &b); if (!e) fr(o); if (pb::live() != b0) viol(fmt("%s-leak", kind), "%s: %zd bytes lost (error %d)", what, (ssize_t)(pb::live() - b0), e); ev("leak_checks"); }
    (void)before;
}
static int load_key(Noise_PrivateKey **k, NoiseProtobuf *b) { return noise_load_private_key_from_buffer(k, b, "secret", 6); }
static int judge_none(const Bytes &d, POb &) {
    pb::Dec dec{d}; Obj e(&Noise_EncryptedPrivateKey_d); size_t q = 0; bool ok = dec.msg(q, d.size(), e);
    if (ok && !dec.unjudged && e.v[0].n == 1 && e.v[1].has) return -3;   // would run PBKDF2
    return -2;
}
static void buffer_case(Rng &r) {
    std::string what; Bytes d = makedata(r, what); describe(what + " " + hex(d, 180)); sig(what + hex(d, 500)); sample(fmt("%s, %zu bytes: %s", what.c_str(), d.size(), hex(d, 24).c_str()));
    ev("data_" + what);
    load1<Noise_Certificate>(d, what.c_str(), "certificate", noise_load_certificate_from_buffer, Noise_Certificate_free, judge_cert);
    load1<Noise_CertificateChain>(d, what.c_str(), "chain", noise_load_certificate_chain_from_buffer, Noise_CertificateChain_free, judge_chain);
    POb n; if (judge_none(d, n) != -3) load1<Noise_PrivateKey>(d, what.c_str(), "key", load_key, Noise_PrivateKey_free, judge_none);
    // save what loads, and compare
    POb m; if (judge_chain(d, m) == 0) {
        pb::Exact x(d); NoiseProtobuf b; noise_protobuf_prepare_input(&b, x.p, x.n); Noise_CertificateChain *c = 0;
        if (!noise_load_certificate_chain_from_buffer(&c, &b)) {
            Bytes w; bool bad = false; pb::enc(w, *m, bad); Guard g(w.size() + r.below(9)); uint8_t *dp; size_t sz = 0; noise_protobuf_prepare_output(&b, g.p, g.n);
            int e = noise_save_certificate_chain_to_buffer(c, &b), e2 = noise_protobuf_finish_output(&b, &dp, &sz);
            if (e || e2 || sz != w.size() || (sz && memcmp(dp, w.data(), sz))) viol("save-chain", "saving a loaded chain: %d %d", e, e2);
            if (m->v[0].ms.size()) { Bytes w1; pb::enc(w1, *m->v[0].ms[0], bad); Guard g1(w1.size()); noise_protobuf_prepare_output(&b, g1.p, g1.n); e = noise_save_certificate_to_buffer(Noise_CertificateChain_get_at_certs(c, 0), &b); e2 = noise_protobuf_finish_output(&b, &dp, &sz);
                if (e || e2 || sz != w1.size() || (sz && memcmp(dp, w1.data(), sz))) viol("save-certificate", "saving a loaded certificate: %d %d", e, e2); }
            ev("saved_again"); Noise_CertificateChain_free(c);
        }
    }
    if (r.chance(1, 30)) {
        const int IP = NOISE_ERROR_INVALID_PARAM; NoiseProtobuf b; uint8_t z[4] = {0}; noise_protobuf_prepare_input(&b, z, 4); Noise_Certificate *c = (Noise_Certificate *)1; Noise_CertificateChain *h = (Noise_CertificateChain *)1;
        bool ok = noise_load_certificate_from_buffer(0, &b) == IP && noise_load_certificate_from_buffer(&c, 0) == IP && !c && noise_load_certificate_chain_from_buffer(0, &b) == IP && noise_load_certificate_chain_from_buffer(&h, 0) == IP && !h;
        ok = ok && noise_save_certificate_to_buffer(0, &b) == IP && noise_save_certificate_chain_to_buffer(0, &b) == IP && noise_load_certificate_from_file(&c, 0) == IP && noise_load_certificate_chain_from_file(&h, 0) == IP && noise_save_certificate_to_file(0, "/nonexistent/x") == IP && noise_save_certificate_chain_to_file(0, "/nonexistent/x") == IP;
        // an error already in the buffer is kept
        noise_protobuf_prepare_input(&b, z, 4); b.error = NOISE_ERROR_INVALID_STATE; c = (Noise_Certificate *)1; ok = ok && noise_load_certificate_from_buffer(&c, &b) == NOISE_ERROR_INVALID_STATE && !c;
        noise_protobuf_prepare_input(&b, z, 4); b.error = NOISE_ERROR_INVALID_STATE; ok = ok && noise_load_certificate_chain_from_buffer(&h, &b) == NOISE_ERROR_INVALID_STATE && !h;
        if (!ok) viol("null", "null or spoilt arguments not refused as documented"); ev("null_arguments_refused");
    }
}

// ---- files
#ifdef FAULTS
static int fault_op = -1, fault_after, fault_errno; static unsigned nops[8]; static bool fired; static long short_by;
enum { OP_OPEN, OP_READ, OP_WRITE, OP_CLOSE, OP_SEEK, OP_TELL };
static bool hit(int op) { int n = nops[op]++; if (op == fault_op && n == fault_after) { fired = true; errno = fault_errno; return true; } return false; }
extern "C" {
FILE *__real_fopen(const char *, const char *); size_t __real_fread(void *, size_t, size_t, FILE *); size_t __real_fwrite(const void *, size_t, size_t, FILE *); int __real_fclose(FILE *); int __real_fseek(FILE *, long, int); long __real_ftell(FILE *);
static bool mine; static FILE *opened;
FILE *__wrap_fopen(const char *n, const char *m) { if (mine && hit(OP_OPEN)) return 0; FILE *f = __real_fopen(n, m); if (mine && f) opened = f; return f; }
size_t __wrap_fread(void *p, size_t s, size_t n, FILE *f) {
    if (mine && f == opened && hit(OP_READ)) { size_t k = short_by < (long)n ? n - short_by : 0; if (k) k = __real_fread(p, s, k, f); f->_flags |= 0x20; errno = EIO; return k; }
    return __real_fread(p, s, n, f);
}
size_t __wrap_fwrite(const void *p, size_t s, size_t n, FILE *f) {
    if (mine && f == opened && hit(OP_WRITE)) { size_t k = short_by < (long)n ? n - short_by : 0; if (k) k = __real_fwrite(p, s, k, f); f->_flags |= 0x20; errno = ENOSPC; return k; }
    return __real_fwrite(p, s, n, f);
}
static int closes;
int __wrap_fclose(FILE *f) { if (mine && f == opened) { ++closes; opened = 0; int rc = __real_fclose(f); if (hit(OP_CLOSE)) { errno = ENOSPC; return EOF; } return rc; } return __real_fclose(f); }
int __wrap_fseek(FILE *f, long o, int w) { if (mine && f == opened && hit(OP_SEEK)) return -1; return __real_fseek(f, o, w); }
long __wrap_ftell(FILE *f) { if (mine && f == opened && hit(OP_TELL)) return -1; return __real_ftell(f); }
}
static std::string dir;
static void spit(const std::string &fn, const Bytes &d) { FILE *f = fopen(fn.c_str(), "wb"); if (!f || fwrite(d.data(), 1, d.size(), f) != d.size() || fclose(f)) die("scratch file"); }
static bool slurp(const std::string &fn, Bytes &d) { FILE *f = fopen(fn.c_str(), "rb"); d.clear(); if (!f) return false; int c; while ((c = fgetc(f)) != EOF) d.push_back(c); fclose(f); return true; }
static int nfds() { int n = 0; for (int i = 0; i < 64; ++i) if (fcntl(i, F_GETFD) >= 0) ++n; return n; }
struct Kind { const char *n; const pb::MsgD *d; int (*load)(void **, const char *); int (*save)(const void *, const char *); int (*judge)(const Bytes &, POb &); };
static int judge_pk(const Bytes &, POb &) { return -2; }
static const char *PWD = "pass phrase";
static Kind kinds[] = {
    {"certificate", &Noise_Certificate_d, [](void **o, const char *f) { return noise_load_certificate_from_file((Noise_Certificate **)o, f); }, [](const void *o, const char *f) { return noise_save_certificate_to_file((const Noise_Certificate *)o, f); }, judge_cert},
    {"chain", &Noise_CertificateChain_d, [](void **o, const char *f) { return noise_load_certificate_chain_from_file((Noise_CertificateChain **)o, f); }, [](const void *o, const char *f) { return noise_save_certificate_chain_to_file((const Noise_CertificateChain *)o, f); }, judge_chain},
    {"key", &Noise_PrivateKey_d, [](void **o, const char *f) { return noise_load_private_key_from_file((Noise_PrivateKey **)o, f, PWD, 11); }, [](const void *o, const char *f) { return noise_save_private_key_to_file((const Noise_PrivateKey *)o, f, PWD, 11, "ChaChaPoly_SHA256_PBKDF2"); }, judge_pk}};
static void nofault() { fault_op = -1; memset(nops, 0, sizeof nops); fired = false; closes = 0; opened = 0; }
static void wellbehaved(const char *what, int fds) {
    if (opened) viol(fmt("file-left-open:%s", what), "the file was left open (%s)", what);
    if (nfds() != fds) viol(fmt("descriptor-leak:%s", what), "%d descriptors before, %d after (%s)", fds, nfds(), what);
}
static void file_case(uint64_t i, Rng &r) {
    const Kind &k = kinds[i % 8 == 0 ? 2 : r.below(2)]; void *o = 0; POb m = randobj(r, k.d, 4 + r.below(40), &o); Bytes enc; bool bad = false; pb::enc(enc, *m, bad);
    std::string fn = dir + "/f"; int fds = nfds(); nofault(); sig(std::string(k.n) + hex(enc, 300)); sample(fmt("file with a %s of %zu bytes", k.n, enc.size()));
    describe(fmt("file %s %zu bytes", k.n, enc.size()));
    bool key = k.d == &Noise_PrivateKey_d;
    if (enc.empty() && !key) { k.d->fr(o); return; }        // an empty file is refused by loading
    // a clean save and load
    size_t live0 = pb::live();
    mine = true; int e = k.save(o, fn.c_str()); mine = false; wellbehaved("save", fds); eval();
    if (pb::live() != live0) viol(fmt("save-leak:%s", k.n), "%zd bytes lost by saving", (ssize_t)(pb::live() - live0));
    if (bad) { if (e != NOISE_ERROR_INVALID_FORMAT) viol("save-bad", "saving an invalid string gave %d", e); ev("bad_strings_refused"); unlink(fn.c_str()); k.d->fr(o); return; }
    Bytes file; if (e || !slurp(fn, file)) { viol(fmt("save:%s", k.n), "saving gave %d", e); k.d->fr(o); return; }
    if (!key && file != enc) viol(fmt("file-content:%s", k.n), "the file is not the encoding");
    ev("files_saved");
    unsigned writes = nops[OP_WRITE]; bool first = false; nofault();
    auto load = [&](void **res, const std::string &name) { size_t l0 = pb::live(); *res = 0; mine = true; int er = k.load(res, name.c_str()); mine = false; if (er && pb::live() != l0) viol(fmt("load-leak:%s", k.n), "%zd bytes lost by a failed load (%d)", (ssize_t)(pb::live() - l0), er); eval(); return er; };
    void *l; e = load(&l, fn); wellbehaved("load", fds); unsigned ops[8]; memcpy(ops, nops, sizeof ops);
    if (e || !l) viol(fmt("load:%s", k.n), "loading the saved file gave %d", e); else { pb::same(l, *m, "from file"); k.d->fr(l); ev("files_loaded"); }
    // faults while loading: each operation fails in turn
    for (int op = OP_OPEN; op <= OP_TELL; ++op) for (unsigned n = 0; n < ops[op] && n < 6; ++n) {
        if (op == OP_CLOSE) continue;                     // closing a file that was read tells nothing
        nofault(); fault_op = op; fault_after = n; fault_errno = op == OP_OPEN ? EACCES : EIO; short_by = op == OP_READ ? 1 + r.below(file.size() + 3) : 0; first = true;
        describe(fmt("load %s with failing operation %d #%u short %ld", k.n, op, n, short_by));
        e = load(&l, fn); wellbehaved("faulty load", fds); int f = fired; nofault();
        if (!f) continue;
        if (op == OP_SEEK && n == 0) { // cannot seek: the whole file is read all the same
            if (!e && l) pb::same(l, *m, "unseekable"); else viol(fmt("unseekable:%s", k.n), "a file that cannot be positioned: %d", e); ev("unseekable_loaded"); }
        else if (!e) viol(fmt("load-fault-ignored:%s:%d", k.n, op), "operation %d (#%u) failed while loading, but the load succeeded", op, n);
        else { if (op == OP_OPEN || op == OP_READ) if (e != NOISE_ERROR_SYSTEM) viol(fmt("load-fault-code:%d", op), "failed operation %d gave error %d", op, e); ev("load_faults_reported"); }
        if (!e && l) k.d->fr(l);
    }
    // faults while saving
    for (int op : {(int)OP_OPEN, (int)OP_WRITE, (int)OP_CLOSE}) for (unsigned n = 0; n < (op == OP_WRITE ? writes : 1) && n < 4; ++n) {
        if (key && op != (int)(i / 8 % 3)) continue;      // each key save takes 20000 iterations
        nofault(); fault_op = op; fault_after = n; fault_errno = op == OP_OPEN ? EACCES : ENOSPC; short_by = 1 + r.below(enc.size() + 1);
        std::string f2 = dir + "/g"; describe(fmt("save %s with failing operation %d #%u", k.n, op, n)); size_t l0 = pb::live();
        mine = true; e = k.save(o, f2.c_str()); mine = false; wellbehaved("faulty save", fds); int f = fired; nofault(); unlink(f2.c_str()); eval();
        if (pb::live() != l0) viol(fmt("save-leak:%s", k.n), "%zd bytes lost by a failed save", (ssize_t)(pb::live() - l0));
        if (f && e != NOISE_ERROR_SYSTEM) viol(fmt("save-fault-ignored:%s:%d", k.n, op), "operation %d failed while saving, but the result was %d", op, e); else if (f) ev("save_faults_reported");
    }
    if (!key) {
        // the system itself refuses
        mine = true; e = k.save(o, "/dev/full"); mine = false; wellbehaved("full", fds); if (e != NOISE_ERROR_SYSTEM) viol(fmt("full:%s", k.n), "saving to a full device gave %d", e); else ev("full_device_reported");
        mine = true; e = k.save(o, (dir + "/no/such").c_str()); mine = false; if (e != NOISE_ERROR_SYSTEM) viol(fmt("nodir:%s", k.n), "saving in no directory gave %d", e);
        mine = true; e = k.save(o, dir.c_str()); mine = false; if (e != NOISE_ERROR_SYSTEM) viol(fmt("isdir:%s", k.n), "saving over a directory gave %d", e);
        if (e = load(&l, dir + "/no/such"), e != NOISE_ERROR_SYSTEM) viol(fmt("nofile:%s", k.n), "loading no file gave %d", e);
        if (e = load(&l, dir), !e) viol(fmt("loaddir:%s", k.n), "loading a directory succeeded"); ev("missing_reported");
        // an overwritten file is replaced as a whole
        Bytes junk(r.below(70000), 0x42); spit(fn, junk); mine = true; e = k.save(o, fn.c_str()); mine = false; Bytes now; slurp(fn, now); if (e || now != enc) viol(fmt("overwrite:%s", k.n), "saving over a file of %zu bytes gave %d, %zu bytes", junk.size(), e, now.size()); else ev("overwrites");
        // sizes
        spit(fn, Bytes()); if (e = load(&l, fn), e != NOISE_ERROR_INVALID_FORMAT) viol("emptyfile", "an empty file gave %d", e);
        for (size_t sz : {65534, 65535, 65536, 65537, 70000, 131072}) if (r.chance(1, 2)) {
            // an object followed by an unknown field that fills the file
            Bytes d; Bytes u; putv(u, (4711ULL << 3) | 2); size_t body = 0, fill = sz - u.size() - 3; Bytes t; putv(t, fill); Bytes base;
            if (k.d == &Noise_CertificateChain_d) { base = {0x42, 0x00}; }
            fill = sz - base.size() - u.size() - 3; (void)body; d = base; d.insert(d.end(), u.begin(), u.end()); d.push_back((fill & 127) | 128); d.push_back((fill >> 7 & 127) | 128); d.push_back(fill >> 14); d.resize(sz, 'x');
            if (fill >> 14 > 127) die("size"); spit(fn, d); e = load(&l, fn); bool fits = sz <= 65535;
            if (fits ? e != 0 : e != NOISE_ERROR_INVALID_FORMAT) viol(fmt("filesize:%s:%d", k.n, fits), "a file of %zu bytes gave %d", sz, e); if (!e && l) k.d->fr(l); ev(fits ? "longest_files" : "overlong_files_refused");
        }
        // hostile files load as the same data in a buffer does
        for (int j = 0; j < 3; ++j) { std::string what; Bytes d = makedata(r, what); if (d.empty() || d.size() > 65535) continue; spit(fn, d); POb w; int want = k.judge(d, w); describe(fmt("hostile file %s %s", what.c_str(), hex(d, 150).c_str())); e = load(&l, fn); wellbehaved("hostile", fds);
            if (want != -2 && e != want) viol(fmt("file-%s:%s", want ? "accepted" : "refused", k.n), "%s in a file gave %d, expected %d", what.c_str(), e, want); if (!e && l) { if (want == 0) pb::same(l, *w, "hostile file"); k.d->fr(l); } ev("hostile_files"); }
        // too long to save
        if (r.chance(1, 20) && k.d == &Noise_Certificate_d) { Noise_SubjectInfo *s = 0; Noise_Certificate *c; Noise_Certificate_new(&c); Noise_Certificate_get_new_subject(c, &s); size_t n = 65535 - 8 + (size_t)r.below(30) - 15; Bytes nm(n, 'n'); Noise_SubjectInfo_set_name(s, (char *)nm.data(), n);
            size_t total = n + 4 + 4; mine = true; e = k.save(c, fn.c_str()); mine = false; if (total <= 65535 ? e != 0 : e != NOISE_ERROR_INVALID_LENGTH) viol("save-too-long", "a certificate of %zu bytes gave %d", total, e); Noise_Certificate_free(c); ev("size_limits_on_saving"); }
    }
    // a pipe, delivered in pieces
    if (r.chance(1, 6) && !key) {
        std::string pf = dir + "/p"; if (mkfifo(pf.c_str(), 0600)) die("mkfifo");
        std::thread w([&] { FILE *f = fopen(pf.c_str(), "wb"); if (!f) return; setvbuf(f, 0, _IONBF, 0); size_t at = 0; while (at < enc.size()) { size_t n = std::min<size_t>(enc.size() - at, 1 + enc.size() / 3); fwrite(&enc[at], 1, n, f); at += n; } fclose(f); });
        e = load(&l, pf); w.join(); unlink(pf.c_str());
        if (e || !l) viol(fmt("pipe:%s", k.n), "loading from a pipe gave %d", e); else { pb::same(l, *m, "from a pipe"); k.d->fr(l); ev("pipes_loaded"); }
    }
    unlink(fn.c_str()); k.d->fr(o);
}
#endif
int main(int argc, char **argv) {
    describe_all(); noise_init();
    __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
#ifdef FAULTS
    char t[] = "/tmp/c25XXXXXX"; if (!mkdtemp(t)) die("mkdtemp"); dir = t;
    int rc = run(argc, argv, [](uint64_t i, Rng &r) { file_case(i, r); }, 120);
    std::string cmd = dir + "/p"; unlink(cmd.c_str()); for (const char *n : {"/f", "/g"}) unlink((dir + n).c_str()); rmdir(dir.c_str());
    return rc;
#else
    return run(argc, argv, [](uint64_t, Rng &r) { buffer_case(r); });
#endif
}
