#include <sys/mman.h>
#include <unistd.h>
//   --mode names  C16: names <-> identifiers
//   --mode utils  C28: error strings, fingerprints, comparisons, wiping
#include "oracle.hpp"
extern "C" {
#include <noise/protocol.h>
}
struct E { int id; const char *n; };
static const std::vector<E> CIPH = {{NOISE_CIPHER_CHACHAPOLY, "ChaChaPoly"}, {NOISE_CIPHER_AESGCM, "AESGCM"}};
static const std::vector<E> HASH = {{NOISE_HASH_BLAKE2s, "BLAKE2s"}, {NOISE_HASH_BLAKE2b, "BLAKE2b"}, {NOISE_HASH_SHA256, "SHA256"}, {NOISE_HASH_SHA512, "SHA512"}};
static const std::vector<E> DHS = {{NOISE_DH_CURVE25519, "25519"}, {NOISE_DH_CURVE448, "448"}, {NOISE_DH_NEWHOPE, "NewHope"}};
static const std::vector<E> PRE = {{NOISE_PREFIX_STANDARD, "Noise"}, {NOISE_PREFIX_PSK, "NoisePSK"}};
static const std::vector<E> SGN = {{NOISE_SIGN_ED25519, "Ed25519"}};
#define P(x, y) {NOISE_PATTERN_##x, y}
static const std::vector<E> PAT = {P(N, "N"), P(X, "X"), P(K, "K"), P(NN, "NN"), P(NK, "NK"), P(NX, "NX"), P(XN, "XN"), P(XK, "XK"), P(XX, "XX"), P(KN, "KN"), P(KK, "KK"), P(KX, "KX"), P(IN, "IN"), P(IK, "IK"), P(IX, "IX"), P(XX_FALLBACK, "XXfallback"),
    P(X_NOIDH, "Xnoidh"), P(NX_NOIDH, "NXnoidh"), P(XX_NOIDH, "XXnoidh"), P(KX_NOIDH, "KXnoidh"), P(IK_NOIDH, "IKnoidh"), P(IX_NOIDH, "IXnoidh"),
    P(NN_HFS, "NNhfs"), P(NK_HFS, "NKhfs"), P(NX_HFS, "NXhfs"), P(XN_HFS, "XNhfs"), P(XK_HFS, "XKhfs"), P(XX_HFS, "XXhfs"), P(KN_HFS, "KNhfs"), P(KK_HFS, "KKhfs"), P(KX_HFS, "KXhfs"), P(IN_HFS, "INhfs"), P(IK_HFS, "IKhfs"), P(IX_HFS, "IXhfs"),
    P(XX_FALLBACK_HFS, "XXfallback+hfs"), P(NX_NOIDH_HFS, "NXnoidh+hfs"), P(XX_NOIDH_HFS, "XXnoidh+hfs"), P(KX_NOIDH_HFS, "KXnoidh+hfs"), P(IK_NOIDH_HFS, "IKnoidh+hfs"), P(IX_NOIDH_HFS, "IXnoidh+hfs")};
struct Cat { int id; const std::vector<E> *v; };
static const Cat CATS[] = {{NOISE_CIPHER_CATEGORY, &CIPH}, {NOISE_HASH_CATEGORY, &HASH}, {NOISE_DH_CATEGORY, &DHS}, {NOISE_PATTERN_CATEGORY, &PAT}, {NOISE_PREFIX_CATEGORY, &PRE}, {NOISE_SIGN_CATEGORY, &SGN}};
static int lookup(int cat, const std::string &s) { for (auto &c : CATS) if (!cat || c.id == cat) for (auto &e : *c.v) if (s == e.n) return e.id; return 0; }
static const char *reverse(int cat, int id) { for (auto &c : CATS) if (!cat || c.id == cat) for (auto &e : *c.v) if (id == e.id) return e.n; return 0; }
// reference parser: Prefix_Pattern_DH[+Hybrid]_Cipher_Hash
static bool parse(const std::string &s, NoiseProtocolId &id) {
    memset(&id, 0, sizeof id); std::vector<std::string> f(1); for (char c : s) if (c == '_') f.push_back(""); else f.back() += c;
    if (f.size() != 5) return false;
    size_t plus = f[2].find('+'); std::string d = f[2].substr(0, plus);
    id.prefix_id = lookup(NOISE_PREFIX_CATEGORY, f[0]); id.pattern_id = lookup(NOISE_PATTERN_CATEGORY, f[1]); id.dh_id = lookup(NOISE_DH_CATEGORY, d); id.cipher_id = lookup(NOISE_CIPHER_CATEGORY, f[3]); id.hash_id = lookup(NOISE_HASH_CATEGORY, f[4]);
    if (plus != std::string::npos && !(id.hybrid_id = lookup(NOISE_DH_CATEGORY, f[2].substr(plus + 1)))) return false;
    return id.prefix_id && id.pattern_id && id.dh_id && id.cipher_id && id.hash_id;
}
struct Exact { uint8_t *p; size_t n; Exact(size_t n_, const void *d = 0) : n(n_) { p = (uint8_t *)malloc(n ? n : 1); if (d && n) memcpy(p, d, n); else memset(p, 0xA5, n ? n : 1); } ~Exact() { free(p); } Exact(const Exact &) = delete; };
static std::string mutate(std::string s, vh::Rng &r) {
    static const char al[] = "_+NoisePSKXfallbackhfsABCGMHwep0123456789 \0\xff";
    for (int k = r.range(1, 2); k--;) switch (r.below(8)) {
        case 0: if (!s.empty()) s.erase(r.below(s.size()), 1); break;
        case 1: s.insert(s.begin() + r.below(s.size() + 1), al[r.below(sizeof al)]); break;
        case 2: if (!s.empty()) s[r.below(s.size())] = al[r.below(sizeof al)]; break;
        case 3: if (!s.empty()) s[r.below(s.size())] ^= 0x20; break;
        case 4: s += r.pick(std::vector<std::string>{"_", "+", "_SHA256", "+hfs", "x", " ", "+NewHope", std::string(1, 0)}); break;
        case 5: s.resize(r.below(s.size() + 1)); break;
        case 6: { size_t a = s.find('_'); if (a != std::string::npos) { if (r.chance(1, 2)) s.erase(0, a + 1); else s.insert(a, "_"); } break; }
        default: { std::vector<std::string> parts; parts.push_back(""); for (char c : s) if (c == '_') parts.push_back(""); else parts.back() += c;
            std::swap(parts[r.below(parts.size())], parts[r.below(parts.size())]); s = ""; for (auto &p : parts) s += (s.empty() ? "" : "_") + p; } }
    return s;
}
static bool same(const NoiseProtocolId &a, const NoiseProtocolId &b) { return !memcmp(&a, &b, sizeof a); }

static void check_name(const std::string &s) {
    Exact b(s.size(), s.data()); NoiseProtocolId id, w; memset(&id, 0xA5, sizeof id); bool ok = parse(s, w); int e = noise_protocol_name_to_id(&id, (char *)b.p, b.n);
    if (ok) { if (e || !same(id, w)) vh::viol("parse", "'%s' gave %x or other ids", s.c_str(), e); vh::ev("names_parsed"); }
    else { if (e != NOISE_ERROR_UNKNOWN_NAME) vh::viol("parse-bad", "'%s' gave %x", s.c_str(), e); NoiseProtocolId z; memset(&z, 0, sizeof z); if (!same(id, z)) vh::viol("parse-bad-id", "a rejected name left ids behind"); vh::ev("names_rejected"); }
}
static void names(uint64_t i, vh::Rng &r) {
    if (i < 200) { // exhaustive slices: every protocol name, every capacity
        uint64_t k = 0;
        for (auto &pr : PRE) for (auto &pa : PAT) for (auto &d : DHS) for (int h = 0; h < 4; ++h) for (auto &c : CIPH) for (auto &ha : HASH) {
            if (k++ % 200 != i) continue;
            NoiseProtocolId id; memset(&id, 0, sizeof id); id.prefix_id = pr.id; id.pattern_id = pa.id; id.dh_id = d.id; id.hybrid_id = h ? DHS[h - 1].id : 0; id.cipher_id = c.id; id.hash_id = ha.id;
            std::string s = std::string(pr.n) + "_" + pa.n + "_" + d.n + (h ? std::string("+") + DHS[h - 1].n : "") + "_" + c.n + "_" + ha.n; check_name(s);
            for (size_t cap = (k % 7 == 0 ? 0 : s.size() > 3 ? s.size() - 2 : 0); cap <= s.size() + 3; ++cap) {
                Exact o(cap); int e = noise_protocol_id_to_name((char *)o.p, cap, &id);
                if (cap > s.size() ? (e || strcmp((char *)o.p, s.c_str())) : e != NOISE_ERROR_INVALID_LENGTH || (cap && o.p[0])) vh::viol("format", "'%s' into %zu bytes gave %x '%s'", s.c_str(), cap, e, cap ? std::string((char *)o.p, strnlen((char *)o.p, cap)).c_str() : "");
                vh::ev("names_formatted");
            }
            vh::eval(); vh::sig(s);
        }
        return;
    }
    // mutated names
    for (int k = 0; k < 60; ++k) {
        int h = r.below(4); std::string s = std::string(r.pick(PRE).n) + "_" + r.pick(PAT).n + "_" + r.pick(DHS).n + (h ? std::string("+") + DHS[h - 1].n : "") + "_" + r.pick(CIPH).n + "_" + r.pick(HASH).n;
        if (r.chance(7, 8)) s = mutate(s, r); else if (r.chance(1, 4)) { Bytes b = r.bytes(r.below(80)); s.assign(b.begin(), b.end()); }
        vh::describe(s); check_name(s);
        // single names and ids
        auto &c = CATS[r.below(6)]; int cat = r.chance(1, 4) ? 0 : r.chance(1, 6) ? CATS[r.below(6)].id : c.id; std::string n = r.pick(*c.v).n; if (r.chance(1, 2)) n = mutate(n, r);
        Exact b(n.size(), n.data()); int want = lookup(cat, n), got = noise_name_to_id(cat, (char *)b.p, b.n); if (got != want) vh::viol("name-to-id", "name '%s' in category %x gave %x, want %x", n.c_str(), cat, got, want);
        int id = r.chance(1, 2) ? r.pick(*c.v).id : r.chance(1, 3) ? (int)r.next() : c.id + (int)r.below(60) - 2; const char *wn = reverse(cat, id), *gn = noise_id_to_name(cat, id);
        if ((!wn) != (!gn) || (wn && strcmp(wn, gn))) vh::viol("id-to-name", "id %x in category %x gave '%s', want '%s'", id, cat, gn ? gn : "(null)", wn ? wn : "(null)");
        vh::ev(want ? "single_names_found" : "single_names_refused"); vh::ev(wn ? "ids_found" : "ids_refused");
        // formatting with one bad field
        NoiseProtocolId p; memset(&p, 0, sizeof p); p.prefix_id = r.pick(PRE).id; p.pattern_id = r.pick(PAT).id; p.dh_id = r.pick(DHS).id; p.cipher_id = r.pick(CIPH).id; p.hash_id = r.pick(HASH).id;
        int *f[] = {&p.prefix_id, &p.pattern_id, &p.dh_id, &p.cipher_id, &p.hash_id, &p.hybrid_id}; int which = r.below(7);
        if (which < 6) { auto &oc = CATS[r.below(6)]; int bad = r.chance(1, 2) ? r.pick(*oc.v).id : (int)r.next(); *f[which] = bad; } else p.reserved[r.below(sizeof p.reserved / sizeof p.reserved[0])] = r.range(1, 5);
        auto in = [&](int c, int id) { return reverse(c, id) != 0; };
        bool good = which < 6 && in(NOISE_PREFIX_CATEGORY, p.prefix_id) && in(NOISE_PATTERN_CATEGORY, p.pattern_id) && in(NOISE_DH_CATEGORY, p.dh_id) && in(NOISE_CIPHER_CATEGORY, p.cipher_id) && in(NOISE_HASH_CATEGORY, p.hash_id) && (!p.hybrid_id || in(NOISE_DH_CATEGORY, p.hybrid_id));
        Exact o(NOISE_MAX_PROTOCOL_NAME); int e = noise_protocol_id_to_name((char *)o.p, o.n, &p);
        if (good) { NoiseProtocolId q; if (e || noise_protocol_name_to_id(&q, (char *)o.p, strlen((char *)o.p)) || !same(p, q)) vh::viol("roundtrip", "ids do not survive formatting and parsing (%x)", e); vh::ev("roundtrips"); }
        else { if (e != NOISE_ERROR_UNKNOWN_ID || o.p[0]) vh::viol("format-bad", "bad ids (field %d = %x) gave %x", which, which < 6 ? *f[which] : 0, e); vh::ev("bad_ids_refused"); }
        vh::eval(); vh::sig(s + n + std::to_string(id));
    }
    if (noise_protocol_name_to_id(0, "x", 1) != NOISE_ERROR_INVALID_PARAM || noise_name_to_id(0, 0, 3) != 0 || noise_protocol_id_to_name(0, 9, 0) != NOISE_ERROR_INVALID_PARAM) vh::viol("null-args", "null arguments accepted");
    { char b[8] = "abcdefg"; NoiseProtocolId q; memset(&q, 0, sizeof q);
      if (noise_protocol_id_to_name(b, 8, 0) != NOISE_ERROR_INVALID_PARAM || b[0] || b[1] != 'b' || noise_protocol_id_to_name(b + 1, 0, 0) != NOISE_ERROR_INVALID_PARAM || b[1] != 'b' || noise_protocol_id_to_name(0, 9, &q) != NOISE_ERROR_INVALID_PARAM || noise_protocol_id_to_name(b + 1, 0, &q) != NOISE_ERROR_INVALID_LENGTH || b[1] != 'b') vh::viol("null-args", "null or empty buffers not refused as documented"); }
    if (vh::ctx().cur % 100 == 0) vh::sample(vh::ctx().desc);
}
static std::string fp(const Bytes &pub, size_t n) { Bytes h = oracle::hash(oracle::SHA256, pub); std::string s; for (size_t i = 0; i < n; ++i) { char b[4]; snprintf(b, 4, "%02x", h[i]); if (i) s += ":"; s += b; } return s; }
static void utils(uint64_t, vh::Rng &r) {
    static const E ERR[] = {{NOISE_ERROR_NONE, "No error"}, {NOISE_ERROR_NO_MEMORY, "Out of memory"}, {NOISE_ERROR_UNKNOWN_ID, "Unknown identifier"}, {NOISE_ERROR_UNKNOWN_NAME, "Unknown name"}, {NOISE_ERROR_MAC_FAILURE, "MAC failure"}, {NOISE_ERROR_NOT_APPLICABLE, "Not applicable"}, {NOISE_ERROR_SYSTEM, "System error"}, {NOISE_ERROR_REMOTE_KEY_REQUIRED, "Remote public key required"}, {NOISE_ERROR_LOCAL_KEY_REQUIRED, "Local keypair required"}, {NOISE_ERROR_PSK_REQUIRED, "Pre shared key required"}, {NOISE_ERROR_INVALID_LENGTH, "Invalid length"}, {NOISE_ERROR_INVALID_PARAM, "Invalid parameter"}, {NOISE_ERROR_INVALID_STATE, "Invalid state"}, {NOISE_ERROR_INVALID_NONCE, "Invalid nonce"}, {NOISE_ERROR_INVALID_PRIVATE_KEY, "Invalid private key"}, {NOISE_ERROR_INVALID_PUBLIC_KEY, "Invalid public key"}, {NOISE_ERROR_INVALID_FORMAT, "Invalid format"}, {NOISE_ERROR_INVALID_SIGNATURE, "Invalid signature"}};
    for (int k = 0; k < 40; ++k) {
        int code; std::string want; if (r.chance(2, 3)) { auto &e = ERR[r.below(18)]; code = e.id; want = e.n; } else { code = r.chance(1, 2) ? NOISE_ID('E', 0) + (int)r.below(40) : r.chance(1, 2) ? (int)r.below(5) - 2 : (int)r.next(); want = vh::fmt("Unknown error 0x%x", code); for (auto &e : ERR) if (e.id == code) want = e.n; }
        size_t cap = r.chance(1, 2) ? r.below(40) : want.size() + r.below(4) - (want.size() ? 1 : 0); Exact o(cap); int e = noise_strerror(code, (char *)o.p, cap);
        if (!cap ? e != -1 : e || std::string((char *)o.p, strnlen((char *)o.p, cap)) != want.substr(0, cap - 1) || strnlen((char *)o.p, cap) >= cap) vh::viol("strerror", "code %x into %zu bytes gave %d", code, cap, e);
        if (noise_strerror(code, 0, 10) != -1) vh::viol("strerror-null", "strerror with a null buffer");
        vh::ev("error_strings"); vh::eval(); vh::sig(vh::fmt("%x/%zu", code, cap));
        // fingerprints at every capacity
        Bytes pub = r.bytes(r.chance(1, 2) ? 32 : r.chance(1, 4) ? r.below(3000) : r.below(200)); Exact pb(pub.size(), pub.data()); size_t n = r.chance(1, 2) ? 16 : 32; int type = n == 16 ? NOISE_FINGERPRINT_BASIC : NOISE_FINGERPRINT_FULL; if (r.chance(1, 8)) { type = r.next(); if (type == NOISE_FINGERPRINT_BASIC || type == NOISE_FINGERPRINT_FULL) type = 0; n = 0; }
        size_t fc = r.chance(1, 2) ? r.below(110) : 3 * n + r.below(3) - (n ? 1 : 0); Exact f(fc); e = noise_format_fingerprint(type, (char *)f.p, fc, pb.p, pb.n);
        int we = !fc ? NOISE_ERROR_INVALID_LENGTH : !n ? NOISE_ERROR_INVALID_PARAM : fc < 3 * n ? NOISE_ERROR_INVALID_LENGTH : 0;
        if (e != we || (fc && std::string((char *)f.p, strnlen((char *)f.p, fc)) != (we ? "" : fp(pub, n)))) vh::viol("fingerprint", "type %x of %zu bytes into %zu gave %x", type, pub.size(), fc, e);
        vh::ev(we ? "fingerprints_refused" : "fingerprints");
        // comparisons: every single differing bit matters
        size_t l = r.below(70); Bytes a = r.bytes(l), b = a; bool eq = r.chance(1, 2) || !l; if (!eq) { for (int q = r.range(1, 3); q--;) b[r.below(l)] ^= 1 << r.below(8); eq = a == b; }
        Exact x(l, a.data()), y(l, b.data()); if (noise_is_equal(x.p, y.p, l) != (eq ? 1 : 0)) vh::viol("is-equal", "comparison of %zu bytes gave %d, equal=%d", l, noise_is_equal(x.p, y.p, l), eq);
        Bytes z(l, 0); bool zero = r.chance(1, 2) || !l; if (!zero) z[r.below(l)] = 1 << r.below(8); Exact zz(l, z.data()); if (noise_is_zero(zz.p, l) != (zero ? 1 : 0)) vh::viol("is-zero", "zero test of %zu bytes gave %d", l, noise_is_zero(zz.p, l));
        Exact c(l, a.data()); noise_clean(c.p, l); for (size_t q = 0; q < l; ++q) if (c.p[q]) { vh::viol("clean", "noise_clean left a byte"); break; }
        vh::ev("comparisons");
    }
    {   // noise_perror: context, description and newline on stderr
        auto &e = ERR[r.below(18)]; int code = e.id; std::string want = e.n; if (r.chance(1, 3)) { code = r.chance(1, 2) ? NOISE_ID('E', 100 + (int)r.below(99)) : (int)r.next(); want = vh::fmt("Unknown error 0x%x", code); for (auto &q : ERR) if (q.id == code) want = q.n; }
        std::string ctx; bool null = r.chance(1, 6); for (int q = r.below(r.chance(1, 5) ? 400 : 20); q--;) ctx += (char)(r.chance(1, 8) ? '%' : 0x20 + r.below(95));
        fflush(stderr); int mfd = memfd_create("perror", 0), old = dup(2); if (mfd < 0 || old < 0 || dup2(mfd, 2) < 0) vh::die("memfd");
        noise_perror(null ? 0 : ctx.c_str(), code); fflush(stderr); dup2(old, 2); close(old);
        char buf[1024]; ssize_t got = pread(mfd, buf, sizeof buf, 0); close(mfd);
        if (got < 0 || std::string(buf, got) != (null ? "(null)" : ctx) + ": " + want + "\n") vh::viol("perror", "code %x printed '%.*s'", code, (int)got, buf);
        vh::ev("perror_lines"); vh::eval();
    }
    if (r.chance(1, 10)) {
        uint8_t k[32] = {1}; char b[200]; memset(b, 'x', sizeof b);
        if (noise_init() != NOISE_ERROR_NONE) vh::viol("init", "noise_init fails when called again");
        if (noise_format_fingerprint(NOISE_FINGERPRINT_FULL, 0, 200, k, 32) != NOISE_ERROR_INVALID_PARAM || noise_format_fingerprint(NOISE_FINGERPRINT_FULL, b, 0, k, 32) != NOISE_ERROR_INVALID_LENGTH || b[0] != 'x' ||
            noise_format_fingerprint(NOISE_FINGERPRINT_FULL, b, 200, 0, 32) != NOISE_ERROR_INVALID_PARAM || b[0]) vh::viol("fingerprint-null", "null arguments to noise_format_fingerprint not refused as documented");
        vh::ev("null_arguments_refused");
    }
    if (vh::ctx().cur % 300 == 0) vh::sample("strerror/fingerprint/is_equal");
}
int main(int argc, char **argv) {
    std::string m; for (int i = 1; i + 1 < argc; ++i) if (!strcmp(argv[i], "--mode")) m = argv[i + 1];
    return vh::run(argc, argv, [&](uint64_t i, vh::Rng &r) { if (m == "utils") utils(i, r); else names(i, r); });
}
