// C08: coverage-guided hostile input for everything that parses files and names.
#include "certdesc.hpp"
#include <noise/keys/loader.h>
#include <noise/protocol.h>
using namespace vh;
static uint64_t n_cert, n_chain, n_key, n_name, n_refused, n_skip, n_total;
// this thread's live heap only: libFuzzer has a thread of its own
static thread_local long long mylive; static thread_local bool inside;
static void on_malloc(const volatile void *p, size_t n) { if (inside) mylive += n; }
static void on_free(const volatile void *p) { if (inside && p) mylive -= __sanitizer_get_allocated_size(p); }
static long long live() { return mylive; }
static void report() { fprintf(stderr, "\nEVENTS {\"certificates_loaded\":%llu,\"chains_loaded\":%llu,\"keys_tried\":%llu,\"names_parsed\":%llu,\"refused\":%llu,\"fields_skipped\":%llu,\"inputs\":%llu}\n",
    (unsigned long long)n_cert, (unsigned long long)n_chain, (unsigned long long)n_key, (unsigned long long)n_name, (unsigned long long)n_refused, (unsigned long long)n_skip, (unsigned long long)n_total); }
[[noreturn]] static void bad(const char *m) { fprintf(stderr, "ORACLE: %s\n", m); fflush(stderr); abort(); }
template <class T> static Bytes again(const T *o, int (*save)(const T *, NoiseProtobuf *)) {
    NoiseProtobuf b; size_t sz = 0; uint8_t *dp; noise_protobuf_prepare_measure(&b, 1 << 24); if (save(o, &b) || noise_protobuf_finish_measure(&b, &sz)) bad("measuring a loaded object failed");
    Bytes w(sz + 1); noise_protobuf_prepare_output(&b, w.data(), sz); size_t s2; if (save(o, &b) || noise_protobuf_finish_output(&b, &dp, &s2) || s2 != sz) bad("saving a loaded object failed");
    return Bytes(dp, dp + s2);
}
template <class T> static void loader(const Bytes &d, int (*load)(T **, NoiseProtobuf *), int (*fr)(T *), int (*save)(const T *, NoiseProtobuf *), uint64_t &n) {
    pb::Exact x(d); NoiseProtobuf b; noise_protobuf_prepare_input(&b, x.p, x.n); long long l0 = live(); T *o = (T *)1; int e = load(&o, &b);
    if (e) { if (o) bad("object with an error"); ++n_refused; }
    else { ++n; if (!o) bad("no object"); { Bytes w = again(o, save); fr(o); if (w.size()) { pb::Exact y(w); noise_protobuf_prepare_input(&b, y.p, y.n); if (load(&o, &b)) bad("a saved object does not load"); Bytes w2 = again(o, save); fr(o); if (w != w2) bad("saving twice differs"); } } }
    if (live() != l0) bad("memory lost");
}
extern "C" int LLVMFuzzerInitialize(int *, char ***) { describe_all(); noise_init(); __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free); atexit(report); return 0; }
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    if (!size) return 0;
    ++n_total; inside = true; mylive = 0;
    struct Leave { ~Leave() { inside = false; } } leave;
    Bytes d(data + 1, data + size);
    switch (data[0] % 6) {
    case 0: loader<Noise_Certificate>(d, noise_load_certificate_from_buffer, Noise_Certificate_free, noise_save_certificate_to_buffer, n_cert); break;
    case 1: loader<Noise_CertificateChain>(d, noise_load_certificate_chain_from_buffer, Noise_CertificateChain_free, noise_save_certificate_chain_to_buffer, n_chain); break;
    case 2: {
        pb::Dec dec{d}; pb::Obj e(&Noise_EncryptedPrivateKey_d); size_t q = 0; if (dec.msg(q, d.size(), e) && e.v[3].n > 16) return 0;
        pb::Exact x(d); NoiseProtobuf b; noise_protobuf_prepare_input(&b, x.p, x.n); Noise_PrivateKey *k = (Noise_PrivateKey *)1; long long l0 = live(); ++n_key;
        int er = noise_load_private_key_from_buffer(&k, &b, "pw", 2); if (er ? k != 0 : !k) bad("key and error disagree"); if (!er) Noise_PrivateKey_free(k); if (live() != l0) bad("memory lost"); break; }
    case 3: {
        pb::Exact x(d); NoiseProtocolId id; int e = noise_protocol_name_to_id(&id, (const char *)x.p, x.n);
        if (!e) { ++n_name; char nm[256]; if (noise_protocol_id_to_name(nm, sizeof nm, &id) || strlen(nm) != d.size() || memcmp(nm, d.data(), d.size())) bad("name does not round-trip"); } else ++n_refused;
        for (int c = 0; c < 9; ++c) noise_name_to_id(c << 8, (const char *)x.p, x.n); break; }
    case 4: {
        pb::Exact x(d); NoiseProtobuf b; noise_protobuf_prepare_input(&b, x.p, x.n); int n = 0; while (!noise_protobuf_read_at_end_element(&b, x.n) && !b.error) { size_t at = b.posn; int t = noise_protobuf_peek_tag(&b); (void)t; noise_protobuf_peek_size(&b); if (b.posn != at && !b.error) bad("peeking moved"); if (noise_protobuf_read_skip(&b)) break; if (b.posn <= at) bad("skipping did not move"); ++n; if (b.posn > x.n) bad("position past the end"); }
        n_skip += n; break; }
    default: {
        // every generated reader
        const pb::MsgD *m = all[data[0] / 6 % all.size()]; pb::Exact x(d); NoiseProtobuf b; noise_protobuf_prepare_input(&b, x.p, x.n); long long l0 = live(); void *o = 0; int e = m->rd(&b, 0, &o); if (!e) m->fr(o); else ++n_refused; if (live() != l0) bad("memory lost"); }
    }
    return 0;
}
