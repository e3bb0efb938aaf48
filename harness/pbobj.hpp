// Generic model and driver for the object APIs that noise-protoc generates.
#ifndef PBOBJ_HPP
#define PBOBJ_HPP
#include "vh.hpp"
#include <noise/protobufs.h>
#include <memory>
#if defined(__clang__)
#include <sanitizer/allocator_interface.h>
#define LIVE_BYTES() __sanitizer_get_current_allocated_bytes()
#else   // under Valgrind the heap is not metered
#define LIVE_BYTES() ((size_t)0)
static inline size_t __sanitizer_get_allocated_size(const volatile void *) { return 0; }
static inline int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *)) { return 1; }
#endif

namespace pb {
using namespace vh;
enum Kind { INT32, UINT32, INT64, UINT64, SINT32, SINT64, SFIXED32, FIXED32, SFIXED64, FIXED64, FLOAT, DOUBLE,
            BOOL, STRING, BYTES, MSG };
enum Qual { OPT, REQ, REP, PACKED };
static int wire(int k) {
    switch (k) {
    case SFIXED32: case FIXED32: case FLOAT: return 5;
    case SFIXED64: case FIXED64: case DOUBLE: return 1;
    case STRING: case BYTES: case MSG: return 2;
    default: return 0;
    }
}
struct MsgD;
struct FieldD {
    const char *name; int tag; int kind; int qual; const MsgD *sub;
    int (*clear)(void *); int (*has)(const void *);
    uint64_t (*get)(const void *); int (*set)(void *, uint64_t);
    const void *(*gets)(const void *); size_t (*getsz)(const void *); int (*sets)(void *, const void *, size_t);
    size_t (*count)(const void *);
    uint64_t (*get_at)(const void *, size_t); int (*add)(void *, uint64_t);
    const void *(*gets_at)(const void *, size_t); size_t (*getsz_at)(const void *, size_t); int (*adds)(void *, const void *, size_t);
    void *(*getm)(const void *); int (*newm)(void *, void **);
    void *(*getm_at)(const void *, size_t); int (*addm)(void *, void **); int (*insm)(void *, size_t, void *);
    bool multi() const { return qual == REP || qual == PACKED; }
};
struct MsgD {
    const char *name;
    int (*mk)(void **); int (*fr)(void *); int (*wr)(NoiseProtobuf *, int, const void *); int (*rd)(NoiseProtobuf *, int, void **);
    std::vector<FieldD> f;
};
template <class T> inline uint64_t bits(T v) { uint64_t u = 0; if (sizeof(T) == 4) { uint32_t x; memcpy(&x, &v, 4); u = x; } else memcpy(&u, &v, 8); return u; }
template <class T> inline T unbits(uint64_t u) { T v; if (sizeof(T) == 4) { uint32_t x = (uint32_t)u; memcpy(&v, &x, 4); } else memcpy(&v, &u, 8); return v; }

#define PB_NUM(M, T, F, TAG, KIND, QUAL) { auto &x = (M##_d); pb::FieldD d = pb::FieldD(); d.name = #M "." #F; d.tag = TAG; d.kind = KIND; d.qual = QUAL; \
    d.clear = [](void *o) { return M##_clear_##F((M *)o); }; d.has = [](const void *o) { return M##_has_##F((const M *)o); }; \
    d.get = [](const void *o) { return pb::bits<T>(M##_get_##F((const M *)o)); }; d.set = [](void *o, uint64_t v) { return M##_set_##F((M *)o, pb::unbits<T>(v)); }; x.f.push_back(d); }
#define PB_NUMS(M, T, F, TAG, KIND, QUAL) { auto &x = (M##_d); pb::FieldD d = pb::FieldD(); d.name = #M "." #F; d.tag = TAG; d.kind = KIND; d.qual = QUAL; \
    d.clear = [](void *o) { return M##_clear_##F((M *)o); }; d.has = [](const void *o) { return M##_has_##F((const M *)o); }; \
    d.count = [](const void *o) { return M##_count_##F((const M *)o); }; d.get_at = [](const void *o, size_t i) { return pb::bits<T>(M##_get_at_##F((const M *)o, i)); }; \
    d.add = [](void *o, uint64_t v) { return M##_add_##F((M *)o, pb::unbits<T>(v)); }; x.f.push_back(d); }
#define PB_STR(M, C, F, TAG, KIND, QUAL) { auto &x = (M##_d); pb::FieldD d = pb::FieldD(); d.name = #M "." #F; d.tag = TAG; d.kind = KIND; d.qual = QUAL; \
    d.clear = [](void *o) { return M##_clear_##F((M *)o); }; d.has = [](const void *o) { return M##_has_##F((const M *)o); }; \
    d.gets = [](const void *o) { return (const void *)M##_get_##F((const M *)o); }; d.getsz = [](const void *o) { return M##_get_size_##F((const M *)o); }; \
    d.sets = [](void *o, const void *v, size_t n) { return M##_set_##F((M *)o, (const C *)v, n); }; x.f.push_back(d); }
#define PB_STRS(M, C, F, TAG, KIND, QUAL) { auto &x = (M##_d); pb::FieldD d = pb::FieldD(); d.name = #M "." #F; d.tag = TAG; d.kind = KIND; d.qual = QUAL; \
    d.clear = [](void *o) { return M##_clear_##F((M *)o); }; d.has = [](const void *o) { return M##_has_##F((const M *)o); }; \
    d.count = [](const void *o) { return M##_count_##F((const M *)o); }; d.gets_at = [](const void *o, size_t i) { return (const void *)M##_get_at_##F((const M *)o, i); }; \
    d.getsz_at = [](const void *o, size_t i) { return M##_get_size_at_##F((const M *)o, i); }; d.adds = [](void *o, const void *v, size_t n) { return M##_add_##F((M *)o, (const C *)v, n); }; x.f.push_back(d); }
#define PB_MSG(M, S, F, TAG, QUAL) { auto &x = (M##_d); pb::FieldD d = pb::FieldD(); d.name = #M "." #F; d.tag = TAG; d.kind = pb::MSG; d.qual = QUAL; d.sub = &S##_d; \
    d.clear = [](void *o) { return M##_clear_##F((M *)o); }; d.has = [](const void *o) { return M##_has_##F((const M *)o); }; \
    d.getm = [](const void *o) { return (void *)M##_get_##F((const M *)o); }; d.newm = [](void *o, void **v) { return M##_get_new_##F((M *)o, (S **)v); }; x.f.push_back(d); }
#define PB_MSGS(M, S, F, TAG, QUAL) { auto &x = (M##_d); pb::FieldD d = pb::FieldD(); d.name = #M "." #F; d.tag = TAG; d.kind = pb::MSG; d.qual = QUAL; d.sub = &S##_d; \
    d.clear = [](void *o) { return M##_clear_##F((M *)o); }; d.has = [](const void *o) { return M##_has_##F((const M *)o); }; \
    d.count = [](const void *o) { return M##_count_##F((const M *)o); }; d.getm_at = [](const void *o, size_t i) { return (void *)M##_get_at_##F((const M *)o, i); }; \
    d.addm = [](void *o, void **v) { return M##_add_##F((M *)o, (S **)v); }; d.insm = [](void *o, size_t i, void *v) { return M##_insert_##F((M *)o, i, (S *)v); }; x.f.push_back(d); }
#define PB_DECL(M) static pb::MsgD M##_d;
#define PB_BEGIN(M) { M##_d.name = #M; M##_d.mk = [](void **o) { return M##_new((M **)o); }; M##_d.fr = [](void *o) { return M##_free((M *)o); }; \
    M##_d.wr = [](NoiseProtobuf *p, int t, const void *o) { return M##_write(p, t, (const M *)o); }; M##_d.rd = [](NoiseProtobuf *p, int t, void **o) { return M##_read(p, t, (M **)o); }; all.push_back(&M##_d); }

struct Obj;
typedef std::shared_ptr<Obj> POb;
struct Val { uint64_t n = 0; bool has = false; Bytes b; POb m; std::vector<uint64_t> ns; std::vector<Bytes> bs; std::vector<POb> ms; };
struct Obj { const MsgD *d; std::vector<Val> v; explicit Obj(const MsgD *d_) : d(d_), v(d_->f.size()) {} };

static bool utf8ok(const uint8_t *p, size_t n) {
    auto in = [&](size_t i, int lo, int hi) { return i < n && p[i] >= lo && p[i] <= hi; };
    auto c = [&](size_t i) { return in(i, 0x80, 0xbf); };
    size_t i = 0;
    while (i < n) {
        if (in(i, 1, 0x7f)) i += 1;
        else if (in(i, 0xc2, 0xdf) && c(i + 1)) i += 2;
        else if (((in(i, 0xe0, 0xe0) && in(i + 1, 0xa0, 0xbf)) || (in(i, 0xed, 0xed) && in(i + 1, 0x80, 0x9f)) ||
                  ((in(i, 0xe1, 0xec) || in(i, 0xee, 0xef)) && c(i + 1))) && c(i + 2)) i += 3;
        else if (((in(i, 0xf0, 0xf0) && in(i + 1, 0x90, 0xbf)) || (in(i, 0xf4, 0xf4) && in(i + 1, 0x80, 0x8f)) ||
                  (in(i, 0xf1, 0xf3) && c(i + 1))) && c(i + 2) && c(i + 3)) i += 4;
        else return false;
    }
    return true;
}
static void putv(Bytes &o, uint64_t v) { do { uint8_t c = v & 0x7f; v >>= 7; o.push_back(c | (v ? 0x80 : 0)); } while (v); }
static void putnum(Bytes &o, int k, uint64_t v) {
    switch (k) {
    case INT32: putv(o, (uint64_t)(int64_t)(int32_t)v); break;
    case UINT32: putv(o, (uint32_t)v); break;
    case SINT32: { int64_t n = (int32_t)v; putv(o, n >= 0 ? (uint64_t)n * 2 : (uint64_t)(-n) * 2 - 1); break; }
    case SINT64: { int64_t n = (int64_t)v; putv(o, n >= 0 ? (uint64_t)n * 2 : (~(uint64_t)n) * 2 + 1); break; }
    case BOOL: o.push_back((uint32_t)v ? 1 : 0); break;
    case SFIXED32: case FIXED32: case FLOAT: for (int i = 0; i < 4; ++i) o.push_back(v >> (8 * i)); break;
    case SFIXED64: case FIXED64: case DOUBLE: for (int i = 0; i < 8; ++i) o.push_back(v >> (8 * i)); break;
    default: putv(o, v); break;
    }
}
static uint64_t norm(int k, uint64_t v) {
    switch (k) {
    case INT32: case SINT32: case SFIXED32: case UINT32: case FIXED32: case FLOAT: return (uint32_t)v;
    case BOOL: return v ? 1 : 0;
    default: return v;
    }
}
static bool nonzero(int k, uint64_t v) {
    if (k == FLOAT) return unbits<float>(v) != 0;
    if (k == DOUBLE) return unbits<double>(v) != 0;
    return v != 0;
}
static void tagw(Bytes &o, const FieldD &f, int w) { putv(o, ((uint64_t)f.tag << 3) | w); }
static bool bad8(const FieldD &f, const Bytes &b) { return f.kind == STRING && !utf8ok(b.data(), b.size()); }
// Encodes; sets bad when a string is not UTF-8.
static void enc(Bytes &o, const Obj &m, bool &bad) {
    for (size_t i = 0; i < m.d->f.size(); ++i) {
        const FieldD &f = m.d->f[i]; const Val &v = m.v[i];
        if (f.kind == MSG) {
            auto one = [&](const Obj &s) { Bytes t; enc(t, s, bad); tagw(o, f, 2); putv(o, t.size()); o.insert(o.end(), t.begin(), t.end()); };
            if (f.multi()) for (auto &s : v.ms) one(*s);
            else if (v.m) one(*v.m);
            else if (f.qual == REQ) { tagw(o, f, 2); o.push_back(0); }
        } else if (f.kind == STRING || f.kind == BYTES) {
            auto one = [&](const Bytes &b) { if (bad8(f, b)) bad = true; tagw(o, f, 2); putv(o, b.size()); o.insert(o.end(), b.begin(), b.end()); };
            if (f.multi()) for (auto &b : v.bs) one(b);
            else if (v.has || f.qual == REQ) one(v.b);
        } else if (f.qual == PACKED) {
            Bytes t; for (uint64_t n : v.ns) putnum(t, f.kind, n);
            tagw(o, f, 2); putv(o, t.size()); o.insert(o.end(), t.begin(), t.end());
        } else if (f.qual == REP) for (uint64_t n : v.ns) { tagw(o, f, wire(f.kind)); putnum(o, f.kind, n); }
        else if (f.qual == REQ || f.kind == FLOAT || f.kind == DOUBLE || norm(f.kind, v.n)) { tagw(o, f, wire(f.kind)); putnum(o, f.kind, v.n); }
    }
}
// Decodes [pos, end) of d; returns false on malformed data; unjudged is set where
// the format leaves the meaning open.
struct Dec {
    const Bytes &d; bool unjudged = false;
    bool varint(size_t &q, uint64_t &v) { v = 0; for (int i = 0; i < 10; ++i) { if (q >= d.size()) return false; uint8_t c = d[q++]; v |= (uint64_t)(c & 127) << (7 * i); if (!(c & 128)) return true; } return false; }
    bool num(size_t &q, int k, uint64_t &v) {
        if (wire(k) == 0) {
            if (!varint(q, v)) return false;
            if (k == SINT32) { if (v >> 32) unjudged = true; v = (uint32_t)((v >> 1) ^ (0 - (v & 1))); }
            else if (k == SINT64) v = (v >> 1) ^ (0 - (v & 1));
            else v = norm(k, v);
            return true;
        }
        size_t n = wire(k) == 1 ? 8 : 4; if (d.size() - q < n) return false;
        v = 0; for (size_t i = 0; i < n; ++i) v |= (uint64_t)d[q + i] << (8 * i); q += n; return true;
    }
    bool msg(size_t &q, size_t end, Obj &m) {
        while (q < end) {
            size_t q0 = q; uint64_t t, v; if (!varint(q, t)) return false;
            uint64_t tag = t >> 3; int w = t & 7; size_t fi = 0;
            if (!tag || tag > 536870911) unjudged = true;
            for (; fi < m.d->f.size(); ++fi) if ((uint64_t)m.d->f[fi].tag == tag) break;
            (void)q0;
            if (fi == m.d->f.size()) {
                switch (w) {
                case 0: if (!varint(q, v)) return false; break;
                case 1: if (d.size() - q < 8) return false; q += 8; break;
                case 2: if (!varint(q, v) || v > d.size() - q) return false; q += v; break;
                case 5: if (d.size() - q < 4) return false; q += 4; break;
                default: return false;
                }
                continue;
            }
            const FieldD &f = m.d->f[fi]; Val &x = m.v[fi];
            if (w != (f.qual == PACKED ? 2 : wire(f.kind))) return false;
            if (w == 2) {
                if (!varint(q, v) || v > d.size() - q) return false;
                size_t e = q + v;
                if (f.kind == MSG) {
                    if (!f.multi() && x.m) unjudged = true;        // merge or replace
                    POb s(new Obj(f.sub)); if (!msg(q, e, *s)) return false;
                    if (f.multi()) x.ms.push_back(s); else x.m = s;
                } else if (f.kind == STRING || f.kind == BYTES) {
                    Bytes b(d.begin() + q, d.begin() + e); if (bad8(f, b)) return false;
                    if (f.multi()) x.bs.push_back(b); else { x.b = b; x.has = true; }
                    q = e;
                } else { while (q < e) { if (!num(q, f.kind, v)) return false; x.ns.push_back(v); } if (q != e) return false; }
            } else { if (!num(q, f.kind, v)) return false; if (f.multi()) x.ns.push_back(v); else x.n = v; }
        }
        return q == end;
    }
};

static uint64_t rndval(Rng &r) {
    switch (r.below(6)) {
    case 0: return 0;
    case 1: return r.below(4);
    case 2: { int b = r.below(64); return (1ULL << b) + (int64_t)r.below(3) - 1; }
    case 3: { int b = r.below(64); return 0 - ((1ULL << b) + (int64_t)r.below(3) - 1); }
    default: return r.next() >> r.below(64);
    }
}
static Bytes rndbytes(Rng &r, int kind) {
    size_t n = r.chance(1, 6) ? 0 : r.chance(1, 10) ? 100 + r.below(200) : r.below(24);
    if (kind == BYTES) return r.bytes(n);
    Bytes b; static const char *multi[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x94\x91", "\xef\xbf\xbd", "\xed\x9f\xbf"};
    while (b.size() < n) { if (r.chance(1, 8)) { const char *m = multi[r.below(5)]; b.insert(b.end(), m, m + strlen(m)); } else b.push_back(0x20 + r.below(0x5f)); }
    if (r.chance(1, 60) && n) b[r.below(n)] = r.chance(1, 2) ? 0 : 0x80 + r.below(0x80);
    return b;
}
// Exact-size copy, so that reading past the end shows.
struct Exact { uint8_t *p; size_t n; explicit Exact(const Bytes &b) : n(b.size()) { p = (uint8_t *)malloc(n ? n : 1); if (n) memcpy(p, b.data(), n); } ~Exact() { free(p); } };

static void expect(bool ok, const FieldD &f, const char *op, const std::string &more) { if (!ok) viol(std::string(op) + ":" + f.name, "%s %s: %s", op, f.name, more.c_str()); }

static void same(const void *o, const Obj &m, const char *when) {
    for (size_t i = 0; i < m.d->f.size(); ++i) {
        const FieldD &f = m.d->f[i]; const Val &v = m.v[i]; eval();
        auto bsame = [&](const void *p, size_t n, const Bytes &b) { return p && n == b.size() && (!n || !memcmp(p, b.data(), n)) && (f.kind != STRING || ((const char *)p)[n] == 0); };
        if (f.multi()) {
            size_t n = f.kind == MSG ? v.ms.size() : f.kind == STRING || f.kind == BYTES ? v.bs.size() : v.ns.size();
            expect(f.count(o) == n, f, "count", fmt("%zu want %zu %s", f.count(o), n, when));
            expect(!f.has(o) == !n, f, "has", when);
            if (f.count(o) != n) continue;
            for (size_t j = 0; j <= n + 1; ++j) {
                bool past = j >= n;
                if (f.kind == MSG) { void *s = f.getm_at(o, j); if (past) expect(!s, f, "get_at", "object past the end"); else if (!s) expect(false, f, "get_at", fmt("NULL at %zu %s", j, when)); else same(s, *v.ms[j], when); }
                else if (f.kind == STRING || f.kind == BYTES) { const void *p = f.gets_at(o, j); size_t z = f.getsz_at(o, j); expect(past ? !p && !z : bsame(p, z, v.bs[j]), f, "get_at", fmt("entry %zu of %zu %s", j, n, when)); }
                else { uint64_t x = f.get_at(o, j); expect(x == (past ? 0 : v.ns[j]), f, "get_at", fmt("entry %zu: %llx want %llx %s", j, (unsigned long long)x, (unsigned long long)(past ? 0 : v.ns[j]), when)); }
            }
        } else if (f.kind == MSG) {
            void *s = f.getm(o); expect(!s == !v.m, f, "get", fmt("%p %s", s, when)); expect(!f.has(o) == !v.m, f, "has", when);
            if (s && v.m) same(s, *v.m, when);
        } else if (f.kind == STRING || f.kind == BYTES) {
            const void *p = f.gets(o); size_t n = f.getsz(o);
            expect(v.has ? bsame(p, n, v.b) : !p && !n, f, "get", fmt("size %zu want %zu %s", n, v.b.size(), when));
            expect(!f.has(o) == !v.has, f, "has", when);
        } else {
            expect(f.get(o) == v.n, f, "get", fmt("%llx want %llx %s", (unsigned long long)f.get(o), (unsigned long long)v.n, when));
            expect(!f.has(o) == !(f.qual == REQ || nonzero(f.kind, v.n)), f, "has", when);
        }
    }
}
static size_t live() { return LIVE_BYTES(); }
static void nullargs(const MsgD *d) {
    const int IP = NOISE_ERROR_INVALID_PARAM; NoiseProtobuf p; uint8_t b[8]; noise_protobuf_prepare_output(&p, b, 8); void *o = (void *)1;
    bool ok = d->mk(0) == IP && d->fr(0) == IP && d->wr(&p, 0, 0) == IP && d->rd(&p, 0, 0) == IP && d->rd(0, 0, &o) == IP && !o;
    for (auto &f : d->f) {
        ok = ok && f.clear(0) == IP && !f.has(0);
        if (f.count) ok = ok && !f.count(0);
        if (f.get) ok = ok && !f.get(0) && f.set(0, 1) == IP;
        if (f.gets) ok = ok && !f.gets(0) && !f.getsz(0) && f.sets(0, "x", 1) == IP;
        if (f.get_at) ok = ok && !f.get_at(0, 0) && f.add(0, 1) == IP;
        if (f.gets_at) ok = ok && !f.gets_at(0, 0) && !f.getsz_at(0, 0) && f.adds(0, "x", 1) == IP;
        if (f.getm) { o = (void *)1; ok = ok && !f.getm(0) && f.newm(0, &o) == IP && !o; }
        if (f.getm_at) { o = (void *)1; ok = ok && !f.getm_at(0, 0) && f.addm(0, &o) == IP && !o && f.insm(0, 0, &b) == IP; }
        if (!ok) { viol(std::string("null:") + f.name, "null arguments not refused in %s", f.name); return; }
    }
    void *x = 0; if (d->mk(&x)) { viol("new", "new failed"); return; }
    for (auto &f : d->f) {
        if (f.getm_at) ok = ok && f.insm(x, 0, 0) == IP && f.addm(x, 0) == IP;
        if (f.newm) ok = ok && f.newm(x, 0) == IP;
        if (f.sets) ok = ok && f.sets(x, "abc", 3) == 0 && f.sets(x, 0, 5) == IP && f.getsz(x) == 3 && f.gets(x) && !memcmp(f.gets(x), "abc", 3) && f.sets(x, 0, 0) == 0 && !f.getsz(x) && f.has(x);
        if (f.adds) ok = ok && f.adds(x, "abc", 3) == 0 && f.adds(x, 0, 5) == IP && f.count(x) == 1 && f.adds(x, 0, 0) == 0 && f.count(x) == 2;
    }
    ok = ok && d->wr(0, 0, x) == IP;
    if (!ok) viol(std::string("null:") + d->name, "null arguments not refused in %s", d->name);
    d->fr(x); ev("null_arguments_refused");
}
// One random operation on the object and its model.
static void mutate(Rng &r, void *o, Obj &m, int depth) {
    size_t i = r.below(m.d->f.size()); const FieldD &f = m.d->f[i]; Val &v = m.v[i]; int e = 0;
    if (r.chance(1, 10)) { e = f.clear(o); expect(!e, f, "clear", fmt("error %d", e)); v = Val(); ev("cleared"); if (r.chance(1, 4)) f.clear(o); return; }
    if (f.kind == MSG) {
        if (!f.multi()) {
            if (!v.m || r.chance(1, 6)) { void *s = 0; e = f.newm(o, &s); expect(!e && s && s == f.getm(o), f, "get_new", fmt("error %d", e)); v.m.reset(new Obj(f.sub)); ev("objects_added"); }
            if (depth < 4) for (int k = r.below(5); k > 0; --k) mutate(r, f.getm(o), *v.m, depth + 1);
        } else {
            if (v.ms.size() < 90 && (v.ms.empty() || r.chance(2, 3))) {
                POb s(new Obj(f.sub)); void *so = 0; size_t at = v.ms.size();
                if (r.chance(1, 2)) { e = f.addm(o, &so); }
                else { at = r.below(v.ms.size() + 2); e = f.sub->mk(&so); if (!e) e = f.insm(o, at, so); }
                expect(!e && so, f, "add", fmt("error %d", e));
                v.ms.insert(v.ms.begin() + std::min(at, v.ms.size()), s); ev("objects_added");
            }
            size_t j = r.below(v.ms.size());
            if (f.getm_at(o, j) && depth < 4) for (int k = r.below(4); k > 0; --k) mutate(r, f.getm_at(o, j), *v.ms[j], depth + 1);
        }
    } else if (f.kind == STRING || f.kind == BYTES) {
        Bytes b = rndbytes(r, f.kind); Exact x(b);
        const uint8_t *own = 0; if (r.chance(1, 6)) own = (const uint8_t *)(f.multi() ? (v.bs.size() ? f.gets_at(o, v.bs.size() / 2) : 0) : v.has ? f.gets(o) : 0);
        if (own) {        // a part of what the object holds already
            Bytes h = f.multi() ? v.bs[v.bs.size() / 2] : v.b; size_t at = r.below(h.size() + 1), n = r.below(h.size() - at + 1); b.assign(h.begin() + at, h.begin() + at + n);
            if (f.multi()) { e = f.adds(o, own + at, n); v.bs.push_back(b); } else { e = f.sets(o, own + at, n); v.b = b; }
            ev("own_contents_set");
        } else if (f.multi()) { e = f.adds(o, x.p, x.n); v.bs.push_back(b); } else { e = f.sets(o, x.p, x.n); v.b = b; v.has = true; }
        expect(!e, f, "set", fmt("error %d", e)); ev("values_set");
    } else {
        uint64_t n = norm(f.kind, rndval(r));
        if (f.multi()) { int k = r.chance(1, 8) ? 1 + r.below(80) : 1; while (k--) { n = norm(f.kind, rndval(r)); e = f.add(o, n); v.ns.push_back(n); expect(!e, f, "add", fmt("error %d", e)); } }
        else { e = f.set(o, n); v.n = n; expect(!e, f, "set", fmt("error %d", e)); }
        ev("values_set");
    }
}
// Every allocation an object makes in a life of setting, replacing and clearing is gone when it is freed.
static void lifetime(const MsgD *d) {
    size_t before = live(); void *o = 0; if (d->mk(&o)) { viol("new", "new failed"); return; }
    static const char t[] = "some text";
    for (int round = 0; round < 3; ++round) for (auto &f : d->f) {
        for (int k = 0; k < 3; ++k) {
            void *s = 0;
            if (f.kind == MSG) {
                if (f.newm) f.newm(o, &s);
                else { f.addm(o, &s); void *x = 0; if (!f.sub->mk(&x) && f.insm(o, 0, x)) f.sub->fr(x); }
                for (auto &g : f.sub->f) if (s && g.sets) { g.sets(s, t, 4 + k); break; }
            } else if (f.sets) f.sets(o, t, k * 4);
            else if (f.adds) f.adds(o, t, k * 4);
            else if (f.add) f.add(o, k);
        }
        if (round == 1) f.clear(o);
    }
    d->fr(o);
    if (live() != before) viol(std::string("life-leak:") + d->name, "%zd bytes not released by free", (ssize_t)(live() - before));
    ev("lifetimes");
}
static POb normread(const Obj &m);
// What a written object reads back as: required unset values become present and empty.
static POb normread(const Obj &m) {
    POb o(new Obj(m.d));
    for (size_t i = 0; i < m.d->f.size(); ++i) {
        const FieldD &f = m.d->f[i]; const Val &v = m.v[i]; Val &x = o->v[i]; x = v;
        if (f.kind == MSG) { x.ms.clear(); x.m.reset(); for (auto &s : v.ms) x.ms.push_back(normread(*s)); if (v.m) x.m = normread(*v.m); else if (f.qual == REQ && !f.multi()) x.m = normread(Obj(f.sub)); }
        else if ((f.kind == STRING || f.kind == BYTES) && f.qual == REQ) x.has = true;
    }
    return o;
}

static void readback(Rng &r, const MsgD *d, const Bytes &wirev, int tag, const Obj *want, bool ok, bool unjudged, const char *when) {
    Exact x(wirev); NoiseProtobuf p; noise_protobuf_prepare_input(&p, x.p, x.n);
    size_t before = live(); void *o = (void *)1;
    int e = d->rd(&p, tag, &o);
    if (e) {
        if (o) viol(std::string("read-object-on-error:") + d->name, "%s: error %d but an object", when, e);
        if (p.error != e) viol("read-error-kept", "%s: returned %d, protobuf has %d", when, e, p.error);
        if (live() != before) viol(std::string("read-leak-on-error:") + d->name, "%s: %zu bytes leaked after error", when, live() - before);
        ev("malformed_rejected");
    } else ev("objects_read");
    eval();
    if (!unjudged && (e == 0) != ok) viol(std::string(ok ? "read-refused:" : "read-accepted:") + d->name, "%s: error %d reading %s", when, e, hex(wirev, 120).c_str());
    if (!unjudged && e && e != NOISE_ERROR_INVALID_FORMAT) viol("read-error", "%s: error %d", when, e);
    if (!e) {
        if (!o) { viol("read-null", "%s: success without an object", when); return; }
        if (!unjudged && ok && want) same(o, *want, when);
        if (!unjudged && ok && noise_protobuf_finish_input(&p)) viol("read-rest", "%s: data left after reading", when);
        size_t mid = live();
        d->fr(o);
        // everything that reading allocated has to be gone (same() may have recorded something)
        if (live() > before && mid - before == live() - before) viol("free-nothing", "free released nothing");
    }
}
static void leakcheck(const MsgD *d, const Bytes &w, int tag) {
    Exact x(w); NoiseProtobuf p; noise_protobuf_prepare_input(&p, x.p, x.n);
    size_t before = live(); void *o = 0; int e = d->rd(&p, tag, &o);
    if (!e) d->fr(o);
    if (live() != before) viol(std::string("read-leak:") + d->name, "%zd bytes not released by free", (ssize_t)(live() - before));
    ev("leak_checks");
}
static void damage(Rng &r, Bytes &d) {
    int m = 1 + r.below(3);
    while (m-- && d.size()) switch (r.below(8)) {
    case 0: d[r.below(d.size())] ^= 1 << r.below(8); break;
    case 1: d.resize(r.below(d.size() + 1)); break;
    case 2: { size_t at = r.below(d.size() + 1); Bytes x; putv(x, rndval(r)); d.insert(d.begin() + at, x.begin(), x.end()); break; }
    case 3: { Bytes x(r.below(12), r.chance(1, 2) ? 0xff : 0x80); size_t at = r.below(d.size() + 1); d.insert(d.begin() + at, x.begin(), x.end()); break; }
    case 4: d[r.below(d.size())] = r.next(); break;
    case 5: { size_t a = r.below(d.size()), n = r.below(d.size() - a) + 1; d.erase(d.begin() + a, d.begin() + a + n); break; }
    case 6: { size_t a = r.below(d.size()), n = r.below(d.size() - a) + 1; Bytes c(d.begin() + a, d.begin() + a + n); d.insert(d.begin() + r.below(d.size() + 1), c.begin(), c.end()); break; }
    default: d[r.below(std::min<size_t>(d.size(), 8))] += r.below(3) - 1; break;
    }
    if (d.size() > 6000) d.resize(6000);
}
static Bytes framed(const Bytes &b, int tag) { if (!tag) return b; Bytes o; putv(o, ((uint64_t)tag << 3) | 2); putv(o, b.size()); o.insert(o.end(), b.begin(), b.end()); return o; }

static void session(uint64_t, Rng &r, const std::vector<const MsgD *> &all) {
    const MsgD *d = all[r.below(all.size())];
    describe(std::string("object ") + d->name);
    size_t live0 = live(); (void)live0;
    void *o = 0; int e = d->mk(&o); if (e || !o) { viol("new", "new gave %d", e); return; }
    Obj m(d); std::string sg = d->name;
    int n = r.below(40);
    for (int i = 0; i < n; ++i) { mutate(r, o, m, 0); if (r.chance(1, 8)) same(o, m, "after an operation"); }
    same(o, m, "after the operations");
    bool bad = false; Bytes w; enc(w, m, bad); sg += hex(w, 400); sig(sg); sample(std::string(d->name) + " " + hex(w, 60));
    int tag = r.chance(1, 2) ? 0 : 1 + r.below(r.chance(1, 2) ? 15 : 5000);
    Bytes fw = framed(w, tag);
    // write: measured, exact, short
    NoiseProtobuf p; size_t sz = 0; uint8_t *dp;
    noise_protobuf_prepare_measure(&p, 1 << 24); d->wr(&p, tag, o); e = noise_protobuf_finish_measure(&p, &sz);
    if (bad ? e != NOISE_ERROR_INVALID_FORMAT : e || sz != fw.size()) viol(std::string("measure:") + d->name, "error %d size %zu want %zu bad %d", e, sz, fw.size(), bad);
    { Guard g(fw.size(), 0xA5); noise_protobuf_prepare_output(&p, g.p, g.n); e = d->wr(&p, tag, o); int e2 = noise_protobuf_finish_output(&p, &dp, &sz);
      if (bad) { if (!e || !e2) viol(std::string("write-bad-utf8:") + d->name, "invalid UTF-8 written (%d, %d)", e, e2); ev("bad_strings_refused"); }
      else if (e || e2 || sz != fw.size() || (sz && memcmp(dp, fw.data(), sz))) viol(std::string("write:") + d->name, "errors %d %d: got %s want %s", e, e2, hex(dp, sz, 200).c_str(), hex(fw, 200).c_str());
      else ev("objects_written");
      if (!g.intact()) viol("write-overrun", "wrote outside the buffer"); }
    if (!bad && fw.size()) { Guard g(r.below(fw.size()), 0xA5); noise_protobuf_prepare_output(&p, g.p, g.n); e = d->wr(&p, tag, o); int e2 = noise_protobuf_finish_output(&p, &dp, &sz);
      if (e2 != NOISE_ERROR_INVALID_LENGTH || dp || sz || !e) viol("write-short", "room %zu of %zu: %d %d", g.n, fw.size(), e, e2); ev("short_buffers_refused"); }
    same(o, m, "after writing");
    if (!bad) { POb nr = normread(m); readback(r, d, fw, tag, nr.get(), true, false, "round trip"); leakcheck(d, fw, tag); ev("roundtrips"); }
    e = d->fr(o); if (e) viol("free", "free gave %d", e);
    // hostile variants of the encoding
    for (int k = 0; k < 6; ++k) {
        Bytes h(w); if (r.chance(1, 5)) { Bytes u; putv(u, ((16 + r.below(5000)) << 3) | 2); Bytes c = r.bytes(r.below(20)); putv(u, c.size()); u.insert(u.end(), c.begin(), c.end()); h.insert(h.begin(), u.begin(), u.end()); h.insert(h.end(), u.begin(), u.end()); ev("unknown_fields"); }
        else damage(r, h);
        int ht = r.chance(2, 3) ? 0 : 1 + r.below(40); Bytes fh = framed(h, ht);
        describe(std::string("hostile ") + d->name + " " + hex(fh, 180));
        bool ok, unj;
        { Dec dec{fh}; Obj hm(d); size_t q = 0, end = fh.size(); ok = true; uint64_t v;
          if (ht) { ok = dec.varint(q, v) && v == (((uint64_t)ht << 3) | 2) && dec.varint(q, v) && v <= fh.size() - q; end = q + v; }
          ok = ok && dec.msg(q, end, hm); unj = dec.unjudged;
          readback(r, d, fh, ht, &hm, ok, unj, "damaged data"); }
        leakcheck(d, fh, ht);
    }
    if (r.chance(1, 20)) { nullargs(d); lifetime(d); }
}
} // namespace pb
#endif
