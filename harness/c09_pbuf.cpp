// C09: the protobuf wire codec against an independent encoder, decoder and UTF-8 table.
#include "vh.hpp"
#include <noise/protobufs.h>
using namespace vh;

enum Kind { INT32, UINT32, INT64, UINT64, SINT32, SINT64, SFIXED32, FIXED32, SFIXED64, FIXED64, FLOAT, DOUBLE,
            BOOL, STRING, BYTES, ELEM, NKINDS };
static const char *kname[] = {"int32","uint32","int64","uint64","sint32","sint64","sfixed32","fixed32","sfixed64",
                              "fixed64","float","double","bool","string","bytes","element"};
static int wire(Kind k) {
    switch (k) {
    case SFIXED32: case FIXED32: case FLOAT: return 5;
    case SFIXED64: case FIXED64: case DOUBLE: return 1;
    case STRING: case BYTES: case ELEM: return 2;
    default: return 0;
    }
}
struct Field { Kind k; int tag; uint64_t v; Bytes b; std::vector<Field> sub; };

// ------------------------------------------------------------- oracle encoder
static void putv(Bytes &o, uint64_t v) { do { uint8_t c = v & 0x7f; v >>= 7; o.push_back(c | (v ? 0x80 : 0)); } while (v); }
static void put(Bytes &o, const std::vector<Field> &fs);
static void put1(Bytes &o, const Field &f) {
    if (f.tag) putv(o, ((uint64_t)f.tag << 3) | wire(f.k));
    Bytes t;
    switch (f.k) {
    case INT32: putv(o, (uint64_t)(int64_t)(int32_t)f.v); break;
    case UINT32: putv(o, (uint32_t)f.v); break;
    case INT64: case UINT64: putv(o, f.v); break;
    case SINT32: { int64_t n = (int32_t)f.v; putv(o, n >= 0 ? (uint64_t)n * 2 : (uint64_t)(-n) * 2 - 1); break; }
    case SINT64: { int64_t n = (int64_t)f.v; putv(o, n >= 0 ? (uint64_t)n * 2 : (~(uint64_t)n) * 2 + 1); break; }
    case BOOL: o.push_back(f.v ? 1 : 0); break;
    case SFIXED32: case FIXED32: case FLOAT: for (int i = 0; i < 4; ++i) o.push_back(f.v >> (8 * i)); break;
    case SFIXED64: case FIXED64: case DOUBLE: for (int i = 0; i < 8; ++i) o.push_back(f.v >> (8 * i)); break;
    case STRING: case BYTES: putv(o, f.b.size()); o.insert(o.end(), f.b.begin(), f.b.end()); break;
    case ELEM: put(t, f.sub); if (f.tag) putv(o, t.size()); o.insert(o.end(), t.begin(), t.end()); break;
    default: break;
    }
}
static void put(Bytes &o, const std::vector<Field> &fs) { for (auto &f : fs) put1(o, f); }

// RFC 3629 section 4, plus the documented ban on NUL.
static bool utf8ok(const uint8_t *p, size_t n) {
    auto in = [&](size_t i, int lo, int hi) { return i < n && p[i] >= lo && p[i] <= hi; };
    size_t i = 0;
    while (i < n) {
        if (in(i, 0x01, 0x7f)) i += 1;
        else if (in(i, 0xc2, 0xdf) && in(i + 1, 0x80, 0xbf)) i += 2;
        else if (in(i, 0xe0, 0xe0) && in(i + 1, 0xa0, 0xbf) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (in(i, 0xe1, 0xec) && in(i + 1, 0x80, 0xbf) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (in(i, 0xed, 0xed) && in(i + 1, 0x80, 0x9f) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (in(i, 0xee, 0xef) && in(i + 1, 0x80, 0xbf) && in(i + 2, 0x80, 0xbf)) i += 3;
        else if (in(i, 0xf0, 0xf0) && in(i + 1, 0x90, 0xbf) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else if (in(i, 0xf1, 0xf3) && in(i + 1, 0x80, 0xbf) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else if (in(i, 0xf4, 0xf4) && in(i + 1, 0x80, 0x8f) && in(i + 2, 0x80, 0xbf) && in(i + 3, 0x80, 0xbf)) i += 4;
        else return false;
    }
    return true;
}
static void putcp(Bytes &o, uint32_t c) {
    if (c < 0x80) o.push_back(c);
    else if (c < 0x800) { o.push_back(0xc0 | c >> 6); o.push_back(0x80 | (c & 63)); }
    else if (c < 0x10000) { o.push_back(0xe0 | c >> 12); o.push_back(0x80 | (c >> 6 & 63)); o.push_back(0x80 | (c & 63)); }
    else { o.push_back(0xf0 | c >> 18); o.push_back(0x80 | (c >> 12 & 63)); o.push_back(0x80 | (c >> 6 & 63)); o.push_back(0x80 | (c & 63)); }
}

// ------------------------------------------------------------------ generator
static uint64_t rndval(Rng &r) {
    switch (r.below(5)) {
    case 0: return r.below(4);
    case 1: { int b = r.below(64); return (1ULL << b) + (int64_t)r.below(3) - 1; }
    case 2: { int b = r.below(64); return 0 - ((1ULL << b) + (int64_t)r.below(3) - 1); }
    case 3: return r.next() >> r.below(64);
    default: return r.next();
    }
}
static Bytes rndstr(Rng &r, bool valid) {
    Bytes o; int n = r.below(4) ? r.below(8) : r.below(300);
    for (int i = 0; i < n; ++i) {
        uint32_t c;
        static const uint32_t edge[] = {1, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x10ffff, 0xfeff, 0x40000};
        if (r.chance(1, 3)) c = edge[r.below(12)];
        else c = 1 + r.below(r.chance(1, 2) ? 0x7f : r.chance(1, 2) ? 0xffff : 0x10ffff);
        if (c >= 0xd800 && c <= 0xdfff) c = 'x';
        putcp(o, c);
    }
    if (!valid) {
        if (o.empty()) o.push_back(0x80);
        switch (r.below(5)) {
        case 0: o[r.below(o.size())] ^= 1 << r.below(8); break;
        case 1: o.resize(r.below(o.size() + 1)); break;
        case 2: { static const uint32_t c[] = {0xd800, 0xdfff, 0xdabc, 0x110000, 0x13ffff}; putcp(o, c[r.below(5)]); break; }
        case 3: { static const char *ov[] = {"\xc0\x80", "\xc1\xbf", "\xe0\x80\x80", "\xe0\x9f\xbf", "\xf0\x80\x80\x80", "\xf0\x8f\xbf\xbf", "\xf5\x80\x80\x80", "\xfe", "\xff"};
                  const char *s = ov[r.below(9)]; size_t at = r.below(o.size() + 1); o.insert(o.begin() + at, s, s + strlen(s)); break; }
        default: o.insert(o.begin() + r.below(o.size() + 1), 0); break;
        }
    }
    return o;
}
static int rndtag(Rng &r) {
    switch (r.below(6)) {
    case 0: return 1 + r.below(15);
    case 1: return 16 + r.below(200);
    case 2: { static const int t[] = {15, 16, 127, 128, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911}; return t[r.below(11)]; }
    case 3: return 1 + r.below(536870911);
    default: return 1 + r.below(20);
    }
}
static std::vector<Field> rndfields(Rng &r, int depth) {
    std::vector<Field> fs;
    int n = r.below(depth ? 4 : 7);
    for (int i = 0; i < n; ++i) {
        Field f; f.k = (Kind)r.below(NKINDS); f.tag = rndtag(r); f.v = rndval(r);
        if (f.k == STRING) f.b = rndstr(r, true);
        if (f.k == BYTES) { f.b = r.bytes(r.below(4) ? r.below(20) : (r.below(8) ? 100 + r.below(100) : r.below(20000))); }
        if (f.k == BOOL && r.chance(1, 2)) f.v &= 1;
        if (f.k == ELEM) {
            if (depth >= 4) f.k = BYTES;
            else if (r.chance(1, 3)) {      // packed numbers
                Kind pk = (Kind)r.below(BOOL + 1); int m = r.below(40);
                for (int j = 0; j < m; ++j) { Field g; g.k = pk; g.tag = 0; g.v = rndval(r); f.sub.push_back(g); }
            } else f.sub = rndfields(r, depth + 1);
        }
        fs.push_back(f);
    }
    return fs;
}

// --------------------------------------------------------------- library side
static int wr1(NoiseProtobuf *p, const Field &f);
static int wr(NoiseProtobuf *p, const std::vector<Field> &fs) {
    int e = 0;
    for (size_t i = fs.size(); i-- > 0;) { int x = wr1(p, fs[i]); if (!e) e = x; }
    return e;
}
static int wr1(NoiseProtobuf *p, const Field &f) {
    float fl; double db; uint32_t u = f.v; memcpy(&fl, &u, 4); memcpy(&db, &f.v, 8);
    switch (f.k) {
    case INT32: return noise_protobuf_write_int32(p, f.tag, (int32_t)f.v);
    case UINT32: return noise_protobuf_write_uint32(p, f.tag, (uint32_t)f.v);
    case INT64: return noise_protobuf_write_int64(p, f.tag, (int64_t)f.v);
    case UINT64: return noise_protobuf_write_uint64(p, f.tag, f.v);
    case SINT32: return noise_protobuf_write_sint32(p, f.tag, (int32_t)f.v);
    case SINT64: return noise_protobuf_write_sint64(p, f.tag, (int64_t)f.v);
    case SFIXED32: return noise_protobuf_write_sfixed32(p, f.tag, (int32_t)f.v);
    case FIXED32: return noise_protobuf_write_fixed32(p, f.tag, (uint32_t)f.v);
    case SFIXED64: return noise_protobuf_write_sfixed64(p, f.tag, (int64_t)f.v);
    case FIXED64: return noise_protobuf_write_fixed64(p, f.tag, f.v);
    case FLOAT: return noise_protobuf_write_float(p, f.tag, fl);
    case DOUBLE: return noise_protobuf_write_double(p, f.tag, db);
    case BOOL: return noise_protobuf_write_bool(p, f.tag, f.v != 0 ? (int)(f.v & 0x7fffffff) | ((f.v & 0x7fffffff) ? 0 : 1) : 0);
    case STRING: return noise_protobuf_write_string(p, f.tag, (const char *)f.b.data(), f.b.size());
    case BYTES: return noise_protobuf_write_bytes(p, f.tag, f.b.data(), f.b.size());
    default: {
        size_t end = 7; int e = noise_protobuf_write_end_element(p, &end);
        if (e && end) viol("end-element-on-error", "end position not zeroed on error");
        int x = wr(p, f.sub); if (!e) e = x;
        x = noise_protobuf_write_start_element(p, f.tag, end); if (!e) e = x;
        return e; }
    }
}
static uint64_t mask(Kind k, uint64_t v) {
    switch (k) {
    case INT32: case SINT32: case SFIXED32: case UINT32: case FIXED32: case FLOAT: return (uint32_t)v;
    case BOOL: return v != 0;
    default: return v;
    }
}
// Reads one scalar; returns the error, value in v.
static int rd(NoiseProtobuf *p, Kind k, int tag, uint64_t &v) {
    int e; v = 0;
    switch (k) {
    case INT32: { int32_t x = 77; e = noise_protobuf_read_int32(p, tag, &x); v = (uint32_t)x; break; }
    case UINT32: { uint32_t x = 77; e = noise_protobuf_read_uint32(p, tag, &x); v = x; break; }
    case INT64: { int64_t x = 77; e = noise_protobuf_read_int64(p, tag, &x); v = x; break; }
    case UINT64: { uint64_t x = 77; e = noise_protobuf_read_uint64(p, tag, &x); v = x; break; }
    case SINT32: { int32_t x = 77; e = noise_protobuf_read_sint32(p, tag, &x); v = (uint32_t)x; break; }
    case SINT64: { int64_t x = 77; e = noise_protobuf_read_sint64(p, tag, &x); v = x; break; }
    case SFIXED32: { int32_t x = 77; e = noise_protobuf_read_sfixed32(p, tag, &x); v = (uint32_t)x; break; }
    case FIXED32: { uint32_t x = 77; e = noise_protobuf_read_fixed32(p, tag, &x); v = x; break; }
    case SFIXED64: { int64_t x = 77; e = noise_protobuf_read_sfixed64(p, tag, &x); v = x; break; }
    case FIXED64: { uint64_t x = 77; e = noise_protobuf_read_fixed64(p, tag, &x); v = x; break; }
    case FLOAT: { float x = 77; e = noise_protobuf_read_float(p, tag, &x); uint32_t u; memcpy(&u, &x, 4); v = u; break; }
    case DOUBLE: { double x = 77; e = noise_protobuf_read_double(p, tag, &x); memcpy(&v, &x, 8); break; }
    default: { int x = 77; e = noise_protobuf_read_bool(p, tag, &x); v = (unsigned)x; break; }
    }
    return e;
}
// Reads delimited data with one of the four functions.
static int rdd(NoiseProtobuf *p, Kind k, int tag, bool alloc, size_t max, Bytes &out, bool nosize) {
    int e; out.clear(); size_t n = 99;
    if (k == STRING && !alloc) {
        Guard g(max, 0xEE);
        e = noise_protobuf_read_string(p, tag, (char *)g.p, max, nosize ? 0 : &n);
        if (!g.intact()) viol("read-string-overrun", "read_string wrote outside its buffer");
        if (max) {
            size_t l = strnlen((char *)g.p, max);
            if (l >= max) viol("read-string-unterminated", "read_string left no terminator (max=%zu err=%d)", max, e);
            else { if (!e && !nosize && n != l) viol("read-string-size", "size %zu but terminator at %zu", n, l);
                   out.assign(g.p, g.p + l); if (e && l) viol("read-string-partial", "failed read_string left data"); }
        }
        if (e && max && !nosize && n) viol("read-size-on-error", "size not zeroed");
    } else if (k == STRING) {
        char *s = (char *)1;
        e = noise_protobuf_read_alloc_string(p, tag, &s, max, nosize ? 0 : &n);
        if (e) { if (s) viol("alloc-on-error", "pointer %p after error %d", s, e); if (!nosize && n) viol("read-size-on-error", "size not zeroed"); }
        else { size_t l = strlen(s); if (!nosize && l != n) viol("alloc-string-size", "size %zu len %zu", n, l);
               out.assign(s, s + l); noise_protobuf_free_memory(s, l); }
    } else if (!alloc) {
        Guard g(max, 0xEE);
        e = noise_protobuf_read_bytes(p, tag, g.p, max, &n);
        if (!g.intact()) viol("read-bytes-overrun", "read_bytes wrote outside its buffer");
        if (e) { if (n) viol("read-size-on-error", "size not zeroed"); }
        else if (n > max) viol("read-bytes-size", "size %zu > max %zu", n, max);
        else out.assign(g.p, g.p + n);
    } else {
        void *s = (void *)1;
        e = noise_protobuf_read_alloc_bytes(p, tag, &s, max, &n);
        if (e) { if (s) viol("alloc-on-error", "pointer %p after error %d", s, e); if (n) viol("read-size-on-error", "size not zeroed"); }
        else if (!s) viol("alloc-null", "NULL for a successful read of %zu bytes", n);
        else { out.assign((uint8_t *)s, (uint8_t *)s + n); noise_protobuf_free_memory(s, n); }
    }
    return e;
}
static void walk(Rng &r, NoiseProtobuf *p, const std::vector<Field> &fs, size_t left) {
    for (auto &f : fs) {
        size_t before = p->posn;
        if (f.tag) {
            int pt = noise_protobuf_peek_tag(p);
            if (pt != f.tag) viol("peek-tag", "peek_tag gave %d for %s tag %d", pt, kname[f.k], f.tag);
            size_t ps = noise_protobuf_peek_size(p), want = 0; Bytes t;
            if (wire(f.k) == 2) { if (f.k == ELEM) { put(t, f.sub); want = t.size(); } else want = f.b.size(); }
            if (ps != want) viol("peek-size", "peek_size gave %zu for %s of %zu bytes, tag %d", ps, kname[f.k], want, f.tag);
            if (p->posn != before || p->error) viol("peek-moves", "peeking changed the protobuf");
            ev("peeks", 2);
        }
        Bytes enc; put1(enc, f);
        eval();
        if (f.tag && r.chance(1, 8)) {
            int e = noise_protobuf_read_skip(p);
            if (e) viol("skip-refused", "read_skip gave %d for %s", e, kname[f.k]);
            ev("skipped");
        } else if (f.k == ELEM) {
            size_t end = 0; int e = noise_protobuf_read_start_element(p, f.tag, &end);
            Bytes t; put(t, f.sub);
            if (e || end != before + enc.size()) viol("start-element", "error %d end %zu want %zu", e, end, before + enc.size());
            walk(r, p, f.sub, t.size());
            if (!noise_protobuf_read_at_end_element(p, end)) viol("at-end", "not at end after all fields");
            e = noise_protobuf_read_end_element(p, end);
            if (e) viol("end-element", "read_end_element gave %d", e);
            ev("elements_read");
        } else if (wire(f.k) == 2) {
            bool alloc = r.chance(1, 2), ns = f.k == STRING && r.chance(1, 4); size_t need = f.b.size() + (f.k == STRING && !alloc);
            size_t max = alloc && r.chance(1, 2) ? 0 : need + (r.chance(1, 2) ? 0 : r.below(40));
            Bytes o; int e = rdd(p, f.k, f.tag, alloc, max, o, ns);
            if (e || o != f.b) viol(std::string("read-") + kname[f.k], "error %d reading %zu bytes with room %zu alloc %d, got %zu: %s / %s", e, f.b.size(), max, alloc, o.size(), hex(f.b).c_str(), hex(o).c_str());
            ev("delimited_read");
        } else {
            uint64_t v; int e = rd(p, f.k, f.tag, v);
            if (e || v != mask(f.k, f.v)) viol(std::string("read-") + kname[f.k], "error %d, wrote %016llx read %016llx", e, (unsigned long long)f.v, (unsigned long long)v);
            ev("scalars_read");
        }
        if (p->error) return;
        if (p->posn != before + enc.size()) { viol("read-position", "%s read moved %zu not %zu", kname[f.k], p->posn - before, enc.size()); return; }
    }
}

static void roundtrip(uint64_t, Rng &r) {
    std::vector<Field> fs = rndfields(r, 0);
    Bytes enc; put(enc, fs);
    std::string sg; for (auto &f : fs) sg += fmt("%s%d.%zu ", kname[f.k], f.tag, f.b.size() + f.sub.size());
    describe("codec " + sg + hex(enc, 60)); sig(sg + hex(enc, 30)); sample(sg + fmt("-> %zu bytes", enc.size()));
    size_t n = enc.size();
    NoiseProtobuf p;
    // measure, exactly and with less or more allowed
    for (int k = 0; k < 3; ++k) {
        size_t max = k == 0 ? n : k == 1 ? n + r.below(50) : (n ? r.below(n) : 0), got = 5;
        memset(&p, 0x5a, sizeof p);
        int e = noise_protobuf_prepare_measure(&p, max); if (e) viol("prepare-measure", "error %d", e);
        e = wr(&p, fs);
        int want = max < n ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_NONE;
        int e2 = noise_protobuf_finish_measure(&p, &got);
        eval();
        if (e2 != want || (e != want) || got != (want ? 0 : n))
            viol("measure", "max %zu of %zu: write %d finish %d size %zu", max, n, e, e2, got);
        ev("measured");
    }
    // output in buffers of several sizes
    for (int k = 0; k < 5; ++k) {
        size_t room = k == 0 ? n : k == 1 ? n + 1 + r.below(100) : k == 2 && n ? n - 1 : n ? r.below(n) : 0;
        Guard g(room, 0xA5);
        memset(&p, 0x5a, sizeof p);
        int e = noise_protobuf_prepare_output(&p, g.p, room); if (e) viol("prepare-output", "error %d", e);
        e = wr(&p, fs);
        int want = room < n ? NOISE_ERROR_INVALID_LENGTH : NOISE_ERROR_NONE;
        uint8_t *d = (uint8_t *)1; size_t sz = 5;
        bool shift = r.chance(1, 2);
        int e2 = shift ? noise_protobuf_finish_output_shift(&p, &d, &sz) : noise_protobuf_finish_output(&p, &d, &sz);
        eval();
        if (e != want || e2 != want) viol("output-result", "room %zu of %zu: write %d finish %d", room, n, e, e2);
        else if (want) {
            if (d || sz) viol("output-on-error", "data %p size %zu after error", d, sz);
            int e3 = noise_protobuf_write_bool(&p, 0, 1), e4 = noise_protobuf_write_fixed64(&p, 0, 1), e5 = noise_protobuf_write_string(&p, 0, "", 0);
            if (e3 != want || e4 != want || e5 != want) viol("output-error-sticks", "later writes gave %d %d %d", e3, e4, e5);
            ev("short_buffers_refused");
        } else {
            if (sz != n || d != (shift ? g.p : g.p + (room - n)) || (n && memcmp(d, enc.data(), n)))
                viol("output-bytes", "got %s want %s", hex(d, sz).c_str(), hex(enc).c_str());
            ev("outputs_exact");
        }
        if (!g.intact()) viol("output-overrun", "writer wrote outside the buffer of %zu", room);
    }
    // read back from an exact-size buffer
    uint8_t *in = (uint8_t *)malloc(n ? n : 1); if (n) memcpy(in, enc.data(), n);
    int e = noise_protobuf_prepare_input(&p, in, n); if (e) viol("prepare-input", "error %d", e);
    size_t end0 = 1;
    if (noise_protobuf_read_start_element(&p, 0, &end0) || end0 != n) viol("root-element", "end %zu of %zu", end0, n);
    walk(r, &p, fs, n);
    e = noise_protobuf_finish_input(&p); if (e) viol("finish-input", "error %d after reading everything", e);
    if (noise_protobuf_read_end_element(&p, end0)) viol("root-end", "root end refused");
    if (noise_protobuf_peek_tag(&p) || noise_protobuf_peek_size(&p)) viol("peek-at-end", "peek past the end gave something");
    if (n) {
        noise_protobuf_prepare_input(&p, in, n);
        if (noise_protobuf_finish_input(&p) != NOISE_ERROR_INVALID_FORMAT) viol("finish-early", "finish_input accepted unread data");
    }
    free(in);
}

// Model reader over arbitrary bytes.
struct MR {
    const Bytes &d; size_t pos = 0; int err = 0;
    MR(const Bytes &b) : d(b) {}
    bool varint(uint64_t &v, size_t &q) const {
        v = 0;
        for (int i = 0; i < 10; ++i) { if (q >= d.size()) return false; uint8_t c = d[q++]; v |= (uint64_t)(c & 127) << (7 * i); if (!(c & 128)) return true; }
        return false;
    }
    bool tagok(int tag, int w, size_t &q) const {
        if (tag < 0) return false; if (!tag) return true;
        uint64_t v; return varint(v, q) && v == (((uint64_t)tag << 3) | w);
    }
    int peektag() const { uint64_t v; size_t q = pos; if (err || !varint(v, q)) return 0; v >>= 3; return v <= 536870911 ? (int)v : 0; }
    size_t peeksize() const { uint64_t v; size_t q = pos; if (err || !varint(v, q) || (v & 7) != 2 || !varint(v, q)) return 0; return v; }
};
static void hostile(uint64_t, Rng &r) {
    Bytes d;
    if (r.chance(1, 4)) d = r.bytes(r.below(40));
    else {
        std::vector<Field> fs = rndfields(r, 1); put(d, fs);
        if (d.size() > 3000) d.resize(3000);
        int m = r.below(4);
        while (m-- && d.size()) switch (r.below(7)) {
        case 5: { Bytes x; putv(x, (uint64_t)(1 + r.below(9)) << 3 | 2); putv(x, (uint64_t)0 - (uint64_t)r.below(1 + 2 * d.size()) - 1); size_t at = r.below(d.size() + 1); if (r.chance(1, 3)) at = 0; d.insert(d.begin() + at, x.begin(), x.end()); break; }   // a length that wraps
        case 0: d[r.below(d.size())] ^= 1 << r.below(8); break;
        case 1: d.resize(r.below(d.size() + 1)); break;
        case 2: { size_t at = r.below(d.size() + 1); Bytes x; putv(x, rndval(r)); d.insert(d.begin() + at, x.begin(), x.end()); break; }
        case 3: { Bytes x(r.below(14), 0xff); size_t at = r.below(d.size() + 1); d.insert(d.begin() + at, x.begin(), x.end()); break; }
        case 4: d[r.below(d.size())] = 0xff; break;
        default: { Bytes x(r.below(12), 0x80); x.push_back(r.below(3)); size_t at = r.below(d.size() + 1); d.insert(d.begin() + at, x.begin(), x.end()); break; }
        }
    }
    describe("hostile " + hex(d, 150)); sig("h" + hex(d, 300));
    Guard g(d.size()); if (d.size()) memcpy(g.p, d.data(), d.size());
    NoiseProtobuf p; noise_protobuf_prepare_input(&p, g.p, d.size());
    MR m(d);
    std::vector<size_t> ends;
    for (int step = 0; step < 12; ++step) {
        eval();
        int pt = noise_protobuf_peek_tag(&p); size_t ps = noise_protobuf_peek_size(&p);
        if (pt != m.peektag()) viol("peek-tag", "hostile data at %zu: peek_tag %d want %d", m.pos, pt, m.peektag());
        if (ps != m.peeksize()) viol("peek-size", "hostile data at %zu: peek_size %zu want %zu", m.pos, ps, m.peeksize());
        // mostly read what is there
        uint64_t w = 0; size_t q = m.pos; bool have = m.varint(w, q); int t = (int)(w >> 3) & 0x1fffffff, wt = w & 7;
        int tag = r.chance(4, 5) ? (have ? t : 1) : r.chance(1, 3) ? 0 : r.chance(1, 3) ? -(int)r.below(5) - 1 : rndtag(r);
        Kind k;
        if (r.chance(4, 5) && have) { do k = (Kind)r.below(NKINDS); while (wire(k) != wt && (wt == 0 || wt == 1 || wt == 2 || wt == 5)); }
        else k = (Kind)r.below(NKINDS);
        int op = r.below(20); int e = 0, want = 0;
        size_t q0 = m.pos; bool ok = !m.err; uint64_t v = 0;
        std::string what;
        if (op == 0) {                                       // skip
            what = "skip"; e = noise_protobuf_read_skip(&p);
            ok = ok && m.varint(v, q0);
            if (ok) switch (v & 7) {
            case 0: ok = m.varint(v, q0); break;
            case 1: ok = d.size() - q0 >= 8; q0 += 8; break;
            case 2: ok = m.varint(v, q0) && v <= d.size() - q0; if (ok) q0 += v; break;
            case 5: ok = d.size() - q0 >= 4; q0 += 4; break;
            default: ok = false;
            }
            ev("hostile_skips");
        } else if (op == 1 && !ends.empty()) {
            size_t en = ends.back(); ends.pop_back(); what = "end-element";
            int at = noise_protobuf_read_at_end_element(&p, en);
            if (!at != !(m.err || m.pos >= en)) viol("hostile-at-end", "at_end %d at %zu of %zu err %d", at, m.pos, en, m.err);
            e = noise_protobuf_read_end_element(&p, en); ok = ok && m.pos == en;
        } else if (op == 2 && r.chance(1, 3)) {
            what = "stop"; e = noise_protobuf_read_stop(&p); ok = false;
        } else if (k == ELEM) {
            what = "element"; size_t end = 5; e = noise_protobuf_read_start_element(&p, tag, &end);
            ok = ok && m.tagok(tag, 2, q0);
            if (ok && tag) { ok = m.varint(v, q0) && v <= d.size() - q0; }
            size_t wend = ok ? (tag ? q0 + v : d.size()) : 0;
            if (end != wend) viol("hostile-element-end", "end %zu want %zu (err %d)", end, wend, e);
            if (ok) ends.push_back(wend);
        } else if (wire(k) == 2) {
            what = kname[k];
            bool alloc = r.chance(1, 2); size_t max = r.chance(1, 2) ? r.below(12) : r.below(300); Bytes o, wo;
            if (alloc && r.chance(1, 3)) max = SIZE_MAX - r.below(3);   // no limit but the data itself
            if (!alloc && k == STRING && !max) max = 1;
            e = rdd(&p, k, tag, alloc, max, o, k == STRING && r.chance(1, 4));
            ok = ok && m.tagok(tag, 2, q0) && m.varint(v, q0);
            if (ok) {
                uint64_t lim = alloc ? (max ? max : d.size()) : k == STRING ? max - 1 : max;
                ok = v <= lim && v <= d.size() - q0;
                if (ok && k == STRING) ok = utf8ok(d.data() + q0, v);
                if (ok) { wo.assign(d.begin() + q0, d.begin() + q0 + v); q0 += v; }
            }
            if (!e && ok && o != wo) viol("hostile-data", "%s gave %s want %s", kname[k], hex(o).c_str(), hex(wo).c_str());
            ev("hostile_delimited");
        } else {
            what = kname[k]; uint64_t got; e = rd(&p, k, tag, got);
            ok = ok && m.tagok(tag, wire(k), q0); bool judge = true;
            if (ok) {
                if (wire(k) == 0) {
                    ok = m.varint(v, q0);
                    if (k == SINT32) { if (v >> 32) judge = false; v = (uint32_t)((v >> 1) ^ (0 - (v & 1))); }
                    else if (k == SINT64) v = (v >> 1) ^ (0 - (v & 1));
                    else v = mask(k, v);
                } else {
                    size_t nb = wire(k) == 1 ? 8 : 4; ok = d.size() - q0 >= nb;
                    if (ok) { v = 0; for (size_t i = 0; i < nb; ++i) v |= (uint64_t)d[q0 + i] << (8 * i); q0 += nb; }
                }
            }
            if (!ok) v = 0;
            if (judge && got != v) viol("hostile-value", "%s gave %016llx want %016llx (err %d)", kname[k], (unsigned long long)got, (unsigned long long)v, e);
            ev("hostile_scalars");
        }
        if (ok) m.pos = q0; else if (!m.err) m.err = NOISE_ERROR_INVALID_FORMAT;
        want = m.err;
        if (e != want) { viol("hostile-result", "%s tag %d returned %d want %d at %zu", what.c_str(), tag, e, want, m.pos); return; }
        if (!m.err && p.posn != m.pos) { viol("hostile-position", "%s moved to %zu want %zu", what.c_str(), p.posn, m.pos); return; }
        int fe = noise_protobuf_finish_input(&p);
        if (m.err) { if (fe != m.err) viol("finish-hides-error", "finish_input %d after %d", fe, m.err); ev("hostile_refused"); if (r.chance(3, 4)) return; }
        else if (fe != (m.pos == d.size() ? 0 : NOISE_ERROR_INVALID_FORMAT)) viol("finish-input", "finish_input gave %d at %zu of %zu", fe, m.pos, d.size());
        else if (fe) { noise_protobuf_prepare_input(&p, g.p, d.size()); p.posn = m.pos; }
    }
}

// Both directions of the UTF-8 rule for one byte string.
static void utf8(const uint8_t *s, size_t n) {
    bool ok = utf8ok(s, n);
    uint8_t *t = (uint8_t *)malloc(n ? n : 1); memcpy(t, s, n);     // exact size: over-reads show
    uint8_t buf[64]; NoiseProtobuf p; noise_protobuf_prepare_output(&p, buf, sizeof buf);
    int e = noise_protobuf_write_string(&p, 3, (char *)t, n);
    if (e != (ok ? 0 : NOISE_ERROR_INVALID_FORMAT)) viol("utf8-write", "write_string(%s) gave %d", hex(s, n).c_str(), e);
    free(t);
    t = (uint8_t *)malloc(2 + n); t[0] = 0x1a; t[1] = n; memcpy(t + 2, s, n);
    noise_protobuf_prepare_input(&p, t, 2 + n); char o[64]; size_t sz = 0;
    int e2 = noise_protobuf_read_string(&p, 3, o, sizeof o, &sz);
    if (e2 != (ok ? 0 : NOISE_ERROR_INVALID_FORMAT) || (ok && (sz != n || memcmp(o, s, n)))) viol("utf8-read", "read_string(%s) gave %d", hex(s, n).c_str(), e2);
    free(t);
    ev(ok ? "utf8_accepted" : "utf8_rejected"); eval();
}
static void utf8all(uint64_t c, Rng &r) {
    describe(fmt("utf8 block %d", (int)c)); sig(fmt("utf8 %d", (int)(c & 255)));
    uint8_t s[8];
    uint8_t a = c & 255;
    s[0] = a; utf8(s, 1);
    static const uint8_t e[] = {0, 1, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff};
    for (int b = 0; b < 256; ++b) {
        s[1] = b; utf8(s, 2);
        for (int x = 0; x < 11; ++x) { s[2] = e[x]; utf8(s, 3); if (a >= 0xe0) for (int y = 0; y < 11; ++y) { s[3] = e[y]; utf8(s, 4); if (r.chance(1, 16)) { s[4] = r.next(); utf8(s, 5); } } }
    }
    for (int i = 0; i < 400; ++i) { Bytes o; uint32_t cp = a * 4352 + r.below(4352); putcp(o, cp ? cp : 1); Bytes t(o); putcp(t, 1 + r.below(0xd000)); utf8(o.data(), o.size()); utf8(t.data(), t.size()); }
}

static void misuse(Rng &r) {
    describe("misuse"); NoiseProtobuf p; uint8_t b[16]; size_t sz = 5; uint8_t *d = (uint8_t *)1; int e;
#define WANT(x, w) if ((e = (x)) != (w)) viol("misuse", "%s gave %d want %d", #x, e, (int)(w)); ev("misuse_refused")
    const int IP = NOISE_ERROR_INVALID_PARAM;
    WANT(noise_protobuf_prepare_input(0, b, 1), IP); WANT(noise_protobuf_prepare_input(&p, 0, 1), IP);
    WANT(noise_protobuf_prepare_output(0, b, 1), IP); WANT(noise_protobuf_prepare_output(&p, 0, 1), IP);
    WANT(noise_protobuf_prepare_measure(0, 1), IP);
    WANT(noise_protobuf_finish_input(0), IP);
    WANT(noise_protobuf_finish_output(0, &d, &sz), IP); if (d || sz) viol("misuse-out", "outputs not cleared");
    WANT(noise_protobuf_finish_output_shift(0, &d, &sz), IP);
    WANT(noise_protobuf_finish_measure(0, &sz), IP);
    noise_protobuf_prepare_output(&p, b, 16);
    WANT(noise_protobuf_finish_output(&p, 0, &sz), IP); WANT(noise_protobuf_finish_output(&p, &d, 0), IP);
    WANT(noise_protobuf_finish_output_shift(&p, 0, &sz), IP); WANT(noise_protobuf_finish_output_shift(&p, &d, 0), IP);
    WANT(noise_protobuf_finish_measure(&p, 0), IP);
    WANT(noise_protobuf_write_string(&p, 1, 0, 3), IP); WANT(noise_protobuf_write_bytes(&p, 1, 0, 3), IP);
    WANT(noise_protobuf_write_end_element(&p, 0), IP);
    WANT(noise_protobuf_write_start_element(&p, 1, 17), IP);
    noise_protobuf_write_bool(&p, 0, 1);
    WANT(noise_protobuf_write_start_element(&p, 1, 14), IP);
    WANT(noise_protobuf_write_start_element(0, 1, 14), IP); WANT(noise_protobuf_write_end_element(0, &sz), IP);
    WANT(noise_protobuf_write_int32(0, 1, 1), IP); WANT(noise_protobuf_write_fixed32(0, 1, 1), IP); WANT(noise_protobuf_write_fixed64(0, 0, 1), IP);
    WANT(noise_protobuf_write_double(0, 0, 1), IP); WANT(noise_protobuf_write_string(0, 0, "x", 1), IP); WANT(noise_protobuf_write_bytes(0, 0, "x", 1), IP);
    if (p.error) viol("misuse-sticks", "argument errors put the protobuf into error %d", p.error);
    for (int tag = 0; tag < 2; ++tag) {
        uint64_t v; for (int k = 0; k <= BOOL; ++k) { WANT(rd(0, (Kind)k, tag, v), IP); }
        Bytes o; WANT(rdd(0, STRING, tag, false, 4, o, false), IP); WANT(rdd(0, STRING, tag, true, 4, o, false), IP);
        WANT(rdd(0, BYTES, tag, false, 4, o, false), IP); WANT(rdd(0, BYTES, tag, true, 4, o, false), IP);
        noise_protobuf_prepare_input(&p, b, 16);
        WANT(noise_protobuf_read_int32(&p, tag, 0), IP); WANT(noise_protobuf_read_uint64(&p, tag, 0), IP); WANT(noise_protobuf_read_sint64(&p, tag, 0), IP);
        WANT(noise_protobuf_read_fixed32(&p, tag, 0), IP); WANT(noise_protobuf_read_fixed64(&p, tag, 0), IP); WANT(noise_protobuf_read_float(&p, tag, 0), IP);
        WANT(noise_protobuf_read_double(&p, tag, 0), IP); WANT(noise_protobuf_read_bool(&p, tag, 0), IP);
        WANT(noise_protobuf_read_string(&p, tag, 0, 4, &sz), IP); WANT(noise_protobuf_read_string(&p, tag, (char *)b, 0, &sz), IP);
        WANT(noise_protobuf_read_bytes(&p, tag, 0, 4, &sz), IP); WANT(noise_protobuf_read_bytes(&p, tag, b, 4, 0), IP);
        WANT(noise_protobuf_read_alloc_string(&p, tag, 0, 4, &sz), IP); WANT(noise_protobuf_read_alloc_bytes(&p, tag, 0, 4, &sz), IP);
        WANT(noise_protobuf_read_start_element(&p, tag, 0), IP);
        if (p.error || p.posn) viol("misuse-sticks", "argument errors changed the protobuf");
    }
    WANT(noise_protobuf_read_start_element(0, 1, &sz), IP); WANT(noise_protobuf_read_end_element(0, 1), IP);
    WANT(noise_protobuf_read_stop(0), IP); WANT(noise_protobuf_read_skip(0), IP);
    WANT(noise_protobuf_peek_tag(0), 0); WANT((int)noise_protobuf_peek_size(0), 0); WANT(!noise_protobuf_read_at_end_element(0, 3), 0);
    noise_protobuf_free_memory(0, 10);
}

static void arrays(Rng &r) {
    describe("arrays");
    size_t es = 1 + r.below(40), cnt = 0, max = 0; void *arr = 0; std::vector<Bytes> m;
    int n = r.below(260);
    for (int i = 0; i < n; ++i) {
        Bytes v = r.bytes(es); size_t at = r.chance(1, 3) ? r.below(m.size() + 3) : m.size();
        int e = at == m.size() && r.chance(1, 2) ? noise_protobuf_add_to_array(&arr, &cnt, &max, v.data(), es)
                                                 : noise_protobuf_insert_into_array(&arr, &cnt, &max, at, v.data(), es);
        m.insert(m.begin() + std::min(at, m.size()), v);
        bool bad = e || cnt != m.size() || max < cnt;
        if (!bad && (i % 16 == 0 || i == n - 1)) for (size_t j = 0; j < cnt; ++j) bad |= memcmp((uint8_t *)arr + j * es, m[j].data(), es) != 0;
        if (bad) { viol("array", "element size %zu, step %d: error %d count %zu of %zu", es, i, e, cnt, m.size()); break; }
        ev("array_inserts"); eval();
    }
    noise_protobuf_free_memory(arr, max * es);
    bool str = r.chance(1, 2); void **ba = 0; size_t *la = 0; cnt = max = 0; std::vector<Bytes> bm; n = r.below(140);
    for (int i = 0; i < n; ++i) {
        Bytes v; if (str) v = rndstr(r, true); else v = r.bytes(r.below(30));
        int e = str ? noise_protobuf_add_to_string_array((char ***)&ba, &la, &cnt, &max, v.empty() && r.chance(1, 2) ? 0 : (char *)v.data(), v.size())
                    : noise_protobuf_add_to_bytes_array(&ba, &la, &cnt, &max, v.data(), v.size());
        bm.push_back(v);
        if (e || cnt != bm.size() || max < cnt) { viol("block-array", "error %d count %zu of %zu", e, cnt, bm.size()); break; }
        if (r.chance(1, 10)) { size_t c0 = cnt; int e2 = noise_protobuf_add_to_bytes_array(&ba, &la, &cnt, &max, 0, 1 + r.below(5)); if (e2 != NOISE_ERROR_INVALID_PARAM || cnt != c0) viol("block-array-null", "NULL value gave %d", e2); }
        ev("block_inserts"); eval();
    }
    for (size_t j = 0; j < cnt; ++j) {
        if (la[j] != bm[j].size() || (la[j] && memcmp(ba[j], bm[j].data(), la[j])) || (str && ((char *)ba[j])[la[j]])) viol("block-array-data", "entry %zu differs", j);
        noise_protobuf_free_memory(ba[j], la[j]);
    }
    noise_protobuf_free_memory(ba, max * sizeof(void *)); noise_protobuf_free_memory(la, max * sizeof(size_t));
    sig(fmt("arr %zu %d %zu %d", es, n, cnt, str));
}

int main(int argc, char **argv) {
    return run(argc, argv, [](uint64_t i, Rng &r) {
        if (i < 256) utf8all(i, r);
        for (int k = 0; k < 4; ++k) roundtrip(i, r);
        for (int k = 0; k < 20; ++k) hostile(i, r);
        if (i % 4 == 0) misuse(r);
        if (i % 4 == 1) arrays(r);
    });
}
