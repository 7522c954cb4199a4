/* C29-C32: base64 and hexadecimal notation. */
#include "pbt.h"
#include "base64.h"
#include "hex.h"
#include "huge.h"

const char vf_property[] = VF_PROPERTY;

static u8* draw_blob(size_t n)
{
    u8* b = (u8*) h_malloc(n ? n : 1);
    if(n <= 24) d_fill(b, n);
    else { u64 s = d_seed(); size_t i; int way = (int) d_below(3); for(i = 0; i < n; i++) b[i] = way == 0 ? (u8) vf_next(&s) : way == 1 ? (u8) (s + i) : (u8) (0xff - i); }
    return b;
}
static size_t draw_n(void)
{
    switch(D_WEIGHTED(6, 3, 1)) {
        case 0: return (size_t) d_below(20);
        case 1: return (size_t) d_below(300);
        default: return d_size(vf_profile ? 100000 : 3000);
    }
}
/* An output buffer of exactly the given size, with some content. */
static char* out_new(size_t n, u8 fill) { char* o = (char*) h_malloc(n ? n : 1); memset(o, fill, n); return o; }
static size_t draw_room(size_t need)
{
    switch(D_WEIGHTED(3, 4, 3, 2)) {
        case 0: return need;
        case 1: return need + 1;
        case 2: return need + (size_t) d_below(12);
        default: return d_bool() && need ? (d_bool() ? need - 1 : (size_t) d_below(need)) : need + 2;
    }
}
static int roomy(void) { return d_chance(1, 40); }       /* an output buffer of UINT_MAX bytes */

/* ---------------- reference: base64 ---------------- */
static const char digits62[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789";
static char ref_digit(unsigned v, const BASE64_OPTIONS* o) { return v < 62 ? digits62[v] : v == 62 ? o->ch62 : o->ch63; }
static int ref_value(char c, const BASE64_OPTIONS* o)
{
    const char* p;
    if(c == o->ch62) return 62;
    if(c == o->ch63) return 63;
    if(c == 0) return -1;
    p = strchr(digits62, c);
    return p ? (int) (p - digits62) : -1;
}
static size_t ref_len(size_t n, const BASE64_OPTIONS* o) { return o->pad ? (n + 2) / 3 * 4 : n / 3 * 4 + (n % 3 ? n % 3 + 1 : 0); }
static void ref_enc(const u8* b, size_t n, char* out, const BASE64_OPTIONS* o)
{
    size_t bit, i, len = ref_len(n, o);
    for(i = 0; i < len; i++) {
        unsigned v = 0, k;
        if(i * 6 >= n * 8) { out[i] = o->pad; continue; }
        for(k = 0; k < 6; k++) { bit = i * 6 + k; v = v << 1 | (bit < n * 8 ? b[bit / 8] >> (7 - bit % 8) & 1u : 0); }
        out[i] = ref_digit(v, o);
    }
}
/* -1: not well-formed */
static long ref_dec(const char* t, size_t n, u8* out, const BASE64_OPTIONS* o)
{
    size_t pads = 0, i, len, bit;
    if(o->pad) while(pads < n && t[n - 1 - pads] == o->pad) pads++;
    if(pads && (n % 4 != 0 || pads > 2)) return -1;
    n -= pads;
    if(n % 4 == 1) return -1;
    if(pads && n % 4 != 4 - pads) return -1;
    len = n / 4 * 3 + (n % 4 ? n % 4 - 1 : 0);
    for(i = 0; i < n; i++) if(ref_value(t[i], o) < 0) return -1;
    for(i = 0; i < len; i++) out[i] = 0;
    for(bit = 0; bit < n * 6; bit++) {
        unsigned v = (unsigned) ref_value(t[bit / 6], o) >> (5 - bit % 6) & 1u;
        if(bit / 8 < len) out[bit / 8] |= (u8) (v << (7 - bit % 8));
        else if(v) return -1;
    }
    return (long) len;
}
static const BASE64_OPTIONS std_opts = { '+', '/', '=' };
static char draw_special(void)
{
    static const char usual[] = "+/-_.,~!:$ ";
    if(d_chance(3, 4)) return usual[d_below(11)];
    for(;;) {
        u8 c = (u8) d_below(256);
        if(c == 0) c = '%';
        if((c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')) c ^= 0x80;
        return (char) c;
    }
}
/* NULL stands for the standard dialect */
static const BASE64_OPTIONS* draw_opts(BASE64_OPTIONS* o)
{
    *o = std_opts;
    switch(D_WEIGHTED(3, 2, 2, 4)) {
        case 0: return NULL;
        case 1: o->pad = 0; break;
        case 2: o->ch62 = '-'; o->ch63 = '_'; if(d_bool()) o->pad = 0; break;
        default:
            o->ch62 = draw_special(); o->ch63 = draw_special();
            o->pad = d_bool() ? 0 : d_bool() ? '=' : draw_special();
            if(o->ch63 == o->ch62) o->ch63 = o->ch62 == '#' ? '*' : '#';
            if(o->pad == o->ch62 || o->pad == o->ch63) o->pad = 0;
    }
    return o;
}

#if defined VF_C30 || defined VF_C32
/* What people put around and into such texts: white space, line ends, prefixes, separators. The reference decides on the result. */
static char* embellish(char* t, size_t* plen)
{
    static const struct { const char* s; u8 n; } add[] = {
        { "\r\n", 2 }, { "\n", 1 }, { "\n\n", 2 }, { "\r", 1 }, { " ", 1 }, { "  ", 2 }, { "    ", 4 }, { "\t", 1 }, { "\t ", 2 }, { "\v", 1 }, { "\f", 1 }, { "0x", 2 }, { "0X", 2 }, { "\\x", 2 },
        { "x'", 2 }, { "'", 1 }, { "\"", 1 }, { "#", 1 }, { ":", 1 }, { "-", 1 }, { "--", 2 }, { "_", 1 }, { ",", 1 }, { ", ", 2 }, { ".", 1 }, { "%", 1 }, { "h", 1 }, { "\0", 1 }, { "\0\0", 2 }, { "\0\0\0\0", 4 },
        { "=", 1 }, { "==", 2 }, { "===", 3 }, { "====", 4 }, { "\xef\xbb\xbf", 3 }, { "data:;base64,", 13 }, { "\xc2\xa0", 2 }, { "$", 1 }, { "+", 1 }, { "*", 1 }, { "0x00", 4 }, { "\r\n\r\n", 4 }, { "\\", 1 }, { ";", 1 },
    };
    size_t len = *plen, k = (size_t) d_below(sizeof(add) / sizeof(add[0])), n = add[k].n, every, i, o = 0;
    static const u8 steps[] = { 1, 2, 2, 3, 4, 4, 8, 16, 32, 60, 64, 72, 76 };
    char* r;
    switch(D_WEIGHTED(4, 6, 3, 2, 4)) {
        case 0: r = (char*) h_malloc(len + n); memcpy(r, add[k].s, n); memcpy(r + n, t, len); o = len + n; break;
        case 1: { int times = d_chance(1, 4) ? 1 + (int) d_below(4) : 1; r = (char*) h_malloc(len + 4 * n); memcpy(r, t, len); for(o = len; times > 0; times--, o += n) memcpy(r + o, add[k].s, n); break; }
        case 2: { size_t at = (size_t) d_below(len + 1); if(d_bool()) at &= ~(size_t) 3; r = (char*) h_malloc(len + n); memcpy(r, t, at); memcpy(r + at, add[k].s, n); memcpy(r + at + n, t + at, len - at); o = len + n; break; }
        case 3: r = (char*) h_malloc(len + 2 * n); memcpy(r, add[k].s, n); memcpy(r + n, t, len); memcpy(r + n + len, add[k].s, n); o = len + 2 * n; break;
        default:
            every = steps[d_below(sizeof(steps))];
            r = (char*) h_malloc(len + (len / every + 2) * n);
            for(i = 0; i < len; i++) { if(i && i % every == 0) { memcpy(r + o, add[k].s, n); o += n; } r[o++] = t[i]; }
            if(d_bool()) { memcpy(r + o, add[k].s, n); o += n; }
    }
    h_free(t);
    *plen = o;
    vf_label("embellished");
    return r;
}
#endif

#if defined VF_C29
const char vf_rule[] = "a blob of at least 3 bytes was encoded and decoded, and a length not divisible by 3 was among the encoded ones";

static void one(int* three, int* odd)
{
    BASE64_OPTIONS own;
    const BASE64_OPTIONS* given = draw_opts(&own), *o = given ? given : &std_opts;
    size_t n = draw_n(), len = ref_len(n, o), room = draw_room(len), i;
    u8* blob = draw_blob(n), *copy = (u8*) h_dup(blob, n);
    char* want = (char*) h_malloc(len ? len : 1);
    int big = roomy(), r;
    u8 fill = (u8) d_below(256);
    char* out = big ? huge((size_t) UINT_MAX + 1) : out_new(room, fill);
    if(big) room = UINT_MAX;
    TRACE("encode %zu bytes %s into room for %zu (%zu needed), dialect %02x %02x %02x", n, vf_hex(blob, n), room, len, (u8) o->ch62, (u8) o->ch63, (u8) o->pad);
    ref_enc(blob, n, want, o);
    r = base64_encode(blob, (unsigned) n, NULL, d_bool() ? 0 : (unsigned) d_u64(), given);
    CHECK(r > 0 && (size_t) r >= len + 1, "the size announced for %zu bytes is %d, and %zu are needed", n, r, len + 1);
    r = base64_encode(blob, (unsigned) n, out, (unsigned) room, given);
    CHECK(memcmp(blob, copy, n) == 0, "the encoded blob was modified");
    if(room < len) CHECK(r < 0, "encoding %zu bytes into room for %zu (%zu needed) gives %d", n, room, len, r);
    else {
        CHECK(r >= 0 && (size_t) r == len, "encoding %zu bytes gives %d and should give %zu", n, r, len);
        for(i = 0; i < len; i++) CHECK(out[i] == want[i], "character %zu of the text of %s is 0x%02x and should be 0x%02x", i, vf_hex(blob, n), (u8) out[i], (u8) want[i]);
        if(room > len) CHECK(out[len] == 0, "the text of %zu bytes is not terminated", n);
        if(n % 3) *odd = 1;
        if(n >= 3) *three = 1;
        { /* and back, from a text of exactly that size */
            char* t = (char*) h_dup(out, len);
            char* back = out_new(n, fill);
            r = base64_decode(t, (unsigned) len, back, (unsigned) n, given);
            CHECK(r >= 0 && (size_t) r == n, "decoding the text of %zu bytes gives %d", n, r);
            CHECK(memcmp(back, blob, n) == 0, "decoding the text of %s gives %s", vf_hex(blob, n), vf_hex(back, n));
            h_free(t); h_free(back);
        }
    }
    h_free(blob); h_free(copy); h_free(want);
    if(big) munmap(out, (size_t) UINT_MAX + 1); else h_free(out);
}

static void sizes(void)
{
    BASE64_OPTIONS own;
    const BASE64_OPTIONS* given = draw_opts(&own), *o = given ? given : &std_opts;
    u64 n = d_chance(1, 2) ? (u32) d_u64() : d_chance(1, 2) ? 1610612733ull - 40 + d_below(80) : (u64) UINT_MAX - d_below(60);
    size_t len = ref_len(n, o);
    u8 b[4] = { 1, 2, 3, 4 };
    int r = base64_encode(b, (unsigned) n, NULL, 0, given);
    TRACE("announced size of %llu bytes: %d", (unsigned long long) n, r);
    if(len + 8 < INT_MAX) CHECK(r > 0 && (size_t) r >= len + 1, "the size announced for %llu bytes is %d, and %zu are needed", (unsigned long long) n, r, len + 1);
    else if(len > INT_MAX) {
        CHECK(r < 0, "the size announced for %llu bytes is %d, although %zu does not fit", (unsigned long long) n, r, len);
        vf_label("text longer than INT_MAX");
    }
}

static void giant(void)
{
    u64 n = d_bool() ? 1610612000ull + d_below(700) : 1073741820ull + d_below(8);
    size_t len = ref_len(n, &std_opts), i, k;
    u8* in = (u8*) huge(n + 3);
    char* out = huge(len + 1), want[8];
    int r;
    for(k = 0; k < 40; k++) in[d_below(n)] = (u8) d_below(256);
    TRACE("encode %llu bytes", (unsigned long long) n);
    r = base64_encode(in, (unsigned) n, out, (unsigned) (len + 1), NULL);
    CHECK(r >= 0 && (size_t) r == len, "encoding %llu bytes gives %d and should give %zu", (unsigned long long) n, r, len);
    CHECK(out[len] == 0, "not terminated");
    for(i = 0; i < n / 3; i++) {
        u64 z[3], w[4];
        while(i + 8 <= n / 3 && (memcpy(z, in + 3 * i, 24), memcpy(w, out + 4 * i, 32), !(z[0] | z[1] | z[2])) && w[0] == 0x4141414141414141ull && w[1] == w[0] && w[2] == w[0] && w[3] == w[0]) i += 8;
        if(i >= n / 3) break;
        if(in[3 * i] | in[3 * i + 1] | in[3 * i + 2]) { ref_enc(in + 3 * i, 3, want, &std_opts); CHECK(memcmp(out + 4 * i, want, 4) == 0, "text at byte %zu is wrong", 3 * i); }
        else CHECK(memcmp(out + 4 * i, "AAAA", 4) == 0, "text at byte %zu is wrong", 3 * i);
    }
    ref_enc(in + n / 3 * 3, n % 3, want, &std_opts);
    CHECK(memcmp(out + n / 3 * 4, want, len - n / 3 * 4) == 0, "the tail is wrong");
    munmap(in, n + 3); munmap(out, len + 1);
    vf_label("gigabytes");
}

void vf_case(void)
{
    int three = 0, odd = 0;
    if(vf_profile == 2) { giant(); vf_nontrivial(); return; }
    sizes();
    do one(&three, &odd); while(d_more(4));
    if(three && odd) vf_nontrivial();
}

#elif defined VF_C30
const char vf_rule[] = "a text of at least 4 characters was decoded, and a text that is not well-formed was refused";

static int good, bad;

static void one(void)
{
    BASE64_OPTIONS own;
    const BASE64_OPTIONS* given = draw_opts(&own), *o = given ? given : &std_opts;
    size_t n = draw_n(), len, room, cap = n * 2 + 64, i;
    char* t = (char*) h_malloc(cap), *copy;
    u8* want;
    long expect;
    int big = roomy(), r, muts;
    char* out;
    u8 fill = (u8) d_below(256);
    if(d_chance(5, 6)) { /* a valid text, possibly changed somewhere */
        BASE64_OPTIONS w = *o;
        u8* b = draw_blob(n);
        if(d_bool()) w.pad = 0;
        len = ref_len(n, &w);
        ref_enc(b, n, t, &w);
        h_free(b);
        for(muts = d_bool() ? 0 : 1 + (int) d_below(3); muts > 0; muts--) {
            size_t at = (size_t) d_below(len + 1);
            if(d_chance(1, 3) && len) at = len - 1 - (len > 4 ? (size_t) d_below(4) : 0);
            switch(d_below(6)) {
                case 0: if(at < len) t[at] = (char) d_below(256); break;
                case 1: if(at < len) t[at] = o->pad ? o->pad : '='; break;
                case 2: if(at < len) { memmove(t + at, t + at + 1, len - at - 1); len--; } break;
                case 3: memmove(t + at + 1, t + at, len - at); t[at] = ref_digit((unsigned) d_below(64), o); len++; break;
                case 4: t[len++] = o->pad ? o->pad : '='; break;
                default: if(at < len) t[at] = ref_digit((unsigned) d_below(64), o);
            }
        }
    } else {
        len = (size_t) d_below(14);
        for(i = 0; i < len; i++) t[i] = d_chance(1, 5) ? o->pad : ref_digit((unsigned) (d_bool() ? d_below(64) : 0), o);
    }
    if(d_chance(1, 6)) t = embellish(t, &len);
    { char* e = (char*) h_dup(t, len); h_free(t); t = e; }
    copy = (char*) h_dup(t, len);
    want = (u8*) h_malloc(len + 4);
    expect = ref_dec(t, len, want, o);
    room = draw_room(expect >= 0 ? (size_t) expect : len / 4 * 3 + 3);
    out = big ? huge((size_t) UINT_MAX + 1) : out_new(room, fill);
    if(big) room = UINT_MAX;
    TRACE("decode %zu characters %s into room for %zu (%ld expected), dialect %02x %02x %02x", len, vf_hex(t, len), room, expect, (u8) o->ch62, (u8) o->ch63, (u8) o->pad);
    r = base64_decode(t, (unsigned) len, NULL, d_bool() ? 0 : (unsigned) d_u64(), given);
    if(expect >= 0) CHECK(r >= expect, "the size announced for the text %s is %d, and %ld are needed", vf_hex(t, len), r, expect);
    r = base64_decode(t, (unsigned) len, out, (unsigned) room, given);
    CHECK(memcmp(t, copy, len) == 0, "the decoded text was modified");
    if(expect < 0) { CHECK(r < 0, "decoding the text %s, which is not well-formed, gives %d", vf_hex(t, len), r); bad = 1; }
    else if(room < (size_t) expect) CHECK(r < 0, "decoding %ld bytes into room for %zu gives %d", expect, room, r);
    else {
        CHECK(r == expect, "decoding the text %s gives %d and should give %ld", vf_hex(t, len), r, expect);
        CHECK(memcmp(out, want, (size_t) expect) == 0, "decoding the text %s gives %s and should give %s", vf_hex(t, len), vf_hex(out, (size_t) expect), vf_hex(want, (size_t) expect));
        if(len >= 4) good = 1;
    }
    h_free(t); h_free(copy); h_free(want);
    if(big) munmap(out, (size_t) UINT_MAX + 1); else h_free(out);
}

/* texts whose bytes are too many for int */
static void endless(int last)
{
    size_t n = last ? (size_t) UINT_MAX - (size_t) d_below(4) : 2863311532ull + (size_t) d_below((u64) UINT_MAX - 2863311531ull), len, t1, t2;
    void* b1, *b2;
    char* in, *out;
    int r;
    if(n % 4 == 1) n--;
    len = n / 4 * 3 + (n % 4 ? n % 4 - 1 : 0);
    in = huge_view(n, 'A', &b1, &t1); out = huge_view(len, 'x', &b2, &t2);
    TRACE("decode %zu characters, for %zu bytes", n, len);
    r = base64_decode(in, (unsigned) n, NULL, 0, NULL);
    CHECK(r < 0, "the size announced for %zu characters is %d, although %zu does not fit", n, r, len);
    r = base64_decode(in, (unsigned) n, out, (unsigned) len, NULL);
    CHECK(r < 0, "decoding %zu characters gives %d, although %zu does not fit", n, r, len);
    munmap(b1, t1); munmap(b2, t2);
}

static void giant(void)
{
    size_t n = 2147483640ull + (size_t) d_below(16), len, i;
    char* in = huge(n);
    u8* out = (u8*) huge(n);
    int r;
    if(n % 4 == 1) n++;
    memset(in, 'A', n);
    for(i = 0; i < 40; i++) in[d_below(n - 8) & ~(size_t) 3] = 'B' + (char) d_below(20);
    len = n / 4 * 3 + (n % 4 ? n % 4 - 1 : 0);
    TRACE("decode %zu characters", n);
    r = base64_decode(in, (unsigned) n, out, (unsigned) len, NULL);
    CHECK(r >= 0 && (size_t) r == len, "decoding %zu characters gives %d and should give %zu", n, r, len);
    for(i = 0; i < n / 4; i++) {
        u64 z[3], w[4];
        while(i + 8 <= n / 4 && (memcpy(z, out + 3 * i, 24), memcpy(w, in + 4 * i, 32), !(z[0] | z[1] | z[2])) && w[0] == 0x4141414141414141ull && w[1] == w[0] && w[2] == w[0] && w[3] == w[0]) i += 8;
        if(i >= n / 4) break;
        CHECK(out[3 * i] == (u8) ((in[4 * i] - 'A') << 2) && out[3 * i + 1] == 0 && out[3 * i + 2] == 0, "byte %zu is wrong", 3 * i);
    }
    in[d_below(n)] = '*';
    r = base64_decode(in, (unsigned) n, out, (unsigned) len, NULL);
    CHECK(r < 0, "a foreign character among %zu is accepted", n);
    munmap(in, n); munmap(out, n);
    vf_label("gigabytes");
}

void vf_case(void)
{
    good = bad = 0;
    if(vf_profile == 2) { endless(1); endless(0); giant(); vf_nontrivial(); return; }
    do one(); while(d_more(4));
    if(good && bad) vf_nontrivial();
}

#elif defined VF_C31
const char vf_rule[] = "a blob of at least 2 bytes was encoded completely";

static int done;

static void one(void)
{
    size_t n = draw_n(), len = 2 * n, room = draw_room(len), i;
    u8* b = draw_blob(n), *copy = (u8*) h_dup(b, n);
    int lower = d_bool() ? (int) d_below(2) : (int) d_irange(INT_MIN, INT_MAX), big = roomy(), r;
    const char* dig = lower ? "0123456789abcdef" : "0123456789ABCDEF";
    u8 fill = (u8) d_below(256);
    char* out = big ? huge((size_t) UINT_MAX + 1) : out_new(room, fill);
    if(big) room = UINT_MAX;
    TRACE("encode %zu bytes %s into room for %zu, case %d", n, vf_hex(b, n), room, lower);
    r = hex_encode(b, (unsigned) n, NULL, d_bool() ? 0 : (unsigned) d_u64(), lower);
    CHECK(r >= 0 && (size_t) r == len + 1, "the size announced for %zu bytes is %d", n, r);
    r = hex_encode(b, (unsigned) n, out, (unsigned) room, lower);
    CHECK(memcmp(b, copy, n) == 0, "the encoded blob was modified");
    if(room < len) CHECK(r == -1, "encoding %zu bytes into room for %zu gives %d", n, room, r);
    else {
        CHECK(r >= 0 && (size_t) r == len, "encoding %zu bytes into room for %zu gives %d and should give %zu", n, room, r, len);
        for(i = 0; i < len; i++) CHECK(out[i] == dig[b[i / 2] >> (i % 2 ? 0 : 4) & 15], "digit %zu of %s is 0x%02x", i, vf_hex(b, n), (u8) out[i]);
        if(room > len) CHECK(out[len] == 0, "the text of %zu bytes is not terminated", n);
        if(n >= 2) done = 1;
    }
    h_free(b); h_free(copy);
    if(big) munmap(out, (size_t) UINT_MAX + 1); else h_free(out);
}

static void sizes(void)
{
    u64 n = d_chance(1, 2) ? (u32) d_u64() : d_chance(1, 2) ? (1ull << 30) - 8 + d_below(16) : (u64) UINT_MAX - d_below(60);
    u8 b[4] = { 1, 2, 3, 4 };
    int r = hex_encode(b, (unsigned) n, NULL, 0, 0);
    TRACE("announced size of %llu bytes: %d", (unsigned long long) n, r);
    if(2 * n + 1 <= INT_MAX) CHECK(r >= 0 && (u64) r == 2 * n + 1, "the size announced for %llu bytes is %d", (unsigned long long) n, r);
    else { CHECK(r == -1, "the size announced for %llu bytes is %d", (unsigned long long) n, r); vf_label("text longer than INT_MAX"); }
}

static void giant(void)
{
    u64 n = (1ull << 30) - 1 - d_below(4), i;
    u8* in = (u8*) huge(n);
    char* out = huge(2 * n + 1);
    int r;
    for(i = 0; i < 40; i++) in[d_below(n)] = (u8) d_below(256);
    in[n - 1] = 0xa5;
    TRACE("encode %llu bytes", (unsigned long long) n);
    r = hex_encode(in, (unsigned) n, out, (unsigned) (2 * n + 1), 1);
    CHECK(r >= 0 && (u64) r == 2 * n, "encoding %llu bytes gives %d", (unsigned long long) n, r);
    CHECK(out[2 * n] == 0, "not terminated");
    for(i = 0; i < n; i++) {
        u64 z, w[2];
        while(i + 8 <= n && (memcpy(&z, in + i, 8), memcpy(w, out + 2 * i, 16), !z) && w[0] == 0x3030303030303030ull && w[1] == w[0]) i += 8;
        if(i >= n) break;
        CHECK(out[2 * i] == "0123456789abcdef"[in[i] >> 4] && out[2 * i + 1] == "0123456789abcdef"[in[i] & 15], "the text of byte %llu is wrong", (unsigned long long) i);
    }
    munmap(in, n); munmap(out, 2 * n + 1);
    vf_label("gigabytes");
}

void vf_case(void)
{
    done = 0;
    if(vf_profile == 2) { giant(); vf_nontrivial(); return; }
    sizes();
    do one(); while(d_more(4));
    if(done) vf_nontrivial();
}

#else /* VF_C32 */
const char vf_rule[] = "a text of at least 4 digits was decoded, and a text that is no such notation was refused";

static int good, bad;
static int hexval(char c)
{
    switch(c) {
        case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': return c - '0';
        case 'a': case 'A': return 10; case 'b': case 'B': return 11; case 'c': case 'C': return 12;
        case 'd': case 'D': return 13; case 'e': case 'E': return 14; case 'f': case 'F': return 15;
        default: return -1;
    }
}

static void one(void)
{
    size_t n = draw_n(), len = 2 * n, room, i, expect;
    u8* b = draw_blob(n);
    char* t = (char*) h_malloc(len + 8), *out, *copy;
    int ok = 1, r, muts, big = roomy();
    u64 s = d_seed();
    u8 fill = (u8) d_below(256);
    for(i = 0; i < len; i++) { t[i] = "0123456789abcdef"[b[i / 2] >> (i % 2 ? 0 : 4) & 15]; if((vf_next(&s) & 1) && t[i] >= 'a') t[i] -= 32; }
    for(muts = d_bool() ? 0 : 1 + (int) d_below(2); muts > 0; muts--) {
        static const char near_[] = "/:@G`gxX \0\xb0\xe1";
        size_t at = (size_t) d_below(len + 1);
        switch(d_below(4)) {
            case 0: if(at < len) t[at] = (char) d_below(256); break;
            case 1: if(at < len) t[at] = near_[d_below(12)]; break;
            case 2: if(at < len) { memmove(t + at, t + at + 1, len - at - 1); len--; } break;
            default: memmove(t + at + 1, t + at, len - at); t[at] = "0aF"[d_below(3)]; len++;
        }
    }
    if(d_chance(1, 6)) t = embellish(t, &len);
    { char* e = (char*) h_dup(t, len); h_free(t); t = e; }
    copy = (char*) h_dup(t, len);
    for(i = 0; i < len; i++) if(hexval(t[i]) < 0) ok = 0;
    if(len % 2) ok = 0;
    expect = len / 2;
    room = draw_room(expect);
    out = big ? huge((size_t) UINT_MAX + 1) : out_new(room, fill);
    if(big) room = UINT_MAX;
    TRACE("decode %zu characters %s into room for %zu", len, vf_hex(t, len), room);
    r = hex_decode(t, (unsigned) len, NULL, d_bool() ? 0 : (unsigned) d_u64());
    if(ok) CHECK(r >= 0 && (size_t) r == expect, "the size announced for %zu digits is %d", len, r);
    r = hex_decode(t, (unsigned) len, out, (unsigned) room);
    CHECK(memcmp(t, copy, len) == 0, "the decoded text was modified");
    if(!ok) { CHECK(r == -1, "decoding %s, which is no hexadecimal notation, gives %d", vf_hex(t, len), r); bad = 1; }
    else if(room < expect) CHECK(r == -1, "decoding %zu bytes into room for %zu gives %d", expect, room, r);
    else {
        CHECK(r >= 0 && (size_t) r == expect, "decoding %zu digits gives %d", len, r);
        for(i = 0; i < expect; i++) CHECK((u8) out[i] == hexval(t[2 * i]) * 16 + hexval(t[2 * i + 1]), "byte %zu of %s is 0x%02x", i, vf_hex(t, len), (u8) out[i]);
        if(!big) for(i = expect; i < room; i++) CHECK((u8) out[i] == fill, "a byte after the %zu decoded ones was written", expect);
        if(len >= 4) good = 1;
    }
    h_free(b); h_free(t); h_free(copy);
    if(big) munmap(out, (size_t) UINT_MAX + 1); else h_free(out);
}

static void giant(void)
{
    size_t n = (d_bool() ? 1073741820ull : 1100000000ull) + (size_t) d_below(8), i;
    char* in = huge(2 * n);
    u8* out = (u8*) huge(n);
    int r;
    memset(in, '0', 2 * n);
    for(i = 0; i < 40; i++) in[d_below(2 * n)] = "123456789abcdefABCDEF"[d_below(21)];
    in[2 * n - 1] = 'f';
    TRACE("decode %zu digits", 2 * n);
    r = hex_decode(in, (unsigned) (2 * n), NULL, 0);
    CHECK(r >= 0 && (size_t) r == n, "the size announced for %zu digits is %d", 2 * n, r);
    r = hex_decode(in, (unsigned) (2 * n), out, (unsigned) n);
    CHECK(r >= 0 && (size_t) r == n, "decoding %zu digits gives %d", 2 * n, r);
    for(i = 0; i < n; i++) {
        u64 z, w[2];
        while(i + 8 <= n && (memcpy(&z, out + i, 8), memcpy(w, in + 2 * i, 16), !z) && w[0] == 0x3030303030303030ull && w[1] == w[0]) i += 8;
        if(i >= n) break;
        CHECK(out[i] == hexval(in[2 * i]) * 16 + hexval(in[2 * i + 1]), "byte %zu is wrong", i);
    }
    munmap(in, 2 * n); munmap(out, n);
    vf_label("gigabytes");
}

void vf_case(void)
{
    good = bad = 0;
    if(vf_profile == 2) { giant(); vf_nontrivial(); return; }
    do one(); while(d_more(4));
    if(good && bad) vf_nontrivial();
}
#endif
