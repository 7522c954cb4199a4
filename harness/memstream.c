/* C42-C43: the read-only memory stream, on a stand-in for the Windows headers. */
#include "pbt.h"
#include "memstream.h"
#include "huge.h"
#include <pthread.h>

const char vf_property[] = VF_PROPERTY;

/* ---------------- what Windows provides ---------------- */
const IID IID_IUnknown = { 0, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ISequentialStream = { 0x0c733a30, 0x2a1c, 0x11ce, { 0xad, 0xe5, 0, 0xaa, 0, 0x44, 0x77, 0x3d } };
const IID IID_IStream = { 0x0000000c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IDispatch = { 0x00020400, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IStorage = { 0x0000000b, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IPersist = { 0x0000010c, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_IMarshal = { 0x00000003, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
const IID IID_ILockBytes = { 0x0000000a, 0, 0, { 0xC0, 0, 0, 0, 0, 0, 0, 0x46 } };
static DWORD last_error;
DWORD GetLastError(void) { return last_error; }
void SetLastError(DWORD e) { last_error = e; }

typedef struct RES { void* mod; const WCHAR* type; const WCHAR* name; u8* data; DWORD size; int handle, global; } RES;
static RES res[4]; static int n_res, res_fail, res_error;
static RES* by_handle(void* h) { int k; for(k = 0; k < n_res; k++) if(h == &res[k].handle) return &res[k]; return NULL; }
static RES* by_global(void* h) { int k; for(k = 0; k < n_res; k++) if(h == &res[k].global) return &res[k]; return NULL; }
HRSRC FindResourceW(HMODULE mod, LPCWSTR name, LPCWSTR type)
{
    int k;
    if(res_fail == 1) { last_error = (DWORD) res_error; return NULL; }
    for(k = 0; k < n_res; k++) if(res[k].mod == mod && res[k].type == type && res[k].name == name) return &res[k].handle;
    last_error = ERROR_RESOURCE_NAME_NOT_FOUND;
    return NULL;
}
DWORD SizeofResource(HMODULE mod, HRSRC h)
{
    RES* r = by_handle(h);
    if(res_fail == 2) { last_error = (DWORD) res_error; return 0; }
    if(r == NULL || r->mod != mod) { last_error = ERROR_RESOURCE_DATA_NOT_FOUND; return 0; }
    return r->size;                             /* the last error stays, also for an empty one */
}
HGLOBAL LoadResource(HMODULE mod, HRSRC h)
{
    RES* r = by_handle(h);
    if(res_fail == 3) { last_error = (DWORD) res_error; return NULL; }
    if(r == NULL || r->mod != mod) { last_error = ERROR_RESOURCE_DATA_NOT_FOUND; return NULL; }
    return &r->global;
}
LPVOID LockResource(HGLOBAL g)
{
    RES* r = by_global(g);
    if(res_fail == 4) return NULL;              /* documented to set no error */
    return r ? r->data : NULL;
}
BOOL FreeResource(HGLOBAL g) { return FALSE; }

/* ---------------- data ---------------- */
/* 4 GB, with bytes other than zero around some places. */
static u8* vast;
static u8 vast_byte(u64 i) { u64 m = (i + 64) & 0x0fffffff; return m < 128 || i >= 0xffffff80u ? (u8) (1 + vf_mix(i) % 255) : 0; }
static void vast_make(void)
{
    u64 k, i;
    if(vast) return;
    vast = (u8*) mmap(NULL, (size_t) 1 << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if((void*) vast == MAP_FAILED) { fprintf(stderr, "no address space\n"); exit(3); }
    for(k = 0; k <= 16; k++) for(i = k << 28 > 64 ? (k << 28) - 64 : 0; i < (k << 28) + 64 && i < (u64) 1 << 32; i++) vast[i] = vast_byte(i);
    for(i = 0xffffff80u; i <= 0xffffffffu; i++) vast[i] = vast_byte(i);
    mprotect(vast, (size_t) 1 << 32, PROT_READ);
}
typedef struct DATA { const u8* p; u32 n; int vast; } DATA;
static void draw_data(DATA* d)
{
    d->vast = d_chance(1, 6);
    if(d->vast) {
        vast_make();
        d->n = d_bool() ? 0xffffffffu - (u32) d_below(40) : (u32) ((1 + d_below(15)) << 28) + (u32) d_below(80) - 40;
        d->p = vast;
    } else {
        u64 s = d_seed(); u32 i;
        u8* b;
        d->n = d_chance(1, 4) ? (u32) d_below(4000) : (u32) d_below(60);
        b = (u8*) h_malloc(d->n);
        for(i = 0; i < d->n; i++) b[i] = (u8) vf_next(&s);
        d->p = b;
    }
}
static u64 draw_near(u64 n)    /* a count or position around something */
{
    switch(D_WEIGHTED(5, 3, 2, 1)) {
        case 0: return d_below(30);
        case 1: return n + d_below(20) - (n > 10 ? 10 : 0);
        case 2: return d_below(n + 1);
        default: return d_u64();
    }
}

/* ---------------- a stream and what it should be ---------------- */
typedef struct ST { IStream* s; DATA d; u64 pos; int refs; } ST;

static u64 where(ST* x)
{
    LARGE_INTEGER z; ULARGE_INTEGER p; HRESULT hr;
    z.QuadPart = 0; p.QuadPart = 0xa5a5a5a5a5a5a5a5ull;
    hr = IStream_Seek(x->s, z, STREAM_SEEK_CUR, &p);
    CHECK(SUCCEEDED(hr), "asking for the position fails with %08x", (unsigned) hr);
    return p.QuadPart;
}
static void at(ST* x, const char* when) { u64 p = where(x); CHECK(p == x->pos, "%s the position is %llu and should be %llu", when, (unsigned long long) p, (unsigned long long) x->pos); }

static void do_read(ST* x)
{
    u64 left = x->pos < x->d.n ? x->d.n - x->pos : 0, i;
    u64 want = draw_near(left), got;
    u32 n = want > 0xffffffffu ? 0xffffffffu - (u32) d_below(20) : (u32) want, cnt = 0xabababab;
    HRESULT hr;
    int counted = !d_chance(1, 5);
    u8* buf;
    if(x->d.vast && left > 70000 && n > 70000) n = (u32) d_below(70000);
    got = n < left ? n : left;
    buf = n <= 100000 ? (u8*) h_malloc(n) : (u8*) huge((size_t) n);
    hr = IStream_Read(x->s, buf, n, counted ? &cnt : NULL);
    TRACE("read %u at %llu of %u: %08x, %u", n, (unsigned long long) x->pos, x->d.n, (unsigned) hr, cnt);
    if(n > 0 && got == n) CHECK(hr == S_OK, "reading %u bytes of %llu gives %08x", n, (unsigned long long) left, (unsigned) hr);
    else if(n > 0 && left == 0) CHECK(hr == S_FALSE, "reading at the end gives %08x", (unsigned) hr);
    else CHECK(SUCCEEDED(hr), "reading %u bytes of %llu gives %08x", n, (unsigned long long) left, (unsigned) hr);
    if(counted) CHECK(cnt == got, "reading %u bytes of %llu reports %u", n, (unsigned long long) left, cnt);
    for(i = 0; i < got; i++) CHECK(buf[i] == x->d.p[x->pos + i], "byte %llu of a read at %llu is 0x%02x and should be 0x%02x", (unsigned long long) i, (unsigned long long) x->pos, buf[i], x->d.p[x->pos + i]);
    x->pos += got;
    if(n <= 100000) h_free(buf); else munmap(buf, n);
    if(got) vf_label("bytes were read"); else vf_label("read at the end");
}
static int do_seek(ST* x)
{
    DWORD origin = d_chance(1, 12) ? (d_bool() ? 3 + (DWORD) d_below(5) : (DWORD) d_u64() | 0x100) : (DWORD) d_below(3);
    __int128 base = origin == STREAM_SEEK_SET ? 0 : origin == STREAM_SEEK_CUR ? (__int128) x->pos : (__int128) x->d.n, to;
    LARGE_INTEGER delta; ULARGE_INTEGER np; HRESULT hr;
    int told = !d_chance(1, 5), ok;
    u64 target;
    switch(D_WEIGHTED(5, 3, 2, 2, 2)) {
        case 0: target = draw_near(x->d.n); delta.QuadPart = (LONGLONG) (target - (u64) base); break;
        case 1: target = (u64) d_irange(-12, 12); delta.QuadPart = (LONGLONG) target; break;
        case 2: target = ((u64) 1 << 32) + d_below(20) - 10; delta.QuadPart = (LONGLONG) (target - (u64) base); break;
        case 3: target = d_below(16) - 8; delta.QuadPart = (LONGLONG) (target - (u64) base); break;
        default: delta.QuadPart = (LONGLONG) d_u64();
    }
    to = base + delta.QuadPart;
    ok = origin <= 2 && to >= 0 && to <= 0xffffffffu;
    np.QuadPart = 0x7777777777777777ull;
    hr = IStream_Seek(x->s, delta, origin, told ? &np : NULL);
    TRACE("seek by %lld from %u at %llu of %u: %08x", (long long) delta.QuadPart, origin, (unsigned long long) x->pos, x->d.n, (unsigned) hr);
    if(ok) {
        CHECK(hr == S_OK, "a seek by %lld from origin %u, to %llu, gives %08x", (long long) delta.QuadPart, origin, (unsigned long long) to, (unsigned) hr);
        x->pos = (u64) to;
        if(told) CHECK(np.QuadPart == x->pos, "a seek to %llu reports %llu", (unsigned long long) x->pos, (unsigned long long) np.QuadPart);
        if(x->pos > x->d.n) vf_label("beyond the end");
    } else {
        CHECK(FAILED(hr), "a seek by %lld from origin %u at %llu of %u gives %08x", (long long) delta.QuadPart, origin, (unsigned long long) x->pos, x->d.n, (unsigned) hr);
        vf_label("refused seek");
    }
    at(x, "after a seek");
    return ok;
}
static void release(ST* x)
{
    size_t live = vf_live_blocks(); ULONG r = IStream_Release(x->s);
    x->refs--;
    TRACE("release: %u", r);
    CHECK((r == 0) == (x->refs == 0), "a release with %d references left gives %u", x->refs, r);
    CHECK(vf_live_blocks() == live - (x->refs == 0), "a release with %d references left %s memory", x->refs, x->refs ? "frees" : "does not free");
}

#ifdef VF_C42
const char vf_rule[] = "data were read after a successful seek, and a read reached the end or a seek was refused";

static void giant(void)
{
    ST x; LARGE_INTEGER d; u32 cnt = 0, n, k; u64 i; u8* buf; HRESULT hr;
    vast_make();
    memset(&x, 0, sizeof(x));
    x.d.p = vast; x.d.n = 0xffffffffu - (u32) d_below(3);
    CHECK(memstream_create(vast, x.d.n, &x.s) == S_OK && x.s, "no stream");
    x.refs = 1;
    n = d_bool() ? 0xffffffffu : 0x80000000u + (u32) d_below(100);
    d.QuadPart = (LONGLONG) (x.pos = d_below(50));
    CHECK(IStream_Seek(x.s, d, STREAM_SEEK_SET, NULL) == S_OK, "seek");
    buf = (u8*) huge(n);
    hr = IStream_Read(x.s, buf, n, &cnt);
    TRACE("read %u at %llu of %u: %08x, %u", n, (unsigned long long) x.pos, x.d.n, (unsigned) hr, cnt);
    k = n < x.d.n - x.pos ? n : (u32) (x.d.n - x.pos);
    CHECK(SUCCEEDED(hr) && cnt == k, "a read of %u bytes gives %08x, %u", n, (unsigned) hr, cnt);
    for(i = 0; i < k; i += (i & 0x0fffffff) > 0x1000 && (i & 0x0fffffff) < 0x0fffe000 && i + 4096 < k - 8192 ? 4096 : 1)
        CHECK(buf[i] == vast[x.pos + i], "byte %llu is wrong", (unsigned long long) i);
    x.pos += k;
    at(&x, "after the read");
    release(&x);
    munmap(buf, n);
    vf_label("gigabytes");
    vf_nontrivial();
}

void vf_case(void)
{
    ST x[3]; int n = 1 + (int) d_below(3), k, seeked = 0, good = 0, edge = 0, ops = 0;
    unsigned avg = d_avg();
    if(vf_profile == 2) { giant(); return; }
    for(k = 0; k < n; k++) {
        memset(&x[k], 0, sizeof(x[k]));
        draw_data(&x[k].d);
        CHECK(memstream_create(x[k].d.p, x[k].d.n, &x[k].s) == S_OK && x[k].s != NULL, "no stream over %u bytes", x[k].d.n);
        x[k].refs = 1;
        TRACE("stream %d over %u bytes", k, x[k].d.n);
        at(&x[k], "at first");
    }
    while(d_more(avg) && ops++ < 2000) {
        ST* y = &x[d_below((u64) n)];
        if(d_chance(2, 5)) { if(do_seek(y)) seeked = 1; else edge = 1; }
        else { u64 p = y->pos; do_read(y); if(y->pos != p && seeked) good = 1; if(y->pos >= y->d.n) edge = 1; }
        if(d_chance(1, 3)) at(y, "later");
    }
    for(k = 0; k < n; k++) { at(&x[k], "in the end"); release(&x[k]); }
    if(good && edge) vf_nontrivial();
}

#else /* VF_C43 */
const char vf_rule[] = "bytes were copied to another stream, a clone was used after its original moved or ended, and something was refused";

/* A stream which takes what is written. */
typedef struct SINK { IStream i; u8* b; size_t n, cap, room, short_at; HRESULT fail; int fail_at, writes, refs, ok_code; u64 vast_from; u64 total; int is_vast; } SINK;
static HRESULT sink_qi(IStream* s, REFIID i, void** o) { *o = NULL; return E_NOINTERFACE; }
static ULONG sink_add(IStream* s) { return (ULONG) ++((SINK*) s)->refs; }
static ULONG sink_rel(IStream* s) { return (ULONG) --((SINK*) s)->refs; }
static HRESULT sink_read(IStream* s, void* b, ULONG n, ULONG* r) { vf_fail("the target of the copying is read"); }
static HRESULT sink_write(IStream* s, const void* b, ULONG n, ULONG* w)
{
    SINK* k = (SINK*) s;
    ULONG take = n;
    CHECK(n == 0 || b != NULL, "%u bytes from nowhere are written", n);
    if(k->writes++ == k->fail_at) { if(w) *w = d_bool() ? 0 : n / 2; return k->fail; }
    if(take > k->short_at) take = (ULONG) k->short_at;
    if(k->is_vast) {
        u64 i;
        for(i = 0; i < take; i += i > 300 && i + 5000 < take ? 4096 : 1) CHECK(((const u8*) b)[i] == vast[k->vast_from + k->total + i], "byte %llu of a copy is wrong", (unsigned long long) i);
    } else {
        k->b = (u8*) h_realloc(k->b, k->n + take + 1);
        memcpy(k->b + k->n, b, take);
        k->n += take;
    }
    k->total += take;
    if(w) *w = take;
    return k->ok_code ? S_FALSE : S_OK;
}
static HRESULT sink_seek(IStream* s, LARGE_INTEGER d, DWORD o, ULARGE_INTEGER* p) { return E_NOTIMPL; }
static HRESULT sink_size(IStream* s, ULARGE_INTEGER n) { return S_OK; }
static HRESULT sink_copy(IStream* s, IStream* t, ULARGE_INTEGER n, ULARGE_INTEGER* r, ULARGE_INTEGER* w) { return E_NOTIMPL; }
static HRESULT sink_commit(IStream* s, DWORD f) { return S_OK; }
static HRESULT sink_revert(IStream* s) { return S_OK; }
static HRESULT sink_lock(IStream* s, ULARGE_INTEGER o, ULARGE_INTEGER n, DWORD t) { return S_OK; }
static HRESULT sink_stat(IStream* s, STATSTG* st, DWORD f) { return E_NOTIMPL; }
static HRESULT sink_clone(IStream* s, IStream** o) { *o = NULL; return E_NOTIMPL; }
static IStreamVtbl sink_vtbl = { sink_qi, sink_add, sink_rel, sink_read, sink_write, sink_seek, sink_size, sink_copy, sink_commit, sink_revert, sink_lock, sink_lock, sink_stat, sink_clone };

#define MAXS 6
static ST st[MAXS]; static int n_st;
static int copied, cloned, refused;

static void seek_set(ST* x, u64 to)
{
    LARGE_INTEGER d; d.QuadPart = (LONGLONG) to;
    CHECK(IStream_Seek(x->s, d, STREAM_SEEK_SET, NULL) == S_OK, "a seek to %llu fails", (unsigned long long) to);
    x->pos = to;
    at(x, "after a seek");
}

static void do_copy(ST* x)
{
    SINK k; HRESULT hr;
    u64 left = x->pos < x->d.n ? x->d.n - x->pos : 0, done;
    ULARGE_INTEGER n, r, w;
    int tell_r = !d_chance(1, 4), tell_w = !d_chance(1, 4);
    memset(&k, 0, sizeof(k));
    k.i.lpVtbl = &sink_vtbl; k.refs = 1; k.fail_at = -1; k.short_at = (size_t) -1;
    k.is_vast = x->d.vast; k.vast_from = x->pos;
    n.QuadPart = d_chance(1, 4) ? ((u64) 1 << 32) * (1 + d_below(5)) + d_below(10) : d_chance(1, 6) ? (u64) -1 : draw_near(left);
    if(k.is_vast && left > 70000 && !(vf_profile == 2)) { if(d_chance(7, 8)) n.QuadPart %= 70000; }
    done = n.QuadPart < left ? n.QuadPart : left;
    switch(D_WEIGHTED(6, 2, 2, 1)) {
        case 1: k.fail_at = 0; k.fail = d_bool() ? STG_E_MEDIUMFULL : d_bool() ? STG_E_WRITEFAULT : (HRESULT) 0x80041234u; break;
        case 2: k.short_at = (size_t) d_below(done + 2); break;
        case 3: k.ok_code = 1; break;
    }
    r.QuadPart = w.QuadPart = 0xa5a5a5a5a5a5a5a5ull;
    TRACE("copy %llu at %llu of %u%s", (unsigned long long) n.QuadPart, (unsigned long long) x->pos, x->d.n, k.fail_at == 0 ? ", the target fails" : k.short_at <= done ? ", the target takes less" : "");
    hr = IStream_CopyTo(x->s, &k.i, n, tell_r ? &r : NULL, tell_w ? &w : NULL);
    CHECK(k.refs == 1, "copying leaves references to the target");
    if(k.fail_at == 0 && k.writes > 0) {
        CHECK(hr == k.fail, "the target fails with %08x, and copying gives %08x", (unsigned) k.fail, (unsigned) hr);
        refused = 1; vf_label("failing target");
        seek_set(x, x->pos);
        return;
    }
    CHECK(SUCCEEDED(hr), "copying gives %08x", (unsigned) hr);
    if(k.short_at < done) { CHECK(k.total <= done && k.total >= k.short_at, "%llu bytes are written to a target which takes less", (unsigned long long) k.total); done = k.total; vf_label("target takes less"); }
    CHECK(k.total == done, "%llu bytes are copied and should be %llu", (unsigned long long) k.total, (unsigned long long) done);
    CHECK(k.is_vast || k.n == 0 || memcmp(k.b, x->d.p + x->pos, k.n) == 0, "the copied bytes are other ones");
    if(tell_r) CHECK(r.QuadPart == done, "copying %llu bytes reports %llu read", (unsigned long long) done, (unsigned long long) r.QuadPart);
    if(tell_w) CHECK(w.QuadPart == done, "copying %llu bytes reports %llu written", (unsigned long long) done, (unsigned long long) w.QuadPart);
    x->pos += done;
    at(x, "after copying");
    if(done) { copied = 1; vf_label("bytes were copied"); }
}
static void do_clone(ST* x)
{
    IStream* o = (IStream*) 0x10; HRESULT hr; size_t live = vf_live_blocks();
    int fail = d_chance(1, 5); u64 f0 = vf_alloc_failures();
    ST* y;
    if(n_st == MAXS) return;
    if(fail) vf_alloc_fail_at(1);
    hr = IStream_Clone(x->s, &o);
    vf_alloc_fail_none();
    TRACE("clone: %08x", (unsigned) hr);
    if(vf_alloc_failures() != f0) { CHECK(FAILED(hr) && o == NULL, "cloning without memory gives %08x and %s", (unsigned) hr, o ? "an object" : "no object"); CHECK(vf_live_blocks() == live, "memory is lost"); refused = 1; vf_label("refused clone"); return; }
    CHECK(SUCCEEDED(hr) && o != NULL && o != x->s, "cloning gives %08x", (unsigned) hr);
    y = &st[n_st++];
    *y = *x; y->s = o; y->refs = 1;
    at(y, "in a clone"); at(x, "after cloning");
    cloned = 1;
}
static void do_query(ST* x)
{
    static const IID* const ids[] = { &IID_IUnknown, &IID_ISequentialStream, &IID_IStream, &IID_IDispatch, &IID_IStorage, &IID_IPersist, &IID_IMarshal, &IID_ILockBytes };
    GUID g; void* o = (void*) 0x10; HRESULT hr; int k = (int) d_below(10), offered;
    if(k < 8) g = *ids[k];
    else { g = *ids[d_below(3)]; ((u8*) &g)[d_below(16)] ^= (u8) (1u << d_below(8)); }
    offered = memcmp(&g, ids[0], sizeof(g)) == 0 || memcmp(&g, ids[1], sizeof(g)) == 0 || memcmp(&g, ids[2], sizeof(g)) == 0;
    hr = IStream_QueryInterface(x->s, &g, &o);
    TRACE("query %s: %08x", vf_hex(&g, 16), (unsigned) hr);
    if(offered) { CHECK(hr == S_OK && o != NULL, "an interface it has is not offered: %08x", (unsigned) hr); CHECK(o == (void*) x->s, "an interface at another place"); x->refs++; }
    else { CHECK(hr == E_NOINTERFACE && o == NULL, "an interface it does not have, %s, gives %08x and %s", vf_hex(&g, 16), (unsigned) hr, o ? "an object" : "no object"); }
}
static void do_modify(ST* x)
{
    u8 b[16] = { 0 }; ULONG w = 77; ULARGE_INTEGER a, c; HRESULT hr = E_FAIL; const char* what = "";
    int counted = d_bool();
    a.QuadPart = draw_near(x->d.n); c.QuadPart = draw_near(x->d.n);
    switch(d_below(4)) {
        case 0: what = "writing"; hr = IStream_Write(x->s, b, (ULONG) d_below(17), counted ? &w : NULL); if(counted) CHECK(w == 0, "a refused write reports %u bytes", w); break;
        case 1: what = "resizing"; hr = IStream_SetSize(x->s, a); break;
        case 2: what = "locking"; hr = IStream_LockRegion(x->s, a, c, 1 + (DWORD) d_below(4)); break;
        default: what = "unlocking"; hr = IStream_UnlockRegion(x->s, a, c, 1 + (DWORD) d_below(4)); break;
    }
    TRACE("%s: %08x", what, (unsigned) hr);
    CHECK(FAILED(hr), "%s gives %08x", what, (unsigned) hr);
    at(x, "after a refused operation");
    refused = 1;
}
static void do_stat(ST* x)
{
    STATSTG s; HRESULT hr;
    memset(&s, 0x99, sizeof(s));
    hr = IStream_Stat(x->s, &s, d_bool() ? STATFLAG_NONAME : STATFLAG_DEFAULT);
    CHECK(hr == S_OK && s.cbSize.QuadPart == x->d.n && s.type == STGTY_STREAM, "the status of a stream of %u bytes is %08x, %llu bytes, type %u", x->d.n, (unsigned) hr, (unsigned long long) s.cbSize.QuadPart, s.type);
    CHECK((s.grfMode & 3) == STGM_READ && s.pwcsName == NULL && s.grfLocksSupported == 0, "the status of a stream allows more than reading");
    at(x, "after asking for the status");
    if(d_bool()) { CHECK(SUCCEEDED(IStream_Commit(x->s, 0)), "commit fails"); at(x, "after a commit"); }
    if(d_bool()) { CHECK(SUCCEEDED(IStream_Revert(x->s)), "revert fails"); at(x, "after a revert"); }
}
static void do_create(void)
{
    DATA d; IStream* o = (IStream*) 0x10; HRESULT hr; size_t live = vf_live_blocks();
    int fail = d_chance(1, 6); u64 f0 = vf_alloc_failures();
    if(n_st == MAXS) return;
    draw_data(&d);
    if(fail) vf_alloc_fail_at(1);
    hr = memstream_create(d.p, d.n, &o);
    vf_alloc_fail_none();
    TRACE("create over %u bytes: %08x", d.n, (unsigned) hr);
    if(vf_alloc_failures() != f0) { CHECK(FAILED(hr) && o == NULL, "creating without memory gives %08x and %s", (unsigned) hr, o ? "an object" : "no object"); CHECK(vf_live_blocks() == live, "memory is lost"); refused = 1; vf_label("refused create"); return; }
    CHECK(hr == S_OK && o != NULL, "creating gives %08x", (unsigned) hr);
    st[n_st].s = o; st[n_st].d = d; st[n_st].pos = 0; st[n_st].refs = 1; n_st++;
    at(&st[n_st - 1], "at first");
}
static void do_resource(void)
{
    IStream* o = (IStream*) 0x10; HRESULT hr; size_t live = vf_live_blocks(); int k, j, fail;
    static int mods[3]; static WCHAR names[3][4];
    u64 f0 = vf_alloc_failures();
    if(n_st == MAXS) return;
    n_res = 0;
    while(n_res < 3) {
        RES* r = &res[n_res];
        DATA d;
        r->mod = d_chance(1, 4) ? NULL : &mods[d_below(3)]; r->name = names[d_below(3)]; r->type = names[d_below(3)];
        for(k = 0; k < n_res; k++) if(res[k].mod == r->mod && res[k].name == r->name && res[k].type == r->type) break;
        do draw_data(&d); while(d.vast);
        r->data = (u8*) d.p; r->size = d.n;
        if(k == n_res) n_res++;
        else if(!d_more(4)) break;
    }
    k = (int) d_below((u64) n_res);
    res_fail = d_chance(1, 3) ? 1 + (int) d_below(4) : 0;
    res_error = d_bool() ? ERROR_RESOURCE_NAME_NOT_FOUND : 1 + (int) d_below(3000);
    last_error = d_bool() ? 0 : (DWORD) d_below(100);
    fail = d_chance(1, 8);
    if(fail) vf_alloc_fail_at(1);
    j = d_chance(1, 6);
    hr = memstream_create_from_resource((HINSTANCE) res[k].mod, res[k].type, j ? names[0] + 1 : res[k].name, &o);
    vf_alloc_fail_none();
    TRACE("create over resource %d of %u bytes%s%s: %08x", k, res[k].size, j ? ", another name" : "", res_fail ? ", which fails" : "", (unsigned) hr);
    if(vf_alloc_failures() != f0 || res_fail || j) {
        CHECK(FAILED(hr) && o == NULL, "creating over a resource which cannot be had gives %08x and %s", (unsigned) hr, o ? "an object" : "no object");
        CHECK(vf_live_blocks() == live, "memory is lost");
        if(j && res_fail == 0 && vf_alloc_failures() == f0) CHECK(hr == HRESULT_FROM_WIN32(ERROR_RESOURCE_NAME_NOT_FOUND), "a resource which is not there gives %08x", (unsigned) hr);
        if(res_fail >= 1 && res_fail <= 3 && !j && (res_fail == 2 || res[k].size) && vf_alloc_failures() == f0) CHECK(hr == HRESULT_FROM_WIN32((DWORD) res_error), "the error %d of the system is reported as %08x", res_error, (unsigned) hr);
        refused = 1; vf_label("refused resource");
        return;
    }
    if(res[k].size == 0 && o == NULL) { CHECK(FAILED(hr), "an empty resource gives %08x and no object", (unsigned) hr); vf_label("empty resource"); return; }
    CHECK(hr == S_OK && o != NULL, "creating over a resource gives %08x", (unsigned) hr);
    st[n_st].s = o; st[n_st].pos = 0; st[n_st].refs = 1; st[n_st].d.p = res[k].data; st[n_st].d.n = res[k].size; st[n_st].d.vast = 0; n_st++;
    at(&st[n_st - 1], "at first");
    do_stat(&st[n_st - 1]);
    vf_label("over a resource");
}

/* References taken and released by several threads at once. */
static int th_n; static ST* th_st;
static volatile int th_go;
static void* th_run(void* a)
{
    int i; void* o;
    while(!th_go) ;
    for(i = 0; i < th_n; i++) {
        if((i & 7) == 3) { if(IStream_QueryInterface(th_st->s, &IID_IStream, &o) != S_OK) break; } else IStream_AddRef(th_st->s);
        if((i & 15) != 15) IStream_Release(th_st->s);
    }
    return NULL;
}
static void do_threads(ST* x)
{
    pthread_t t[4]; int k, n = 3; ULONG r;
#ifdef VF_LIBFUZZER
    return;
#endif
    th_n = 3000 + (int) d_below(6000); th_st = x; th_go = 0;
    TRACE("%d threads with %d references each", n, th_n);
    for(k = 0; k < n; k++) if(pthread_create(&t[k], NULL, th_run, NULL) != 0) { n = k; break; }
    th_go = 1;
    for(k = 0; k < n; k++) pthread_join(t[k], NULL);
    x->refs += n * (th_n / 16);
    r = IStream_AddRef(x->s); x->refs++;
    CHECK(r == (ULONG) x->refs, "there are %u references after several threads took and released some, and should be %d", r, x->refs);
    while(x->refs > 2) release(x);
    vf_label("several threads");
}

void vf_case(void)
{
    unsigned avg = d_avg(); int ops = 0, k;
    n_st = 0; n_res = 0; res_fail = 0; copied = cloned = refused = 0;
    if(vf_profile == 2) { /* references by several threads */
        do { do_create(); } while(n_st == 0);
        do_threads(&st[0]);
        while(st[0].refs) release(&st[0]);
        vf_nontrivial();
        return;
    }
    do_create();
    while(d_more(avg) && ops++ < 1000) {
        ST* x = n_st ? &st[d_below((u64) n_st)] : NULL;
        ULONG r;
        if(x == NULL) { do_create(); continue; }
        switch(D_WEIGHTED(3, 4, 5, 3, 2, 3, 2, 2, 2, 2, 1)) {
            case 0: do_seek(x); break;
            case 1: do_read(x); break;
            case 2: do_copy(x); break;
            case 3: do_clone(x); break;
            case 4: r = IStream_AddRef(x->s); x->refs++; TRACE("add a reference: %u", r); CHECK(r == (ULONG) x->refs, "adding a reference gives %u of %d", r, x->refs); break;
            case 5: release(x); if(x->refs == 0) *x = st[--n_st]; break;
            case 6: do_query(x); break;
            case 7: do_modify(x); break;
            case 8: do_stat(x); break;
            case 9: do_resource(); break;
            default: do_create();
        }
        if(d_chance(1, 3)) for(k = 0; k < n_st; k++) at(&st[k], "later");
    }
    for(k = 0; k < n_st; k++) { at(&st[k], "in the end"); if(d_bool()) do_read(&st[k]); while(st[k].refs) release(&st[k]); }
    CHECK(vf_live_blocks() == 0, "memory is left");
    if(copied && cloned && refused) vf_nontrivial();
}
#endif
