/* The stream over a piece of memory, with offsets of 64 bits. */
const IID IID_IUnknown = { 1 }, IID_ISequentialStream = { 2 }, IID_IStream = { 3 }, IID_IDispatch = { 4 }, IID_IStorage = { 5 }, IID_IPersist = { 6 }, IID_IMarshal = { 7 }, IID_ILockBytes = { 8 };
static DWORD nw_last; static unsigned nw_res_size; static unsigned char nw_res[300];
DWORD GetLastError(void) { return nw_last; }
void SetLastError(DWORD e) { nw_last = e; }
HRSRC FindResourceW(HMODULE mod, LPCWSTR name, LPCWSTR type) { (void) mod; (void) name; (void) type; if(nw_res_size == 0) { nw_last = ERROR_RESOURCE_NAME_NOT_FOUND; return NULL; } return (HRSRC) nw_res; }
DWORD SizeofResource(HMODULE mod, HRSRC res) { (void) mod; (void) res; return nw_res_size; }
HGLOBAL LoadResource(HMODULE mod, HRSRC res) { (void) mod; return (HGLOBAL) res; }
LPVOID LockResource(HGLOBAL g) { return (LPVOID) g; }
BOOL FreeResource(HGLOBAL g) { (void) g; return FALSE; }
static SC* nw_to_sc; static unsigned nw_to_limit;
static HRESULT STDMETHODCALLTYPE nw_to_write(IStream* self, const void* p, ULONG n, ULONG* written)
{
    (void) self;
    if(n > nw_to_limit) n = nw_to_limit;
    sc_mixb(nw_to_sc, p, n);
    if(written) *written = n;
    return sc_rnd(nw_to_sc, 6) == 0 ? STG_E_MEDIUMFULL : S_OK;
}
static uint64_t nw_memstream(uint64_t seed, unsigned steps)
{
    static const int64_t edge[] = { 0, 10, 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000010ll, 0x7fffffffffff0000ll };
    SC c0 = sc_start(seed); SC* c = &c0; unsigned char data[300]; IStream* s[4]; int n = 1, i; unsigned size = (unsigned) sc_rnd(c, 300);
    IStreamVtbl to; IStream target; HRESULT r;
    memset(&to, 0, sizeof(to)); to.Write = nw_to_write; target.lpVtbl = &to; nw_to_sc = c;
    sc_bytes(c, data, 300); memcpy(nw_res, data, 300); nw_res_size = size;
    if(sc_rnd(c, 3) == 0) { r = memstream_create_from_resource(NULL, NULL, NULL, &s[0]); sc_mix(c, FAILED(r)); if(FAILED(r)) return c->d; }
    else { r = memstream_create(data, size, &s[0]); sc_mix(c, FAILED(r)); if(FAILED(r)) return c->d; }
    while(steps-- > 0) {
        IStream* x = s[sc_rnd(c, (uint64_t) n)]; ULONG got = 7; unsigned char out[400]; ULARGE_INTEGER u, v, w; LARGE_INTEGER d; STATSTG st; void* o;
        switch(sc_rnd(c, 9)) {
            case 0: case 1: { ULONG k = (ULONG) sc_rnd(c, 120); sc_mix(c, (uint32_t) IStream_Read(x, out, k, &got)); sc_mix(c, got); if(got <= 400) sc_mixb(c, out, got); break; }
            case 2: case 3: { int64_t e = edge[sc_rnd(c, 8)] + (int64_t) sc_rnd(c, 60) - 30; if(sc_rnd(c, 3) == 0) e = -e; if(sc_rnd(c, 2)) e = (int64_t) sc_rnd(c, 400) - 100;
                      d.QuadPart = e; u.QuadPart = 5; r = IStream_Seek(x, d, (DWORD) sc_rnd(c, 4), &u); sc_mix(c, (uint32_t) r); if(SUCCEEDED(r)) sc_mix(c, u.QuadPart); break; }
            case 4: u.QuadPart = sc_rnd(c, 3) ? sc_rnd(c, 200) : (uint64_t) 0xfffffff0u + sc_rnd(c, 0x20) + (sc_rnd(c, 2) ? (uint64_t) 5 << 40 : 0); nw_to_limit = sc_rnd(c, 3) ? 1000 : 20; v.QuadPart = w.QuadPart = 9;
                    { ULARGE_INTEGER p0; d.QuadPart = 0; IStream_Seek(x, d, STREAM_SEEK_CUR, &p0);
                      r = IStream_CopyTo(x, &target, u, &v, &w); sc_mix(c, FAILED(r)); if(SUCCEEDED(r)) { sc_mix(c, v.QuadPart); sc_mix(c, w.QuadPart); } else { d.QuadPart = 0; IStream_Seek(x, d, STREAM_SEEK_SET, NULL); } } break;
            case 5: r = IStream_Stat(x, &st, STATFLAG_NONAME); sc_mix(c, (uint32_t) r); sc_mix(c, st.cbSize.QuadPart); sc_mix(c, st.type); break;
            case 6: if(n < 4) { r = IStream_Clone(x, &s[n]); sc_mix(c, (uint32_t) r); if(SUCCEEDED(r)) n++; } break;
            case 7: if(n > 1) { n--; sc_mix(c, IStream_Release(s[n])); } break;
            default: r = IStream_QueryInterface(x, sc_rnd(c, 2) ? &IID_IStream : &IID_IStorage, &o); sc_mix(c, (uint32_t) r); if(SUCCEEDED(r)) sc_mix(c, IStream_Release((IStream*) o)); break;
        }
    }
    for(i = 0; i < n; i++) sc_mix(c, IStream_Release(s[i]));
    return c->d;
}
