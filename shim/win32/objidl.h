/* What <objidl.h> provides: the C view of IUnknown, ISequentialStream and IStream. */
#ifndef VF_SHIM_OBJIDL_H
#define VF_SHIM_OBJIDL_H
#include <windows.h>

typedef struct tagSTATSTG {
    LPOLESTR pwcsName; DWORD type; ULARGE_INTEGER cbSize; FILETIME mtime, ctime, atime;
    DWORD grfMode, grfLocksSupported; CLSID clsid; DWORD grfStateBits, reserved;
} STATSTG;
typedef enum tagSTGTY { STGTY_STORAGE = 1, STGTY_STREAM = 2, STGTY_LOCKBYTES = 3, STGTY_PROPERTY = 4 } STGTY;
typedef enum tagSTREAM_SEEK { STREAM_SEEK_SET = 0, STREAM_SEEK_CUR = 1, STREAM_SEEK_END = 2 } STREAM_SEEK;
typedef enum tagSTATFLAG { STATFLAG_DEFAULT = 0, STATFLAG_NONAME = 1, STATFLAG_NOOPEN = 2 } STATFLAG;
#define STGM_READ       0
#define STGM_WRITE      1
#define STGM_READWRITE  2
#define STGM_SHARE_EXCLUSIVE 0x10

typedef struct IUnknown IUnknown; typedef struct ISequentialStream ISequentialStream; typedef struct IStream IStream;
typedef struct IStreamVtbl {
    HRESULT (STDMETHODCALLTYPE *QueryInterface)(IStream*, REFIID, void**);
    ULONG   (STDMETHODCALLTYPE *AddRef)(IStream*);
    ULONG   (STDMETHODCALLTYPE *Release)(IStream*);
    HRESULT (STDMETHODCALLTYPE *Read)(IStream*, void*, ULONG, ULONG*);
    HRESULT (STDMETHODCALLTYPE *Write)(IStream*, const void*, ULONG, ULONG*);
    HRESULT (STDMETHODCALLTYPE *Seek)(IStream*, LARGE_INTEGER, DWORD, ULARGE_INTEGER*);
    HRESULT (STDMETHODCALLTYPE *SetSize)(IStream*, ULARGE_INTEGER);
    HRESULT (STDMETHODCALLTYPE *CopyTo)(IStream*, IStream*, ULARGE_INTEGER, ULARGE_INTEGER*, ULARGE_INTEGER*);
    HRESULT (STDMETHODCALLTYPE *Commit)(IStream*, DWORD);
    HRESULT (STDMETHODCALLTYPE *Revert)(IStream*);
    HRESULT (STDMETHODCALLTYPE *LockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (STDMETHODCALLTYPE *UnlockRegion)(IStream*, ULARGE_INTEGER, ULARGE_INTEGER, DWORD);
    HRESULT (STDMETHODCALLTYPE *Stat)(IStream*, STATSTG*, DWORD);
    HRESULT (STDMETHODCALLTYPE *Clone)(IStream*, IStream**);
} IStreamVtbl;
struct IStream { IStreamVtbl* lpVtbl; };
#define IStream_QueryInterface(s, i, o) ((s)->lpVtbl->QueryInterface((s), (i), (o)))
#define IStream_AddRef(s)               ((s)->lpVtbl->AddRef(s))
#define IStream_Release(s)              ((s)->lpVtbl->Release(s))
#define IStream_Read(s, b, n, r)        ((s)->lpVtbl->Read((s), (b), (n), (r)))
#define IStream_Write(s, b, n, w)       ((s)->lpVtbl->Write((s), (b), (n), (w)))
#define IStream_Seek(s, d, o, p)        ((s)->lpVtbl->Seek((s), (d), (o), (p)))
#define IStream_SetSize(s, n)           ((s)->lpVtbl->SetSize((s), (n)))
#define IStream_CopyTo(s, t, n, r, w)   ((s)->lpVtbl->CopyTo((s), (t), (n), (r), (w)))
#define IStream_Commit(s, f)            ((s)->lpVtbl->Commit((s), (f)))
#define IStream_Revert(s)               ((s)->lpVtbl->Revert(s))
#define IStream_LockRegion(s, o, n, t)  ((s)->lpVtbl->LockRegion((s), (o), (n), (t)))
#define IStream_UnlockRegion(s, o, n, t) ((s)->lpVtbl->UnlockRegion((s), (o), (n), (t)))
#define IStream_Stat(s, st, f)          ((s)->lpVtbl->Stat((s), (st), (f)))
#define IStream_Clone(s, o)             ((s)->lpVtbl->Clone((s), (o)))

extern const IID IID_IUnknown, IID_ISequentialStream, IID_IStream, IID_IDispatch, IID_IStorage, IID_IPersist, IID_IMarshal, IID_ILockBytes;
#define IsEqualGUID(a, b) (memcmp((a), (b), sizeof(GUID)) == 0)
#define IsEqualIID(a, b) IsEqualGUID(a, b)
#endif
