/* What <windows.h> provides, as far as the code under test and plausible versions of it need it.
 * The functions are defined by the harness. */
#ifndef VF_SHIM_WINDOWS_H
#define VF_SHIM_WINDOWS_H

#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <limits.h>

typedef uint8_t BYTE, *PBYTE, *LPBYTE;
typedef char CHAR, *LPSTR; typedef const char* LPCSTR;
typedef uint16_t WORD, USHORT; typedef int16_t SHORT;
typedef uint32_t DWORD, ULONG, UINT, *LPDWORD, *PULONG;
typedef int32_t LONG, BOOL, INT, HRESULT, SCODE, *PLONG;
typedef int64_t LONGLONG, LONG64, INT64; typedef uint64_t ULONGLONG, DWORDLONG, ULONG64, UINT64, DWORD64;
typedef intptr_t INT_PTR, LONG_PTR, SSIZE_T; typedef uintptr_t UINT_PTR, ULONG_PTR, DWORD_PTR, SIZE_T;
typedef uint16_t WCHAR, OLECHAR, *LPWSTR, *LPOLESTR; typedef const uint16_t* LPCWSTR;
typedef void VOID, *PVOID, *LPVOID; typedef const void* LPCVOID;
typedef unsigned char BOOLEAN;
typedef void *HANDLE, *HINSTANCE, *HMODULE, *HRSRC, *HGLOBAL;
typedef union _LARGE_INTEGER { struct { DWORD LowPart; LONG HighPart; }; struct { DWORD LowPart; LONG HighPart; } u; LONGLONG QuadPart; } LARGE_INTEGER;
typedef union _ULARGE_INTEGER { struct { DWORD LowPart; DWORD HighPart; }; struct { DWORD LowPart; DWORD HighPart; } u; ULONGLONG QuadPart; } ULARGE_INTEGER;
typedef struct _FILETIME { DWORD dwLowDateTime, dwHighDateTime; } FILETIME;
typedef struct _GUID { uint32_t Data1; uint16_t Data2, Data3; uint8_t Data4[8]; } GUID, IID, CLSID;
typedef const IID* REFIID; typedef const GUID* REFGUID; typedef const CLSID* REFCLSID;

#define TRUE  1
#define FALSE 0
#define CONST const
#define WINAPI
#define STDMETHODCALLTYPE
#define STDAPICALLTYPE
#define CALLBACK
#define MAXULONG  0xffffffffu
#define MAXDWORD  0xffffffffu
#define MAXLONG   0x7fffffff
#define MAXLONGLONG 0x7fffffffffffffffll
#define ULONG_MAX_ 0xffffffffu
#define UNREFERENCED_PARAMETER(x) ((void) (x))
#define ZeroMemory(p, n) memset((p), 0, (n))
#define FillMemory(p, n, c) memset((p), (c), (n))
#define CopyMemory(d, s, n) memcpy((d), (s), (n))
#define MoveMemory(d, s, n) memmove((d), (s), (n))

#define SUCCEEDED(hr) (((HRESULT) (hr)) >= 0)
#define FAILED(hr)    (((HRESULT) (hr)) < 0)
#define S_OK          ((HRESULT) 0)
#define S_FALSE       ((HRESULT) 1)
#define E_NOTIMPL     ((HRESULT) 0x80004001u)
#define E_NOINTERFACE ((HRESULT) 0x80004002u)
#define E_POINTER     ((HRESULT) 0x80004003u)
#define E_ABORT       ((HRESULT) 0x80004004u)
#define E_FAIL        ((HRESULT) 0x80004005u)
#define E_UNEXPECTED  ((HRESULT) 0x8000FFFFu)
#define E_ACCESSDENIED ((HRESULT) 0x80070005u)
#define E_HANDLE      ((HRESULT) 0x80070006u)
#define E_OUTOFMEMORY ((HRESULT) 0x8007000Eu)
#define E_INVALIDARG  ((HRESULT) 0x80070057u)
#define STG_E_INVALIDFUNCTION    ((HRESULT) 0x80030001u)
#define STG_E_ACCESSDENIED       ((HRESULT) 0x80030005u)
#define STG_E_INSUFFICIENTMEMORY ((HRESULT) 0x80030008u)
#define STG_E_INVALIDPOINTER     ((HRESULT) 0x80030009u)
#define STG_E_SEEKERROR          ((HRESULT) 0x80030019u)
#define STG_E_WRITEFAULT         ((HRESULT) 0x8003001Du)
#define STG_E_READFAULT          ((HRESULT) 0x8003001Eu)
#define STG_E_INVALIDPARAMETER   ((HRESULT) 0x80030057u)
#define STG_E_MEDIUMFULL         ((HRESULT) 0x80030070u)
#define STG_E_INVALIDFLAG        ((HRESULT) 0x800300FFu)
#define STG_E_REVERTED           ((HRESULT) 0x80030102u)
#define STG_E_CANTSAVE           ((HRESULT) 0x80030103u)
#define FACILITY_WIN32 7
#define ERROR_SUCCESS 0
#define ERROR_INVALID_HANDLE 6
#define ERROR_NOT_ENOUGH_MEMORY 8
#define ERROR_RESOURCE_DATA_NOT_FOUND 1812
#define ERROR_RESOURCE_TYPE_NOT_FOUND 1813
#define ERROR_RESOURCE_NAME_NOT_FOUND 1814
static inline HRESULT vf_from_win32(DWORD x) { return (HRESULT) x <= 0 ? (HRESULT) x : (HRESULT) ((x & 0xFFFF) | (FACILITY_WIN32 << 16) | 0x80000000u); }
#define HRESULT_FROM_WIN32(x) vf_from_win32(x)

#define InterlockedIncrement(p) ((LONG) __sync_add_and_fetch((p), 1))
#define InterlockedDecrement(p) ((LONG) __sync_sub_and_fetch((p), 1))
#define InterlockedExchange(p, v) ((LONG) __atomic_exchange_n((p), (v), __ATOMIC_SEQ_CST))
#define InterlockedExchangeAdd(p, v) ((LONG) __sync_fetch_and_add((p), (v)))
#define InterlockedCompareExchange(p, v, c) ((LONG) __sync_val_compare_and_swap((p), (c), (v)))

DWORD GetLastError(void);
void SetLastError(DWORD e);
HRSRC FindResourceW(HMODULE mod, LPCWSTR name, LPCWSTR type);
DWORD SizeofResource(HMODULE mod, HRSRC res);
HGLOBAL LoadResource(HMODULE mod, HRSRC res);
LPVOID LockResource(HGLOBAL g);
BOOL FreeResource(HGLOBAL g);
#define UnlockResource(g) ((g), 0)
#endif
