#ifndef NARROW_H
#define NARROW_H
#include <stddef.h>
#ifndef NW_GUARD
#define NW_GUARD 1
#endif
extern size_t nw_live, nw_calls, nw_limit;
void nw_fail(const char* what);
#endif
