/* Writable memory of a loaded library: list, hash, save, restore. */
#ifndef SNAP_H
#define SNAP_H
#include <link.h>
#include <stdint.h>
typedef struct { uint8_t *p; size_t n; } seg;
typedef struct { seg s[8]; int n; int tls; size_t tlssz; } segs;
int snap_segs(void *dlhandle, segs *out);      /* writable, non-RELRO part */
#endif
