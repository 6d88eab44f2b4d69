#ifndef STUB_WINCRYPT_H
#define STUB_WINCRYPT_H
#include "windows.h"
#define PROV_RSA_FULL 1
#define CRYPT_VERIFYCONTEXT 0xF0000000u
BOOL CryptAcquireContext(HCRYPTPROV *p, const char *c, const char *n, DWORD t, DWORD f);
BOOL CryptGenRandom(HCRYPTPROV p, DWORD n, BYTE *b);
BOOL CryptReleaseContext(HCRYPTPROV p, DWORD f);
#endif
