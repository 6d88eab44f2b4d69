/* just enough of the Windows API for the Win32 variant of randombytes.c */
#ifndef STUB_WINDOWS_H
#define STUB_WINDOWS_H
typedef unsigned long HCRYPTPROV; typedef int BOOL; typedef unsigned int DWORD; typedef unsigned char BYTE;
#define TRUE 1
#define FALSE 0
#endif
