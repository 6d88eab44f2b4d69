/* The specification's own rendering of test/test_vectors.c output (first n sets) */
#include "spec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static uint64_t st[25]; static unsigned pos=168;
static void rb(uint8_t *x,size_t n){ while(n--){ if(pos==168){ spec_keccak_f(st,24); pos=0; } *x++=((uint8_t*)st)[pos++]; } }
static void hx(const char *l,const uint8_t *b,size_t n){ static char o[8000]; static const char H[]="0123456789abcdef"; for(size_t i=0;i<n;i++){ o[2*i]=H[b[i]>>4]; o[2*i+1]=H[b[i]&15]; } o[2*n]='\n'; fputs(l,stdout); fwrite(o,1,2*n+1,stdout); }
int main(int c,char **v){ int K=atoi(v[1]); long n=atol(v[2]); (void)c; spec_init(); ((uint8_t*)st)[0]=0x1f; ((uint8_t*)st)[167]=0x80;
  uint8_t pk[1568],sk[3168],ct[1568],a[32],b[32],co[64];
  for(long i=0;i<n;i++){ rb(co,64); spec_keypair(K,co,pk,sk); hx("Public Key: ",pk,spec_pkbytes(K)); hx("Secret Key: ",sk,spec_skbytes(K)); rb(co,32); spec_enc(K,pk,co,ct,b); hx("Ciphertext: ",ct,spec_ctbytes(K)); hx("Shared Secret B: ",b,32); spec_dec(K,sk,ct,a); hx("Shared Secret A: ",a,32); rb(ct,spec_ctbytes(K)); spec_dec(K,sk,ct,a); hx("Pseudorandom shared Secret A: ",a,32); }
  return 0; }
