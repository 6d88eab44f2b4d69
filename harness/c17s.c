/* C17 (static part): one program linked against every variant, through the
 * shipped API headers (one translation unit per header). */
#include "spec.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "c17api.h"
extern const api api_ref[3], api_avx2[3];
static uint8_t R[64]; static size_t rp; void randombytes(uint8_t*o,size_t n); void randombytes(uint8_t*o,size_t n){ for(size_t i=0;i<n;i++) o[i]=R[rp++&63]; }
static void fill(uint8_t*p,size_t n,unsigned s){ for(size_t i=0;i<n;i++){ s=s*1664525u+1013904223u; p[i]=s>>24; } }
static int fails; static void bad(const char*im,int K,const char*w){ printf("BAD kyber%d %s: %s\n",256*K,im,w); fails++; }
int main(void){ if(spec_selftest()) return 2; for(int round=0;round<3;round++) for(int j=0;j<6;j++){ int i=round==1?5-j:j; const api*a=i<3?&api_ref[i]:&api_avx2[i-3]; const char*im=i<3?"ref":"avx2"; int K=i%3+2;
  if(a->pk!=spec_pkbytes(K)||a->sk!=spec_skbytes(K)||a->ct!=spec_ctbytes(K)||a->kc!=64||a->ec!=32||a->ss!=32){ bad(im,K,"a size in the API header is wrong"); continue; }
  static uint8_t pk[1568],sk[3168],ct[1568],ss[32],ct2[1568],ssr[32]; uint8_t *co=malloc(a->kc),*m=malloc(a->ec); fill(co,a->kc,i+round*7+1); fill(m,a->ec,i+round*11+100); spec_keypair(K,co,pk,sk); spec_enc(K,pk,m,ct,ss); memcpy(ct2,ct,1568); ct2[3]^=1; spec_dec(K,sk,ct2,ssr);
  uint8_t *p=malloc(a->pk),*s=malloc(a->sk),*c=malloc(a->ct),*k=malloc(a->ss);
  if(a->kpd(p,s,co)||memcmp(p,pk,a->pk)||memcmp(s,sk,a->sk)) bad(im,K,"keypair_derand gives a wrong result");
  if(a->ed(c,k,pk,m)||memcmp(c,ct,a->ct)||memcmp(k,ss,32)) bad(im,K,"enc_derand gives a wrong result");
  if(a->d(k,ct,sk)||memcmp(k,ss,32)) bad(im,K,"dec gives a wrong result"); if(a->d(k,ct2,sk)||memcmp(k,ssr,32)) bad(im,K,"dec (rejecting) gives a wrong result");
  memcpy(R,co,64); rp=0; if(a->kp(p,s)||memcmp(p,pk,a->pk)||memcmp(s,sk,a->sk)) bad(im,K,"keypair gives a wrong result"); memcpy(R,m,32); rp=0; if(a->e(c,k,pk)||memcmp(c,ct,a->ct)||memcmp(k,ss,32)) bad(im,K,"enc gives a wrong result");
  free(co); free(m); free(p); free(s); free(c); free(k); }
 return fails?1:0; }
