/* Chosen answers of the hash layer: every matrix entry and every noise
 * polynomial takes a value the harness picked. */
#ifndef FAKES_H
#define FAKES_H
#include "oracle.h"
#include "util.h"
static int16_t F_A[4][4][256];          /* [x][y]: entry whose stream is seeded rho||x||y */
static int8_t  F_N[2][9][256];          /* [0]=key generation, [1]=encryption; nonce */
static int F_phase, F_eta[2][9], F_var; /* F_var: which encoding of the same noise value */
static int F_rej;                       /* number of rejected candidates before each accepted one pattern */
static void f_xof(const uint8_t *s,uint8_t *out,size_t n,size_t off){
  static __thread uint8_t st[16*504]; int x=s[32],y=s[33]; 
  if(x>3||y>3){ for(size_t i=0;i<n;i++) out[i]=(uint8_t)(x*7+y*13+off+i); return; } /* dummy lanes of batched code */
  const int16_t *a=F_A[x][y]; size_t np=0; unsigned v[8192]; int m=0;
  for(int i=0;i<256;i++){ if(F_rej && (i%F_rej)==0) v[m++]=(i&1)?4095:3329; v[m++]=(unsigned)a[i]; }
  while(m<4096) { v[m]=(unsigned)(m*7%3329); m++; }
  for(int i=0;i+1<m;i+=2){ st[np++]=v[i]; st[np++]=(v[i]>>8)|(v[i+1]<<4); st[np++]=v[i+1]>>4; if(np>=off+n||np+3>sizeof st) break; }
  if(off+n>sizeof st) mc_fail("XOF asked for %zu bytes",off+n);
  memcpy(out,st+off,n);
}
static void f_enc_cbd(const int8_t *c,int eta,uint8_t *b){ memset(b,0,64*eta); for(int i=0;i<256;i++){ int v=c[i]; int p=v>0?v:0,q=v<0?-v:0; if(F_var==1||(F_var==2&&(i&1))){ int add=eta-(p>q?p:q); p+=add; q+=add; }
    for(int j=0;j<eta;j++){ int hi= F_var==3 ? j>=eta-p : j<p, ho= F_var==3? j>=eta-q : j<q; int a=2*i*eta+j,d=a+eta; if(hi) b[a>>3]|=1<<(a&7); if(ho) b[d>>3]|=1<<(d&7);} } }
static int F_K;
static void f_prf(const uint8_t *k,uint8_t *out,size_t n,size_t off){ uint8_t b[192+8]; int nonce=k[32]; memset(b,0,sizeof b);
  if(nonce>2*F_K){ /* the 4-way code may sample unused polynomials with further nonces */ memset(out,0x11,n); return; }
  int eta = F_phase==0? spec_eta1(F_K) : (nonce<F_K?spec_eta1(F_K):2);
  if(F_phase==0 && nonce>=2*F_K){ memset(out,0x11,n); return; }
  f_enc_cbd(F_N[F_phase][nonce],eta,b); for(size_t i=0;i<n;i++) out[i]= off+i<sizeof b? b[off+i]:0; }
static void f_reset(int K){ F_K=K; F_phase=0; F_var=0; F_rej=0; memset(F_A,0,sizeof F_A); memset(F_N,0,sizeof F_N); fake_xof=f_xof; fake_prf=f_prf; fake_g=NULL; fake_on(); }
/* value patterns for a polynomial: deterministic, indexed */
#define NMP 14
static void f_matpat(int16_t *a,int pat,uint64_t tag){ for(int i=0;i<256;i++) switch(pat){
  case 0: a[i]=0; break; case 1: a[i]=1; break; case 2: a[i]=3328; break; case 3: a[i]=1664; break; case 4: a[i]=1665; break; case 5: a[i]=i&1?3328:0; break;
  case 6: a[i]=i&1?0:3328; break; case 7: a[i]=i&1?1664:1665; break; case 8: a[i]=(i/2)&1?3328:1664; break; case 9: a[i]=(i/128)?3328:1; break;
  case 10: a[i]=i<2?3328:0; break; case 11: a[i]=i==255?3328:0; break; case 12: a[i]=(i*13)%3329; break;
  default: { a[i]=(int16_t)(mc_hash2(tag,i)%3329); } } }
#define NNP 12
static void f_noisepat(int8_t *c,int pat,int eta,uint64_t tag){ for(int i=0;i<256;i++) switch(pat){
  case 0: c[i]=0; break; case 1: c[i]=eta; break; case 2: c[i]=-eta; break; case 3: c[i]=i&1?-eta:eta; break; case 4: c[i]=i&1?eta:-eta; break;
  case 5: c[i]=i==0?eta:0; break; case 6: c[i]=i==255?-eta:0; break; case 7: c[i]=(i/16)&1?-eta:eta; break; case 8: c[i]=(i/128)?-eta:eta; break;
  case 9: c[i]=i<16?eta:0; break; case 10: c[i]=1; break;
  default: c[i]=(int8_t)((int)(mc_hash2(tag,i)%(2*eta+1))-eta); } }
#endif
