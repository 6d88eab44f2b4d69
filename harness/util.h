#ifndef UTIL_H
#define UTIL_H
#include "libs.h"
#include <sys/mman.h>
#include <unistd.h>
/* compare buffers, fail with context */
#define EQ(cond,...) do{ if(!(cond)) mc_fail(__VA_ARGS__); }while(0)
static inline long first_diff(const uint8_t *a,const uint8_t *b,size_t n){ for(size_t i=0;i<n;i++) if(a[i]!=b[i]) return (long)i; return -1; }
static inline void cmpb(const char *what,const kyber *k,const uint8_t *got,const uint8_t *want,size_t n,const char *ctx){
  if(memcmp(got,want,n)){ long d=first_diff(got,want,n); long lo=d>8?d-8:0; size_t m=n-lo<40?n-lo:40; mc_fail("%s %s differs from the specification at byte %ld: got[%ld..]=%s want=%s; case: %.6000s",k->name,what,d,lo,mc_hexs(got+lo,m),mc_hexs(want+lo,m),ctx); }
}
typedef struct { uint8_t pk[1568], sk[3168], ct[1568], ss[32]; } kset;
/* spec reference cached for a (K,tag): honest key + ciphertext */
static inline void honest(int K,uint64_t tag,kset *s){ uint8_t c[64],m[32]; mc_fill(c,64,tag*2+1000003*K); mc_fill(m,32,tag*2+1+1000003*K); spec_keypair(K,c,s->pk,s->sk); spec_enc(K,s->pk,m,s->ct,s->ss); }
static inline unsigned get12(const uint8_t *b,int i){ const uint8_t *p=b+3*(i/2); return i&1? (p[1]>>4)|(p[2]<<4) : p[0]|((p[1]&15)<<8); }
static inline void set12(uint8_t *b,int i,unsigned v){ uint8_t *p=b+3*(i/2); if(i&1){ p[1]=(p[1]&15)|((v&15)<<4); p[2]=v>>4; } else { p[0]=v; p[1]=(p[1]&0xf0)|(v>>8); } }
static inline unsigned getd(const uint8_t *b,int i,int d){ unsigned r=0; for(int k=0;k<d;k++){ int p=i*d+k; r|=(unsigned)(b[p>>3]>>(p&7)&1)<<k; } return r; }
static inline void setd(uint8_t *b,int i,int d,unsigned v){ for(int k=0;k<d;k++){ int p=i*d+k; b[p>>3]=(b[p>>3]&~(1<<(p&7)))|((v>>k&1)<<(p&7)); } }
int memfd_create(const char*,unsigned);
/* n bytes of address space showing the same w bytes over and over */
static inline uint8_t *alias_map(size_t n,size_t w,size_t *tot){ size_t t=(n+w-1)/w*w; int fd=memfd_create("w",0); if(fd<0) return NULL; if(ftruncate(fd,w)){ close(fd); return NULL; } uint8_t*m=mmap(NULL,t,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m==MAP_FAILED){ close(fd); return NULL; } for(size_t o=0;o<t;o+=w) if(mmap(m+o,w,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED){ munmap(m,t); close(fd); return NULL; } close(fd); *tot=t; return m; }
#endif
