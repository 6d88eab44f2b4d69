#define _GNU_SOURCE
#include "oracle.h"
orc_fn orc_active; long orc_queries;
void (*fake_xof)(const uint8_t*,uint8_t*,size_t,size_t);
void (*fake_prf)(const uint8_t*,uint8_t*,size_t,size_t);
void (*fake_g)(const uint8_t*,size_t,uint8_t*);
void fake_orc(int alg,const uint8_t *in,size_t n,uint8_t *out,size_t on,size_t off){
  if(alg==A_SHAKE128 && n==34 && fake_xof){ fake_xof(in,out,on,off); return; }
  if(alg==A_SHAKE256 && n==33 && fake_prf){ fake_prf(in,out,on,off); return; }
  if(alg==A_SHA3_512 && fake_g){ uint8_t g[64]; fake_g(in,n,g); memcpy(out,g+off,on); return; }
  spec_real_orc(alg,in,n,out,on,off);
}
void fake_on(void){ orc_active=fake_orc; spec_orc=fake_orc; }
void fake_off(void){ orc_active=NULL; spec_orc=spec_real_orc; fake_xof=NULL; fake_prf=NULL; fake_g=NULL; }

/* accumulated input of an open sponge; the state object itself carries an
 * index and the output position so that copies of a state work */
#define NSL 1024
static struct { uint8_t in[2048]; size_t n; } SL[NSL]; static unsigned nextsl;
#define MAGIC 0x6d634f5241434c45ull
typedef struct { uint64_t magic, slot, pos, len; } fst;
static fst *mk(void *st){ fst *f=st; f->magic=MAGIC; f->slot=nextsl++%NSL; f->pos=0; f->len=0; SL[f->slot].n=0; return f; }
static fst *gt(void *st){ fst *f=st; if(f->magic!=MAGIC || f->slot>=NSL) mc_fail("hash state used before initialisation (or overwritten)"); return f; }
void (*orc_edge)(int);   /* called with 1/0 around the harness side of an answered query */
#define EDGE(x) do{ if(orc_edge) orc_edge(x); }while(0)
static void add(fst *f,const uint8_t *in,size_t n){ EDGE(1); if(SL[f->slot].n!=f->len){ unsigned o=f->slot; f->slot=nextsl++%NSL; memcpy(SL[f->slot].in,SL[o].in,f->len); SL[f->slot].n=f->len; } if(SL[f->slot].n+n>sizeof SL[0].in) mc_fail("oracle: unexpected long hash input"); if(n) memcpy(SL[f->slot].in+SL[f->slot].n,in,n); f->len=SL[f->slot].n+=n; EDGE(0); }
static void sq(int alg,fst *f,uint8_t *out,size_t n){ EDGE(1); if(n){ orc_queries++; orc_active(alg,SL[f->slot].in,f->len,out,n,f->pos);} f->pos+=n; EDGE(0); }
static void one(int alg,uint8_t *out,size_t on,const uint8_t *in,size_t n){ EDGE(1); uint8_t *t=malloc(on+1); orc_queries++; orc_active(alg,in,n,t,on,0); memcpy(out,t,on); free(t); EDGE(0); }

void (*orc_call)(void);   /* called on every entry into the hash layer */
#define CALLED do{ if(orc_call) orc_call(); }while(0)
#define W(ns,real) \
 static void (*r_##ns##_sha3_256)(uint8_t*,const uint8_t*,size_t); static void (*r_##ns##_sha3_512)(uint8_t*,const uint8_t*,size_t); \
 void pqcrystals_kyber_fips202_##ns##_sha3_256(uint8_t*o,const uint8_t*i,size_t n); void pqcrystals_kyber_fips202_##ns##_sha3_256(uint8_t*o,const uint8_t*i,size_t n){ CALLED; if(!orc_active) r_##ns##_sha3_256(o,i,n); else one(A_SHA3_256,o,32,i,n);} \
 void pqcrystals_kyber_fips202_##ns##_sha3_512(uint8_t*o,const uint8_t*i,size_t n); void pqcrystals_kyber_fips202_##ns##_sha3_512(uint8_t*o,const uint8_t*i,size_t n){ CALLED; if(!orc_active) r_##ns##_sha3_512(o,i,n); else one(A_SHA3_512,o,64,i,n);}
#define V(ns,alg,ALG,RATE) \
 static void (*r_##ns##_##alg)(uint8_t*,size_t,const uint8_t*,size_t); static void (*r_##ns##_##alg##_init)(void*); static void (*r_##ns##_##alg##_absorb)(void*,const uint8_t*,size_t); static void (*r_##ns##_##alg##_finalize)(void*); \
 static void (*r_##ns##_##alg##_squeeze)(uint8_t*,size_t,void*); static void (*r_##ns##_##alg##_absorb_once)(void*,const uint8_t*,size_t); static void (*r_##ns##_##alg##_squeezeblocks)(uint8_t*,size_t,void*); \
 void pqcrystals_kyber_fips202_##ns##_##alg(uint8_t*o,size_t on,const uint8_t*i,size_t n); void pqcrystals_kyber_fips202_##ns##_##alg(uint8_t*o,size_t on,const uint8_t*i,size_t n){ CALLED; if(!orc_active) r_##ns##_##alg(o,on,i,n); else one(ALG,o,on,i,n);} \
 void pqcrystals_kyber_fips202_##ns##_##alg##_init(void*s); void pqcrystals_kyber_fips202_##ns##_##alg##_init(void*s){ CALLED; if(!orc_active) r_##ns##_##alg##_init(s); else mk(s);} \
 void pqcrystals_kyber_fips202_##ns##_##alg##_absorb(void*s,const uint8_t*i,size_t n); void pqcrystals_kyber_fips202_##ns##_##alg##_absorb(void*s,const uint8_t*i,size_t n){ CALLED; if(!orc_active) r_##ns##_##alg##_absorb(s,i,n); else add(gt(s),i,n);} \
 void pqcrystals_kyber_fips202_##ns##_##alg##_finalize(void*s); void pqcrystals_kyber_fips202_##ns##_##alg##_finalize(void*s){ CALLED; if(!orc_active) r_##ns##_##alg##_finalize(s); else gt(s)->pos=0;} \
 void pqcrystals_kyber_fips202_##ns##_##alg##_squeeze(uint8_t*o,size_t n,void*s); void pqcrystals_kyber_fips202_##ns##_##alg##_squeeze(uint8_t*o,size_t n,void*s){ CALLED; if(!orc_active) r_##ns##_##alg##_squeeze(o,n,s); else sq(ALG,gt(s),o,n);} \
 void pqcrystals_kyber_fips202_##ns##_##alg##_absorb_once(void*s,const uint8_t*i,size_t n); void pqcrystals_kyber_fips202_##ns##_##alg##_absorb_once(void*s,const uint8_t*i,size_t n){ CALLED; if(!orc_active) r_##ns##_##alg##_absorb_once(s,i,n); else add(mk(s),i,n);} \
 void pqcrystals_kyber_fips202_##ns##_##alg##_squeezeblocks(uint8_t*o,size_t n,void*s); void pqcrystals_kyber_fips202_##ns##_##alg##_squeezeblocks(uint8_t*o,size_t n,void*s){ CALLED; if(!orc_active) r_##ns##_##alg##_squeezeblocks(o,n,s); else sq(ALG,gt(s),o,n*RATE);}
W(ref,0) V(ref,shake128,A_SHAKE128,168) V(ref,shake256,A_SHAKE256,136)
W(avx2,1) V(avx2,shake128,A_SHAKE128,168) V(avx2,shake256,A_SHAKE256,136)
/* four-way: four fst records at the start of the 800-byte state */
typedef const uint8_t *cp;
#define X(alg,ALG,RATE) \
 static void (*r_x4_##alg##x4)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,cp,cp,cp,cp,size_t); static void (*r_x4_##alg##x4_absorb_once)(void*,cp,cp,cp,cp,size_t); static void (*r_x4_##alg##x4_squeezeblocks)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,void*); \
 void pqcrystals_kyber_fips202x4_avx2_##alg##x4(uint8_t*a,uint8_t*b,uint8_t*c,uint8_t*d,size_t on,cp e,cp f,cp g,cp h,size_t n); \
 void pqcrystals_kyber_fips202x4_avx2_##alg##x4(uint8_t*a,uint8_t*b,uint8_t*c,uint8_t*d,size_t on,cp e,cp f,cp g,cp h,size_t n){ CALLED; if(!orc_active){ r_x4_##alg##x4(a,b,c,d,on,e,f,g,h,n); return;} one(ALG,a,on,e,n); one(ALG,b,on,f,n); one(ALG,c,on,g,n); one(ALG,d,on,h,n);} \
 void pqcrystals_kyber_fips202x4_avx2_##alg##x4_absorb_once(void*s,cp e,cp f,cp g,cp h,size_t n); \
 void pqcrystals_kyber_fips202x4_avx2_##alg##x4_absorb_once(void*s,cp e,cp f,cp g,cp h,size_t n){ CALLED; if(!orc_active){ r_x4_##alg##x4_absorb_once(s,e,f,g,h,n); return;} fst *t=s; add(mk(t),e,n); add(mk(t+1),f,n); add(mk(t+2),g,n); add(mk(t+3),h,n);} \
 void pqcrystals_kyber_fips202x4_avx2_##alg##x4_squeezeblocks(uint8_t*a,uint8_t*b,uint8_t*c,uint8_t*d,size_t nb,void*s); \
 void pqcrystals_kyber_fips202x4_avx2_##alg##x4_squeezeblocks(uint8_t*a,uint8_t*b,uint8_t*c,uint8_t*d,size_t nb,void*s){ CALLED; if(!orc_active){ r_x4_##alg##x4_squeezeblocks(a,b,c,d,nb,s); return;} fst *t=s; sq(ALG,gt(t),a,nb*RATE); sq(ALG,gt(t+1),b,nb*RATE); sq(ALG,gt(t+2),c,nb*RATE); sq(ALG,gt(t+3),d,nb*RATE);}
X(shake128,A_SHAKE128,168) X(shake256,A_SHAKE256,136)
void orc_init(void){
#define R(ns,av,f) *(void**)&r_##ns##_##f=fsym(av,#f); if(!r_##ns##_##f) mc_note("fips202 " #ns " " #f " not exported");
#define RA(ns,av,a) R(ns,av,a) R(ns,av,a##_init) R(ns,av,a##_absorb) R(ns,av,a##_finalize) R(ns,av,a##_squeeze) R(ns,av,a##_absorb_once) R(ns,av,a##_squeezeblocks)
  R(ref,0,sha3_256) R(ref,0,sha3_512) RA(ref,0,shake128) RA(ref,0,shake256)
  R(avx2,1,sha3_256) R(avx2,1,sha3_512) RA(avx2,1,shake128) RA(avx2,1,shake256)
#define RX(f) *(void**)&r_x4_##f=xsym(#f);
  RX(shake128x4) RX(shake128x4_absorb_once) RX(shake128x4_squeezeblocks) RX(shake256x4) RX(shake256x4_absorb_once) RX(shake256x4_squeezeblocks)
}
