#include "spec.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
orc_fn spec_orc = spec_real_orc;

/* ---- FIPS 202, from the definitions ---- */
static uint64_t RC[24]; static int ROT[25]; static int inited;
static uint64_t rol(uint64_t x,int n){ n&=63; return n? (x<<n)|(x>>(64-n)):x; }
static void keccak_consts(void){
  uint8_t lfsr=1; /* rc(t) as in FIPS 202 3.2.5 */
  for(int r=0;r<24;r++){ RC[r]=0; for(int j=0;j<7;j++){ int bit=lfsr&1; if(bit) RC[r]^=1ull<<((1<<j)-1); int hi=lfsr>>7; lfsr=(uint8_t)(lfsr<<1); if(hi) lfsr^=0x71; } }
  int x=1,y=0; ROT[0]=0;
  for(int t=0;t<24;t++){ ROT[x+5*y]=((t+1)*(t+2)/2)%64; int nx=y, ny=(2*x+3*y)%5; x=nx; y=ny; }
}
void spec_keccak_f(uint64_t a[25],int rounds){
  if(!inited) spec_init();
  for(int r=24-rounds;r<24;r++){
    uint64_t c[5],d[5],b[25];
    for(int x=0;x<5;x++) c[x]=a[x]^a[x+5]^a[x+10]^a[x+15]^a[x+20];
    for(int x=0;x<5;x++) d[x]=c[(x+4)%5]^rol(c[(x+1)%5],1);
    for(int x=0;x<5;x++) for(int y=0;y<5;y++) b[y+5*((2*x+3*y)%5)]=rol(a[x+5*y]^d[x],ROT[x+5*y]);
    for(int y=0;y<5;y++) for(int x=0;x<5;x++) a[x+5*y]=b[x+5*y]^(~b[(x+1)%5+5*y]&b[(x+2)%5+5*y]);
    a[0]^=RC[r];
  }
}
static void absorb(uint64_t a[25],unsigned rate,uint8_t dom,const uint8_t *in,size_t n){
  uint8_t blk[200]; memset(a,0,200);
  for(;;){
    if(n>=rate){ for(unsigned i=0;i<rate/8;i++){ uint64_t v; memcpy(&v,in+8*i,8); a[i]^=v; } spec_keccak_f(a,24); in+=rate; n-=rate; }
    else { memset(blk,0,200); if(n) memcpy(blk,in,n); blk[n]^=dom; blk[rate-1]^=0x80; for(unsigned i=0;i<rate/8;i++){ uint64_t v; memcpy(&v,blk+8*i,8); a[i]^=v; } return; }
  }
}
static void sponge_off(unsigned rate,uint8_t dom,const uint8_t *in,size_t n,uint8_t *out,size_t on,size_t off){
  uint64_t a[25]; absorb(a,rate,dom,in,n); spec_keccak_f(a,24);
  while(off>=rate){ spec_keccak_f(a,24); off-=rate; }
  while(on){ size_t k=rate-off; if(k>on) k=on; memcpy(out,(uint8_t*)a+off,k); out+=k; on-=k; off=0; if(on) spec_keccak_f(a,24); }
}
void spec_sponge(unsigned rate,uint8_t dom,const uint8_t *in,size_t n,uint8_t *out,size_t on){ if(on) sponge_off(rate,dom,in,n,out,on,0); }
void spec_sha3_256(uint8_t *o,const uint8_t *i,size_t n){ spec_sponge(136,6,i,n,o,32); }
void spec_sha3_512(uint8_t *o,const uint8_t *i,size_t n){ spec_sponge(72,6,i,n,o,64); }
void spec_shake128(uint8_t *o,size_t on,const uint8_t *i,size_t n){ spec_sponge(168,0x1f,i,n,o,on); }
void spec_shake256(uint8_t *o,size_t on,const uint8_t *i,size_t n){ spec_sponge(136,0x1f,i,n,o,on); }
void spec_real_orc(int alg,const uint8_t *in,size_t inlen,uint8_t *out,size_t outlen,size_t off){
  if(!outlen) return;
  switch(alg){ case A_SHA3_256: sponge_off(136,6,in,inlen,out,outlen,off); break; case A_SHA3_512: sponge_off(72,6,in,inlen,out,outlen,off); break;
    case A_SHAKE128: sponge_off(168,0x1f,in,inlen,out,outlen,off); break; default: sponge_off(136,0x1f,in,inlen,out,outlen,off); }
}
/* ---- arithmetic modulo q ---- */
static int32_t ZP[128], ZB[128]; /* 17^brv(i), 17^(2brv(i)+1) */
int32_t smod(int64_t x){ int64_t r=x%SQ; return (int32_t)(r<0?r+SQ:r); }
static int brv7(int i){ int r=0; for(int k=0;k<7;k++) if(i>>k&1) r|=1<<(6-k); return r; }
static int32_t powq(int32_t b,int e){ int64_t r=1; while(e--) r=r*b%SQ; return (int32_t)r; }
void spec_init(void){ if(inited) return; inited=1; keccak_consts(); for(int i=0;i<128;i++){ ZP[i]=powq(17,brv7(i)); ZB[i]=powq(17,2*brv7(i)+1);} }
#define MQ(x) ((int32_t)((uint32_t)(x)%SQ))
void spec_ntt(spoly *p){ if(!inited) spec_init(); int k=1; for(int len=128;len>=2;len>>=1) for(int s=0;s<256;s+=2*len){ int32_t z=ZP[k++]; for(int j=s;j<s+len;j++){ int32_t t=MQ(z*p->c[j+len]); p->c[j+len]=MQ(p->c[j]+SQ-t); p->c[j]=MQ(p->c[j]+t);} } }
void spec_invntt(spoly *p){ if(!inited) spec_init(); int k=127; for(int len=2;len<=128;len<<=1) for(int s=0;s<256;s+=2*len){ int32_t z=ZP[k--]; for(int j=s;j<s+len;j++){ int32_t t=p->c[j]; p->c[j]=MQ(t+p->c[j+len]); p->c[j+len]=MQ(z*MQ(p->c[j+len]+SQ-t)); } } for(int j=0;j<256;j++) p->c[j]=MQ(p->c[j]*3303); }
void spec_basemul(spoly *r,const spoly *a,const spoly *b){ if(!inited) spec_init(); for(int i=0;i<128;i++){ int32_t a0=a->c[2*i],a1=a->c[2*i+1],b0=b->c[2*i],b1=b->c[2*i+1]; int32_t x=MQ(MQ(a1*b1)*ZB[i]+MQ(a0*b0)), y=MQ(MQ(a0*b1)+MQ(a1*b0)); r->c[2*i]=x; r->c[2*i+1]=y; } }
void spec_ringmul(spoly *r,const spoly *a,const spoly *b){ int64_t t[512]={0}; for(int i=0;i<256;i++) for(int j=0;j<256;j++) t[i+j]+=(int64_t)a->c[i]*b->c[j]; for(int i=0;i<256;i++) r->c[i]=smod(t[i]-t[i+256]); }
static void padd(spoly *r,const spoly *a){ for(int i=0;i<256;i++) r->c[i]=MQ(r->c[i]+a->c[i]); }
uint32_t spec_compress(int32_t x,int d){ /* round(2^d/q*x) mod 2^d */ return (uint32_t)(((((uint64_t)x<<d)*2+SQ)/(2*SQ)) & ((1u<<d)-1)); }
int32_t spec_decompress(uint32_t y,int d){ return (int32_t)(((uint64_t)y*SQ*2+(1u<<d))>>(d+1)); }
void spec_encode(uint8_t *out,const uint32_t *v,int n,int d){ memset(out,0,(size_t)n*d/8); uint64_t acc=0; int nb=0; for(int i=0;i<n;i++){ acc|=(uint64_t)v[i]<<nb; nb+=d; while(nb>=8){ *out++=(uint8_t)acc; acc>>=8; nb-=8; } } }
void spec_decode(uint32_t *v,const uint8_t *in,int n,int d){ uint64_t acc=0; int nb=0; for(int i=0;i<n;i++){ while(nb<d){ acc|=(uint64_t)*in++<<nb; nb+=8; } v[i]=(uint32_t)(acc&((1u<<d)-1)); acc>>=d; nb-=d; } }
void spec_cbd(int32_t *c,const uint8_t *buf,int eta){ for(int i=0;i<256;i++){ int a=0,b=0; for(int j=0;j<eta;j++){ int p=2*i*eta+j, q=p+eta; a+=buf[p>>3]>>(p&7)&1; b+=buf[q>>3]>>(q&7)&1; } c[i]=a-b; } }
void spec_sample_ntt(spoly *p,const uint8_t seed[34]){
  int n=0; size_t off=0; uint8_t b[504]; size_t want=504;
  while(n<256){ spec_orc(A_SHAKE128,seed,34,b,want,off); off+=want;
    for(size_t i=0;i+3<=want && n<256;i+=3){ int d1=b[i]|(b[i+1]&15)<<8, d2=b[i+1]>>4|b[i+2]<<4; if(d1<SQ) p->c[n++]=d1; if(d2<SQ && n<256) p->c[n++]=d2; }
    want=168; if(off>168*4000){ fprintf(stderr,"spec: endless stream\n"); abort(); } }
}
void spec_matrix_entry(spoly *p,const uint8_t rho[32],int x,int y){ uint8_t s[34]; memcpy(s,rho,32); s[32]=(uint8_t)x; s[33]=(uint8_t)y; spec_sample_ntt(p,s); }
void spec_prf_poly(int32_t *c,const uint8_t key[32],uint8_t nonce,int eta){ uint8_t k[33],b[192]; memcpy(k,key,32); k[32]=nonce; spec_orc(A_SHAKE256,k,33,b,64*(size_t)eta,0); spec_cbd(c,b,eta); }
static void prf_spoly(spoly *p,const uint8_t *key,uint8_t n,int eta){ spec_prf_poly(p->c,key,n,eta); for(int i=0;i<256;i++) if(p->c[i]<0) p->c[i]+=SQ; }
void spec_cpa_keygen(int K,const uint8_t d[32],uint8_t *pk,uint8_t *sk){
  uint8_t in[33],g[64]; memcpy(in,d,32); in[32]=(uint8_t)K; spec_orc(A_SHA3_512,in,33,g,64,0);
  spoly s[4],e[4],t,a,m; uint32_t v[256];
  for(int i=0;i<K;i++){ prf_spoly(&s[i],g+32,(uint8_t)i,spec_eta1(K)); spec_ntt(&s[i]); }
  for(int i=0;i<K;i++){ prf_spoly(&e[i],g+32,(uint8_t)(K+i),spec_eta1(K)); spec_ntt(&e[i]); }
  for(int i=0;i<K;i++){ t=e[i]; for(int j=0;j<K;j++){ spec_matrix_entry(&a,g,j,i); spec_basemul(&m,&a,&s[j]); padd(&t,&m);} for(int k=0;k<256;k++) v[k]=(uint32_t)t.c[k]; spec_encode(pk+384*i,v,256,12); for(int k=0;k<256;k++) v[k]=(uint32_t)s[i].c[k]; spec_encode(sk+384*i,v,256,12); }
  memcpy(pk+384*K,g,32);
}
void spec_cpa_enc(int K,const uint8_t m[32],const uint8_t *pk,const uint8_t r[32],uint8_t *ct){
  spoly y[4],a,t,u; uint32_t v[256]; const uint8_t *rho=pk+384*K; int du=spec_du(K),dv=spec_dv(K);
  for(int i=0;i<K;i++){ prf_spoly(&y[i],r,(uint8_t)i,spec_eta1(K)); spec_ntt(&y[i]); }
  for(int i=0;i<K;i++){ memset(&u,0,sizeof u); for(int j=0;j<K;j++){ spec_matrix_entry(&a,rho,i,j); spec_basemul(&t,&a,&y[j]); padd(&u,&t);} spec_invntt(&u); prf_spoly(&t,r,(uint8_t)(K+i),2); padd(&u,&t); for(int k=0;k<256;k++) v[k]=spec_compress(u.c[k],du); spec_encode(ct+32*du*i,v,256,du); }
  memset(&u,0,sizeof u); for(int i=0;i<K;i++){ spec_decode(v,pk+384*i,256,12); for(int k=0;k<256;k++) a.c[k]=(int32_t)(v[k]%SQ); spec_basemul(&t,&a,&y[i]); padd(&u,&t);} spec_invntt(&u);
  prf_spoly(&t,r,(uint8_t)(2*K),2); padd(&u,&t); for(int k=0;k<256;k++) if(m[k>>3]>>(k&7)&1) u.c[k]=MQ(u.c[k]+1665);
  for(int k=0;k<256;k++) v[k]=spec_compress(u.c[k],dv); spec_encode(ct+32*du*K,v,256,dv);
}
void spec_cpa_dec_w(int K,const uint8_t *sk,const uint8_t *ct,spoly *w){
  spoly u,s,t,acc; uint32_t v[256]; int du=spec_du(K),dv=spec_dv(K); memset(&acc,0,sizeof acc);
  for(int i=0;i<K;i++){ spec_decode(v,ct+32*du*i,256,du); for(int k=0;k<256;k++) u.c[k]=spec_decompress(v[k],du)%SQ; spec_ntt(&u); spec_decode(v,sk+384*i,256,12); for(int k=0;k<256;k++) s.c[k]=(int32_t)(v[k]%SQ); spec_basemul(&t,&s,&u); padd(&acc,&t);} spec_invntt(&acc);
  spec_decode(v,ct+32*du*K,256,dv); for(int k=0;k<256;k++) w->c[k]=MQ(spec_decompress(v[k],dv)+SQ-acc.c[k]);
}
void spec_cpa_dec(int K,const uint8_t *sk,const uint8_t *ct,uint8_t m[32]){ spoly w; spec_cpa_dec_w(K,sk,ct,&w); memset(m,0,32); for(int k=0;k<256;k++) m[k>>3]|=(uint8_t)(spec_compress(w.c[k],1)<<(k&7)); }
void spec_keypair(int K,const uint8_t coins[64],uint8_t *pk,uint8_t *sk){ size_t P=spec_pkbytes(K); spec_cpa_keygen(K,coins,pk,sk); memcpy(sk+384*K,pk,P); spec_orc(A_SHA3_256,pk,P,sk+384*K+P,32,0); memcpy(sk+384*K+P+32,coins+32,32); }
void spec_enc(int K,const uint8_t *pk,const uint8_t m[32],uint8_t *ct,uint8_t *ss){ uint8_t b[64],kr[64]; memcpy(b,m,32); spec_orc(A_SHA3_256,pk,spec_pkbytes(K),b+32,32,0); spec_orc(A_SHA3_512,b,64,kr,64,0); spec_cpa_enc(K,m,pk,kr+32,ct); memcpy(ss,kr,32); }
void spec_reject(int K,const uint8_t *sk,const uint8_t *ct,uint8_t *ss){ uint8_t b[32+1568]; memcpy(b,sk+spec_skbytes(K)-32,32); memcpy(b+32,ct,spec_ctbytes(K)); spec_orc(A_SHAKE256,b,32+spec_ctbytes(K),ss,32,0); }
void spec_dec(int K,const uint8_t *sk,const uint8_t *ct,uint8_t *ss){ uint8_t b[64],kr[64],c2[1568]; const uint8_t *pk=sk+384*K; spec_cpa_dec(K,sk,ct,b); memcpy(b+32,sk+384*K+spec_pkbytes(K),32); spec_orc(A_SHA3_512,b,64,kr,64,0); spec_cpa_enc(K,b,pk,kr+32,c2); if(memcmp(c2,ct,spec_ctbytes(K))==0) memcpy(ss,kr,32); else spec_reject(K,sk,ct,ss); }

int spec_selftest(void){
  spec_init();
  static const uint8_t e256[32]={0xa7,0xff,0xc6,0xf8,0xbf,0x1e,0xd7,0x66,0x51,0xc1,0x47,0x56,0xa0,0x61,0xd6,0x62,0xf5,0x80,0xff,0x4d,0xe4,0x3b,0x49,0xfa,0x82,0xd8,0x0a,0x4b,0x80,0xf8,0x43,0x4a};
  static const uint8_t s128[16]={0x7f,0x9c,0x2b,0xa4,0xe8,0x8f,0x82,0x7d,0x61,0x60,0x45,0x50,0x76,0x05,0x85,0x3e};
  uint8_t o[32]; spec_sha3_256(o,(const uint8_t*)"",0); if(memcmp(o,e256,32)) return 1;
  spec_shake128(o,16,(const uint8_t*)"",0); if(memcmp(o,s128,16)) return 2;
  /* NTT product == schoolbook product on monomials and dense polynomials */
  uint32_t x=12345; spoly a,b,r1,r2,A,B;
  for(int t=0;t<40;t++){ for(int i=0;i<256;i++){ x=x*1664525+1013904223; a.c[i]= t<20? (i==(t*13)%256)*(x%SQ) : (int32_t)(x>>8)%SQ; x=x*1664525+1013904223; b.c[i]=(int32_t)(x>>8)%SQ; }
    spec_ringmul(&r1,&a,&b); A=a;B=b; spec_ntt(&A); spec_ntt(&B); spec_basemul(&r2,&A,&B); spec_invntt(&r2); if(memcmp(&r1,&r2,sizeof r1)) return 3; }
  for(int d=1;d<=11;d++) for(uint32_t y=0;y<(1u<<d);y++) if(spec_compress(spec_decompress(y,d)%SQ,d)!=y) return 4;
  return 0;
}
