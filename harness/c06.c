/* C06: codecs. Internal codecs are driven through the tree's own reduction
 * (so only representatives the tree really feeds them are judged) and, for
 * the same value x position space, through the public API with chosen hash
 * answers. */
#include "fakes.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
typedef void (*p1)(ipoly*); typedef void (*p2)(uint8_t*,const ipoly*); typedef void (*p3)(ipoly*,const uint8_t*);
static struct { p1 reduce; p2 tobytes,compress,tomsg; p3 frombytes,decompress,frommsg; void (*vcompress)(uint8_t*,const ipoly*); void (*vdecompress)(ipoly*,const uint8_t*); int perm[256],okperm; } I[6];
static uint8_t BUF[4096] __attribute__((aligned(64)));
static void getsyms(int u){ kyber *k=&KY[u]; if(I[u].tobytes||I[u].okperm) return;
  I[u].reduce=ksym(k,"poly_reduce"); I[u].tobytes=ksym(k,"poly_tobytes"); I[u].compress=ksym(k,"poly_compress"); I[u].tomsg=ksym(k,"poly_tomsg"); I[u].frombytes=ksym(k,"poly_frombytes"); I[u].decompress=ksym(k,"poly_decompress"); I[u].frommsg=ksym(k,"poly_frommsg"); I[u].vcompress=ksym(k,"polyvec_compress"); I[u].vdecompress=ksym(k,"polyvec_decompress");
  I[u].okperm=-1;
  if(I[u].frombytes){ /* coefficient order of the NTT-domain polynomial: must be a permutation */
    uint8_t b[384+64]={0}; for(int i=0;i<256;i++) set12(b,i,i+1); ipoly p; I[u].frombytes(&p,b); int seen[257]={0}; int ok=1;
    for(int i=0;i<256;i++){ int v=p.c[i]; if(v<1||v>256||seen[v]){ mc_fail("%s poly_frombytes: the fields 1..256 come out as slot %d = %d, not a permutation",k->name,i,v); ok=0; break; } seen[v]=1; I[u].perm[v-1]=i; } I[u].okperm=ok; } }
static inline void red(int u,ipoly *p){ if(I[u].reduce) I[u].reduce(p); else for(int i=0;i<256;i++) p->c[i]=smod(p->c[i]); }
/* value ladders: coefficient i of call t */
static const int STEP[]={1,0,257,3329,17,4096,32767,1664};
#define NSTEP 8
/* expected encodings */
static void expect(uint8_t *o,const int16_t *x,int d){ uint32_t v[256]; for(int i=0;i<256;i++){ int c=smod(x[i]); v[i]= d==12?(uint32_t)c:spec_compress(c,d); } spec_encode(o,v,256,d); }
static void cmp(const char *fn,kyber *k,const uint8_t *g,const uint8_t *w,size_t n,const int16_t *x,int d){ if(memcmp(g,w,n)){ long i=first_diff(g,w,n); int c=(int)(i*8/d); mc_fail("%s %s: byte %ld is %02x, specification %02x; coefficients %d.. (before the tree's reduction): %d %d %d %d",k->name,fn,i,g[i],w[i],c,x[c],x[c<255?c+1:c],x[c<254?c+2:c],x[c<253?c+3:c]); } }
static void enc_all(int u,const int16_t *x){ kyber *k=&KY[u]; ipoly p; uint8_t w[512]; int dv=spec_dv(k->K),du=spec_du(k->K);
#define DO(f,n,d,nm) if(I[u].f){ memcpy(p.c,x,512); red(u,&p); memset(BUF,0xa5,512); I[u].f(BUF,&p); expect(w,x,d); cmp(nm,k,BUF,w,n,x,d); mc_trans(1); }
  if(I[u].tobytes){ ipoly q; for(int i=0;i<256;i++) q.c[I[u].okperm==1?I[u].perm[i]:i]=x[i]; red(u,&q); memset(BUF,0xa5,512); I[u].tobytes(BUF,&q); expect(w,x,12); cmp("poly_tobytes",k,BUF,w,384,x,12); mc_trans(1); }
  DO(compress,32*dv,dv,"poly_compress")
  DO(tomsg,32,1,"poly_tomsg")
  if(I[u].vcompress){ static ipoly v[4]; for(int j=0;j<k->K;j++){ for(int i=0;i<256;i++) v[j].c[i]= j==0? x[i] : x[(i+64*j)&255]; red(u,&v[j]); } memset(BUF,0xa5,2048); I[u].vcompress(BUF,v); int16_t y[256]; for(int j=0;j<k->K;j++){ for(int i=0;i<256;i++) y[i]= x[(i+64*j)&255]; expect(w,y,du); cmp("polyvec_compress",k,BUF+32*du*j,w,32*du,y,du); } mc_trans(1); }
  mc_trace(1); }
/* every 16-bit value at every position */
static void u_ladder(long u){ int im=u%6; long t=u/6; getsyms(im); int s=STEP[t%NSTEP]; long base=t/NSTEP; int nb=mc_thorough?65536/64:65536/64;
  for(long b=base*nb;b<(base+1)*nb;b++){ int16_t x[256]; for(int i=0;i<256;i++) x[i]=(int16_t)(b+(long)i*s); enc_all(im,x); }
  mc_state(mc_hash2(u,0xc06)); if(u<6) mc_sample("%s: values b+i*%d for b in [%ld,%ld) at positions i=0..255 encode to the specified bytes",KY[im].name,s,base*nb,(base+1)*nb); }
/* one position differs from a constant background */
static void u_iso(long u){ int im=u%6; int pos=u/6; getsyms(im); static const int bg[]={0,3328,1664,-1664,1665,832,833};
  for(int b=0;b<7;b++) for(int v=0;v<3329;v+= mc_thorough?1:(b<2?1:7)){ int16_t x[256]; for(int i=0;i<256;i++) x[i]=bg[b]; x[pos]=v; enc_all(im,x); } mc_state(mc_hash2(u,0xc061)); }
/* two positions carry extremal values */
static void u_pair(long u){ int im=u%6; int a=u/6; getsyms(im); static const int ev[]={3328,1,1664,2497}; for(int b=0;b<256;b++) if(b!=a) for(int e=0;e<4;e++){ int16_t x[256]={0}; x[a]=ev[e]; x[b]=ev[(e+b)&3]; enc_all(im,x); } mc_state(mc_hash2(u,0xc062)); }
/* all adjacent value pairs of the 12-bit packing */
static void u_pack2(long u){ int im=u%6; long c=u/6; getsyms(im); if(!I[im].tobytes) return; kyber *k=&KY[im]; int lo=c*53; int hi=lo+53; if(hi>3329) hi=3329;
  for(int v0=lo;v0<hi;v0++) for(int w=0;w<3329;w+=128){ ipoly q; int16_t x[256]; for(int i=0;i<128;i++){ x[2*i]=v0; x[2*i+1]=(w+i)%3329; } for(int i=0;i<256;i++) q.c[I[im].okperm==1?I[im].perm[i]:i]=x[i]; red(im,&q); I[im].tobytes(BUF,&q); uint8_t e[384]; expect(e,x,12); cmp("poly_tobytes",k,BUF,e,384,x,12); mc_trans(1); } mc_trace(1); }
/* ---- decoders: every field value at every position over backgrounds ---- */
static uint8_t DB[1568+64];
static void dec_one(int u,int what,const uint32_t *f){ kyber *k=&KY[u]; int d= what==0?12:what==1?spec_dv(k->K):what==2?spec_du(k->K):1; ipoly p[4]; memset(p,0x5a,sizeof p);
  if(what==0){ if(!I[u].frombytes) return; spec_encode(DB,f,256,12); I[u].frombytes(p,DB); }
  else if(what==1){ if(!I[u].decompress) return; spec_encode(DB,f,256,d); I[u].decompress(p,DB); }
  else if(what==2){ if(!I[u].vdecompress) return; for(int j=0;j<k->K;j++){ uint32_t g[256]; for(int i=0;i<256;i++) g[i]=f[(i+64*j)&255]; spec_encode(DB+32*d*j,g,256,d); } I[u].vdecompress(p,DB); }
  else { if(!I[u].frommsg) return; spec_encode(DB,f,256,1); I[u].frommsg(p,DB); }
  int np= what==2?k->K:1;
  for(int j=0;j<np;j++) for(int i=0;i<256;i++){ uint32_t y=f[(i+64*j)&255]; int want= what==0?(int)(y%SQ): what==3? (y?1665:0) : spec_decompress(y,d)%SQ; int got=p[j].c[(what==0&&I[u].okperm==1)?I[u].perm[i]:i]; if(smod(got)!=want) mc_fail("%s %s: field %u at position %d of polynomial %d decodes to %d, specification %d",k->name,(const char*[]){"poly_frombytes","poly_decompress","polyvec_decompress","poly_frommsg"}[what],y,i,j,got,want); }
  /* lossless: encode what was decoded */
  uint8_t out[1568+64]; 
  if(what==0){ int canon=1; for(int i=0;i<256;i++) canon&=f[i]<SQ; if(canon&&I[u].tobytes){ for(int i=0;i<1;i++) red(u,&p[0]); I[u].tobytes(out,p); if(memcmp(out,DB,384)) mc_fail("%s: pack(unpack(bytes)) differs from bytes at byte %ld",k->name,first_diff(out,DB,384)); } }
  else if(what==1&&I[u].compress){ red(u,&p[0]); I[u].compress(out,p); if(memcmp(out,DB,32*d)) mc_fail("%s: compress(decompress(bytes)) differs from bytes at byte %ld",k->name,first_diff(out,DB,32*d)); }
  else if(what==2&&I[u].vcompress){ for(int j=0;j<k->K;j++) red(u,&p[j]); I[u].vcompress(out,p); if(memcmp(out,DB,32*d*k->K)) mc_fail("%s: vector compress(decompress(bytes)) differs from bytes at byte %ld",k->name,first_diff(out,DB,32*d*k->K)); }
  else if(what==3&&I[u].tomsg){ red(u,&p[0]); I[u].tomsg(out,p); if(memcmp(out,DB,32)) mc_fail("%s: message decoding of an encoded message differs at byte %ld",k->name,first_diff(out,DB,32)); }
  mc_trans(2); }
static void u_dlad(long u){ int im=u%6; u/=6; int what=u%4; int s=(int)(u/4); getsyms(im); kyber *k=&KY[im]; int d= what==0?12:what==1?spec_dv(k->K):what==2?spec_du(k->K):1; uint32_t m=1u<<d; static const int st[]={1,0,5,3329,1023,2047,16,777};
  for(uint32_t b=0;b<m;b++){ uint32_t f[256]; for(int i=0;i<256;i++) f[i]=(b+(uint32_t)i*st[s])%m; dec_one(im,what,f); } mc_trace(1); mc_state(mc_hash2(u*6+im,0xc063)); }
static void u_diso(long u){ int im=u%6; u/=6; int what=u%4; int pos=(int)(u/4); getsyms(im); kyber *k=&KY[im]; int d= what==0?12:what==1?spec_dv(k->K):what==2?spec_du(k->K):1; uint32_t m=1u<<d;
  for(int bg=0;bg<2;bg++) for(uint32_t v=0;v<m;v+= d>5&&!mc_thorough?3:1){ uint32_t f[256]; for(int i=0;i<256;i++) f[i]=bg?m-1:0; f[pos]=v; dec_one(im,what,f); } mc_trace(1); mc_state(mc_hash2(u*6+im,0xc064)); }
/* message: every single byte value at every byte position, every pair of bits */
static void u_msg(long u){ int im=u%6; int pos=u/6; getsyms(im); for(int bg=0;bg<3;bg++) for(int v=0;v<256;v++){ uint32_t f[256]; for(int i=0;i<256;i++) f[i]=bg==2?(i&1):bg; for(int b=0;b<8;b++) f[8*pos+b]=v>>b&1; dec_one(im,3,f); } for(int b=0;b<8;b++) for(int q=0;q<256;q++){ uint32_t f[256]={0}; f[8*pos+b]=1; f[q]=1; dec_one(im,3,f); } mc_trace(1); }
/* ---- through the public API ---- */
static uint8_t capm[32]; static int ncap; static uint8_t capst[2][64];
static void unitnoise(void){ memset(F_N,0,sizeof F_N); F_N[0][0][0]=1; F_N[1][0][0]=1; }
static void tgt(int16_t *a,long b,int s){ spoly p; for(int i=0;i<256;i++) p.c[i]=smod(b+(long)i*s); spec_ntt(&p); for(int i=0;i<256;i++) a[i]=p.c[i]; }
/* encryption with the first secret polynomial equal to 1: u and v take every value at every position */
static void u_apienc(long u){ int im=u%6; kyber *k=&KY[im]; long t=u/6; int K=k->K; static const int st[]={1,13,1665}; 
  for(int z=0;z<32;z++){ long b=t*32+z; if(b>=3329) break; for(int s=0;s<(mc_thorough?3:1);s++){ int S=st[(s+b)%3]; f_reset(K); F_phase=1; unitnoise(); for(int x=0;x<K;x++) for(int y=0;y<K;y++) tgt(F_A[x][y],b*7+x*1000+y*333,S);
    uint8_t pk[1568],ct[1568],ss[32],c2[1568],s2[32],m[32]; mc_fill(pk,1568,5); for(int j=0;j<K;j++){ int16_t a[256]; tgt(a,b+j*111,S); for(int i=0;i<256;i++) set12(pk+384*j,i,a[i]); } memset(m,(b&1)?0:0x5a,32);
    k->enc_derand(ct,ss,pk,m); spec_enc(K,pk,m,c2,s2); cmpb("encapsulation (chosen u,v)",k,ct,c2,k->ctb,CTX("b=%ld step=%d",b,S)); cmpb("secret",k,ss,s2,32,C); mc_trans(1); mc_trace(1); mc_state(mc_hash(ct,k->ctb)); } } fake_off(); }
/* key generation with s=1: the public key packs every value at every position */
static void u_apikey(long u){ int im=u%6; kyber *k=&KY[im]; long t=u/6; int K=k->K; for(int z=0;z<32;z++){ long b=t*32+z; if(b>=3329) break; f_reset(K); unitnoise(); for(int x=0;x<K;x++) for(int y=0;y<K;y++) for(int i=0;i<256;i++) F_A[x][y][i]=smod(b+(long)i*(1+12*(b&1))+500*y); F_N[0][0][0]=1;
    uint8_t pk[1568],sk[3168],p2[1568],q2[3168],c[64]; mc_fill(c,64,b); k->keypair_derand(pk,sk,c); spec_keypair(K,c,p2,q2); cmpb("public key (chosen values)",k,pk,p2,k->pkb,CTX("b=%ld",b)); cmpb("secret key",k,sk,q2,k->skb,C); mc_trans(1); mc_trace(1); mc_state(mc_hash(pk,k->pkb)); } fake_off(); }
/* decryption: secret polynomial constant c, all field values: message bits */
static void capg(const uint8_t *in,size_t n,uint8_t *o){ uint8_t t[64]; if(n==64){ memcpy(capm,in,32); ncap++; } spec_real_orc(A_SHA3_512,in,n,t,64,0); memcpy(o,t,64); }
static void u_apidec(long u){ int im=u%6; kyber *k=&KY[im]; long t=u/6; int K=k->K,du=spec_du(K),dv=spec_dv(K); fake_off(); static uint8_t sk[3168],ct[1568]; 
  for(int z=0;z<32;z++){ long c=t*32+z; if(c>=3329) break; mc_fill(sk,3168,77); memset(sk,0,384*K); for(int i=0;i<128;i++) set12(sk,2*i,(unsigned)c); memset(ct,0,k->ctb); for(int i=0;i<256;i++) setd(ct,i,du,(uint32_t)(c*5+i*((c&1)?1:37))&((1<<du)-1)); for(int i=0;i<256;i++) setd(ct+32*du*K,i,dv,(uint32_t)(i+c)&((1<<dv)-1));
    uint8_t m[32],s1[32],s2[32]; fake_g=capg; fake_on(); spec_orc=spec_real_orc; ncap=0; k->dec(s1,ct,sk); int n=ncap; fake_off(); spec_cpa_dec(K,sk,ct,m); if(n!=1) { mc_note("%s: decapsulation does not expose its message to G",k->name); } else if(memcmp(capm,m,32)) mc_fail("%s: decrypted message differs at byte %ld (sk constant %ld): got %s want %s",k->name,first_diff(capm,m,32),c,mc_hexs(capm,32),mc_hexs(m,32)); spec_dec(K,sk,ct,s2); cmpb("decapsulation",k,s1,s2,32,CTX("c=%ld",c)); mc_trans(1); mc_trace(1); mc_state(mc_hash(m,32)); } }
#ifdef C19SMALL
/* reduced exploration of the same spaces, run by C19 in every build configuration */
#define THIN(f,stride) static void f##_s(long u){ f(u%6+6*((u/6)*(stride))); }
static void u_ladder_s(long u){ long b=u/6; u_ladder(u%6+6*NSTEP*(b<4?b:56+b)); }
THIN(u_apienc,17) THIN(u_apidec,17) THIN(u_msg,11)
int main(int argc,char **argv){ mc_init(argc,argv,"C19"); if(libs_load()) return 2; orc_init();
  mc_units("codec-ladder",u_ladder_s,6*8); mc_units("codec-decode",u_dlad,6*4); mc_units("codec-message",u_msg_s,6*3); mc_units("codec-api-enc",u_apienc_s,6*6); mc_units("codec-api-dec",u_apidec_s,6*6);
  return mc_run(); }
#else
int main(int argc,char **argv){ mc_init(argc,argv,"C06"); if(libs_load()) return 2; orc_init();
  mc_units("ladder",u_ladder,6L*NSTEP*64); mc_units("isolated",u_iso,6*256); mc_units("pairs",u_pair,6*256); mc_units("pack-pairs",u_pack2,6*63);
  mc_units("decode-ladder",u_dlad,6*4*8); mc_units("decode-isolated",u_diso,6*4*256); mc_units("message",u_msg,6*32);
  mc_units("api-enc",u_apienc,6*105); mc_units("api-key",u_apikey,6*105); mc_units("api-dec",u_apidec,6*105);
  return mc_run(); }
#endif
