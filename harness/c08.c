/* C08: noise sampling. */
#include "fakes.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
static uint8_t BB[512] __attribute__((aligned(64)));
typedef void (*cbd)(ipoly*,const void*);
static void one(kyber*k,cbd f,int eta,const char *w){ ipoly p; memset(&p,0x77,sizeof p); int32_t e[256]; f(&p,BB); spec_cbd(e,BB,eta); for(int i=0;i<256;i++) if(p.c[i]!=e[i]&&smod(p.c[i])!=smod(e[i])) mc_fail("%s %s: coefficient %d is %d, bit count difference %d; bytes %s",k->name,w,i,p.c[i],e[i],mc_hexs(BB,64*eta)); mc_trans(1); }
static void bg(int b,int eta){ memset(BB,0xee,sizeof BB); size_t n=64*eta; for(size_t i=0;i<n;i++) BB[i]= b==0?0:b==1?0xff:b==2?0x55:b==3?0xaa:b==4?(uint8_t)(i*37):(uint8_t)mc_hash2(b,i); memset(BB+n,b&1?0xff:0,64); }
/* eta 2: every byte value, and every 16-bit pattern, at every position over backgrounds; eta 3: every pair of coefficients (12 bits) at every position, all 24-bit groups */
static void u_dir(long u){ int im=u%6; kyber*k=&KY[im]; long c=u/6; for(int w=1;w<=2;w++){ cbd f=ksym(k,w==1?"poly_cbd_eta1":"poly_cbd_eta2"); int eta= w==1?spec_eta1(k->K):2; char *nm= w==1?"poly_cbd_eta1":"poly_cbd_eta2"; if(!f){ mc_note("%s %s not exported",k->name,nm); continue; } int n=64*eta;
    if(c<n){ for(int b=0;b<6;b++){ bg(b,eta); for(int v=0;v<256;v++){ BB[c]=v; one(k,f,eta,nm); } } mc_count("byte x position x background",6*256); }
    if(c+1<n){ for(int b=0;b<(mc_thorough?6:1);b++){ bg(b,eta); for(int v=0;v<65536;v+=1){ BB[c]=v; BB[c+1]=v>>8; if(mc_thorough||((v^c)&7)==0) one(k,f,eta,nm); } } } } mc_trace(1); mc_state(mc_hash2(u,0xc081)); }
/* all 24-bit groups of the eta=3 sampler, rotated so each call carries 64 of them */
static void u_24(long u){ int im=u%2; kyber*k=KYI(im,2); long c=u/2; cbd f=ksym(k,"poly_cbd_eta1"); if(!f) return; long tot=1<<24; int calls=mc_thorough?tot:tot/64; long per=calls/256; for(long z=c*per;z<(c+1)*per;z++){ memset(BB,0xee,sizeof BB); for(int g=0;g<64;g++){ uint32_t v=mc_thorough?(uint32_t)((z+g*0x40000)&0xffffff):(uint32_t)(z*64+(g+z)%64); BB[3*g]=v; BB[3*g+1]=v>>8; BB[3*g+2]=v>>16; } one(k,f,3,"poly_cbd_eta1"); } mc_count("24-bit groups",per*64); mc_trace(1); mc_state(mc_hash2(u,0xc082)); }
/* all 16-bit groups (4 coefficients) of the eta=2 sampler at every 16-bit position */
static void u_16(long u){ int im=u%6; kyber*k=&KY[im]; long c=u/6; cbd f=ksym(k,"poly_cbd_eta2"); if(!f) return; for(long z=c*1024;z<(c+1)*1024;z++){ memset(BB,0xee,sizeof BB); for(int g=0;g<64;g++){ uint32_t v=(uint32_t)(z+g*1024+((g&1)?0x5aa5:0))&0xffff; BB[2*g]=v; BB[2*g+1]=v>>8; } one(k,f,2,"poly_cbd_eta2"); } mc_count("16-bit groups x positions",1024*64); mc_trace(1); mc_state(mc_hash2(u,0xc083)); }
/* getnoise functions against the model with the real hash: every nonce */
static void u_nonce(long u){ int im=u%6; kyber*k=&KY[im]; long c=u/6; fake_off(); void (*g1)(ipoly*,const uint8_t*,uint8_t)=ksym(k,"poly_getnoise_eta1"),(*g2)(ipoly*,const uint8_t*,uint8_t)=ksym(k,"poly_getnoise_eta2"); void (*g4)(ipoly*,ipoly*,ipoly*,ipoly*,const uint8_t*,uint8_t,uint8_t,uint8_t,uint8_t)=ksym(k,"poly_getnoise_eta1_4x"); if(!g4) g4=ksym(k,"poly_getnoise_eta2_4x"); void *g22=ksym(k,"poly_getnoise_eta1122_4x"); uint8_t seed[32+8]; int32_t e[256]; ipoly p[4];
  for(int sd=0;sd<4;sd++){ if(sd==0) memset(seed,0,32); else if(sd==1) memset(seed,0xff,32); else mc_fill(seed,32,c*4+sd); for(int z=0;z<8;z++){ int n=c*8+z;
      for(int w=0;w<2;w++){ void (*g)(ipoly*,const uint8_t*,uint8_t)=w?g2:g1; if(!g) continue; int eta=w?2:spec_eta1(k->K); memset(p,0x55,sizeof p); g(p,seed,n); spec_prf_poly(e,seed,n,eta); for(int i=0;i<256;i++) if(smod(p[0].c[i])!=smod(e[i])) mc_fail("%s poly_getnoise_eta%d nonce %d: coefficient %d is %d, model %d",k->name,w+1,n,i,p[0].c[i],e[i]); mc_trans(1); }
      for(int w=0;w<2;w++){ void (*g)(ipoly*,ipoly*,ipoly*,ipoly*,const uint8_t*,uint8_t,uint8_t,uint8_t,uint8_t)=w?g22:g4; if(!g||!k->avx) continue; int nn[4]={n,(n*7+1)&255,(255-n),(n+128)&255}; memset(p,0x55,sizeof p); g(&p[0],&p[1],&p[2],&p[3],seed,nn[0],nn[1],nn[2],nn[3]); for(int j=0;j<4;j++){ spec_prf_poly(e,seed,nn[j],w&&j>1?2:spec_eta1(k->K)); for(int i=0;i<256;i++) if(smod(p[j].c[i])!=smod(e[i])) mc_fail("%s 4-way noise%s lane %d nonce %d: coefficient %d is %d, model %d",k->name,w?" (mixed eta)":"",j,nn[j],i,p[j].c[i],e[i]); } mc_trans(1); } } } mc_trace(1); mc_state(mc_hash2(u,0xc084)); }
/* ---- through the public API with chosen sampler input ---- */
static uint8_t RAW[2][9][192]; static int ph,KK; static uint8_t keysig[32]; static int havesig,badsig;
static void r_prf(const uint8_t *s,uint8_t *o,size_t n,size_t off){ int nn=s[32]; if(!havesig){ memcpy(keysig,s,32); havesig=1; } int wrong=memcmp(s,keysig,32)!=0; for(size_t i=0;i<n;i++){ size_t q=off+i; o[i]= wrong? (uint8_t)(0x91+q*7) : nn<9&&q<192? RAW[ph][nn][q] : (uint8_t)(0x3c+q*5+nn); } }
static void begin(int K,int phase){ f_reset(K); fake_prf=r_prf; ph=phase; KK=K; memset(RAW,0,sizeof RAW); havesig=0; }
static void key(kyber*k,const char *ctx){ uint8_t pk[1568],sk[3168],p2[1568],s2[3168],c[64]; mc_fill(c,64,4); spec_keypair(k->K,c,p2,s2); k->keypair_derand(pk,sk,c); cmpb("secret key (chosen noise bits)",k,sk,s2,k->skb,ctx); cmpb("public key (chosen noise bits)",k,pk,p2,k->pkb,ctx); mc_trans(1); mc_trace(1); mc_state(mc_hash(pk,k->pkb)); }
/* key generation: every byte value at every byte position of every noise polynomial */
static void u_key(long u){ int im=u%6; kyber*k=&KY[im]; int v=u/6; int K=k->K,n=64*spec_eta1(K); for(int r=0;r<(mc_thorough?n:8);r++){ begin(K,0); for(int j=0;j<2*K;j++) for(int i=0;i<n;i++) RAW[0][j][i]=(uint8_t)(v+ (r&1?0: i*(2*r+1)) + j*31*(r>>1)); key(k,CTX("noise bytes v=%d r=%d",v,r)); } for(int j=0;j<2*K;j++){ begin(K,0); memset(RAW[0][j],v,n); key(k,CTX("only nonce %d nonzero (bytes %02x)",j,v)); } fake_off(); }
/* encryption: offsets chosen so that every change of u or v by 1 becomes visible */
static void u_encr(long u){ int im=u%6; kyber*k=&KY[im]; int v=u/6; int K=k->K,n=64*spec_eta1(K);
  for(int r=0;r<(mc_thorough?24:6);r++) for(int who=0;who<3;who++){ begin(K,1); uint8_t m[32],pk[1568],ct[1568],ss[32],c2[1568],s2[32]; memset(pk,0,1568); memset(m,0,32);
    /* who 0: e1,e2 around rounding boundaries via y = X^0 and constant matrix; 1: y itself scaled by the matrix; 2: single nonce */
    for(int x=0;x<K;x++) for(int y=0;y<K;y++) for(int i=0;i<256;i++) F_A[x][y][i]= who==1 ? ((i&1)?0:1000) : 0;
    if(who!=1){ /* y0 = 1, A entries = constant polynomial c in NTT domain means coefficient 0 only; use dense targets */ spoly t; for(int x=0;x<K;x++){ for(int i=0;i<256;i++) t.c[i]=smod((i*13+r*5+v+x)%SQ); spec_ntt(&t); for(int y=0;y<1;y++) for(int i=0;i<256;i++) F_A[x][y][i]=t.c[i]; } for(int i=0;i<256;i++) t.c[i]=smod(104+ (i%16)*208 + (r-3) ); spec_ntt(&t); for(int i=0;i<256;i++) set12(pk,i,t.c[i]); RAW[1][0][0]=1; }
    else for(int j=0;j<K;j++) for(int i=0;i<256;i++) set12(pk+384*j,i,(i&1)?0:500);
    for(int j=0;j<=2*K;j++){ if(who==2&&j!=(r%(2*K))+1) continue; if(who!=1&&j<K) continue; int nb= j<K?n:128; for(int i=0;i<nb;i++) RAW[1][j][i]=(uint8_t)(v+i*(2*r+1)+j*17); }
    spec_enc(K,pk,m,c2,s2); k->enc_derand(ct,ss,pk,m); cmpb("ciphertext (chosen noise bits)",k,ct,c2,k->ctb,CTX("v=%d r=%d who=%d",v,r,who)); mc_trans(1); mc_trace(1); mc_state(mc_hash(ct,k->ctb)); } fake_off(); }
int main(int argc,char **argv){ mc_init(argc,argv,"C08"); if(libs_load()) return 2; orc_init();
  mc_units("direct",u_dir,6*192); mc_units("eta3-24bit",u_24,2*256); mc_units("eta2-16bit",u_16,6*64); mc_units("nonces",u_nonce,6*32); mc_units("api-keygen",u_key,6*256); mc_units("api-enc",u_encr,6*256);
  return mc_run(); }
