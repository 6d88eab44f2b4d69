/* C14: memory safety. Every caller buffer has exactly its documented size and
 * ends (or starts) at an inaccessible page; inputs are write-protected during
 * the call. The same enumeration also runs under ASan/UBSan builds (-DSAN),
 * where buffers are exact heap blocks with red zones. */
#include "fakes.h"
#include <sys/mman.h>
#include <unistd.h>
#define NS 16
#define PGS 20
static struct { uint8_t *m; uint8_t *p; size_t n; int in; } S_[NS]; static int side;
#ifdef SAN
#define LEN_STEP (mc_thorough?1:3)
static uint8_t *place(int k,size_t n,int in){ free(S_[k].m); S_[k].m=malloc(n?n:1); S_[k].p=n?S_[k].m:S_[k].m+1; S_[k].n=n; S_[k].in=in; memset(S_[k].p,0xd7,n); return S_[k].p; }
static uint8_t *placea(int k,size_t n){ free(S_[k].m); S_[k].m=aligned_alloc(32,(n+31)&~31ul); S_[k].p=S_[k].m; S_[k].n=n; S_[k].in=0; memset(S_[k].m,0xd7,n); return S_[k].p; }
static void seal(void){} static void unseal(const char*w){ (void)w; }
#else
#define LEN_STEP 1
/* [guard][PGS pages][guard] */
static uint8_t *place(int k,size_t n,int in){ size_t cap=PGS*4096; if(!S_[k].m){ uint8_t *b=mmap(0,cap+8192,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(b==MAP_FAILED){ perror("mmap"); exit(2);} S_[k].m=b+4096; mprotect(S_[k].m,cap,PROT_READ|PROT_WRITE); memset(S_[k].m,0xd7,cap); } if(n>cap) mc_fail("harness buffer too big"); S_[k].p= side?S_[k].m:S_[k].m+cap-n; S_[k].n=n; S_[k].in=in; return S_[k].p; }
static uint8_t *placea(int k,size_t n){ return place(k,n,0); }
static void seal(void){ for(int k=0;k<NS;k++) if(S_[k].m&&S_[k].in) mprotect(S_[k].m,PGS*4096,PROT_READ); }
static void unseal(const char *what){ size_t cap=PGS*4096; for(int k=0;k<NS;k++) if(S_[k].m){ if(S_[k].in) mprotect(S_[k].m,cap,PROT_READ|PROT_WRITE); else if(S_[k].p){ /* nothing around an output may have changed (near neighbourhood) */ uint8_t *a=S_[k].p,*e=a+S_[k].n; for(int i=1;i<=600&&a-i>=S_[k].m;i++) if(a[-i]!=0xd7) mc_fail("%s: byte %d before the buffer (argument %d, %zu bytes) was overwritten",what,i,k,S_[k].n); for(int i=0;i<600&&e+i<S_[k].m+cap;i++) if(e[i]!=0xd7) mc_fail("%s: byte %d behind the buffer (argument %d, %zu bytes) was overwritten",what,i,k,S_[k].n); } if(S_[k].p) memset(S_[k].p,0xd7,S_[k].n); S_[k].in=0; S_[k].p=NULL; S_[k].n=0; } }
#endif
static void reset(void){ for(int k=0;k<NS;k++){ S_[k].in=0; S_[k].p=NULL; S_[k].n=0; } }
static void putin(int k,const uint8_t*src,size_t n){ memcpy(place(k,n,1),src,n); }
#define NCON 12
static void con(uint8_t*b,size_t n,int c,uint64_t tag){ for(size_t i=0;i<n;i++) switch(c){ case 0: b[i]=0; break; case 1: b[i]=0xff; break; case 2: b[i]=i%3==0?0x01:i%3==1?0x1d:0xd0; break; /* all coefficients 3329 */ case 3: b[i]=(uint8_t)(i*37); break; case 4: b[i]=0x55; break; case 5: b[i]=0xaa; break; case 6: b[i]= i<n-32?0xff:0; break; case 7: b[i]= i%3==0?0x00:i%3==1?0x0d:0xd0; break; default: b[i]=(uint8_t)mc_hash2(tag*16+c,i); } }
/* ---- the key encapsulation API ---- */
static void setup(int f,int K){ if(f==0){ fake_off(); return; } f_reset(K); F_rej= f==1?1:f==2?2:f==3?7:0; for(int x=0;x<K;x++) for(int y=0;y<K;y++) f_matpat(F_A[x][y],f%NMP,x*4+y); for(int j=0;j<9;j++){ f_noisepat(F_N[0][j],1+f%(NNP-1),spec_eta1(K),j); f_noisepat(F_N[1][j],1+(f+1)%(NNP-1),j<K?spec_eta1(K):2,j); } }
static uint8_t rb[64]; static size_t rbp; static void rnd(uint8_t*o,size_t n){ for(size_t i=0;i<n;i++) o[i]=rb[rbp++&63]; }
static void u_kem(long u){ int im=u%6; kyber*k=&KY[im]; int c=(u/6)%NCON, f=(u/6/NCON); int K=k->K; uint8_t t[3200]; rnd_hook=rnd;
  for(side=0;side<2;side++){ reset(); setup(f,K); F_phase=0; con(rb,64,c,u);
    mc_ctx("%s keypair_derand content %d oracle %d side %d",k->name,c,f,side); uint8_t *pk=place(0,k->pkb,0),*sk=place(1,k->skb,0); con(t,64,c,u); putin(2,t,64); seal(); k->keypair_derand(pk,sk,S_[2].p); uint8_t hpk[1568],hsk[3168]; memcpy(hpk,pk,k->pkb); memcpy(hsk,sk,k->skb); unseal("keypair_derand");
    mc_ctx("%s keypair content %d side %d",k->name,c,side); pk=place(0,k->pkb,0),sk=place(1,k->skb,0); rbp=0; k->keypair(pk,sk); unseal("keypair");
    for(int q=0;q<2;q++){ F_phase=1; uint8_t*ct,*ss; mc_ctx("%s enc_derand content %d/%d oracle %d side %d",k->name,c,q,f,side); if(q) con(t,k->pkb,c,u+1); else memcpy(t,hpk,k->pkb); putin(3,t,k->pkb); con(t,32,(c+3)%NCON,u+2); putin(4,t,32); ct=place(5,k->ctb,0); ss=place(6,32,0); seal(); k->enc_derand(ct,ss,S_[3].p,S_[4].p); uint8_t hct[1568]; memcpy(hct,ct,k->ctb); unseal("enc_derand");
      mc_ctx("%s enc content %d/%d side %d",k->name,c,q,side); if(q) con(t,k->pkb,c,u+1); else memcpy(t,hpk,k->pkb); putin(3,t,k->pkb); ct=place(5,k->ctb,0); ss=place(6,32,0); rbp=0; seal(); k->enc(ct,ss,S_[3].p); unseal("enc");
      for(int r=0;r<3;r++){ mc_ctx("%s dec content %d/%d/%d oracle %d side %d",k->name,c,q,r,f,side); if(r==2) con(t,k->skb,c,u+3); else memcpy(t,hsk,k->skb); putin(7,t,k->skb); if(r==1) con(t,k->ctb,c,u+4); else memcpy(t,hct,k->ctb); putin(8,t,k->ctb); ss=place(9,32,0); seal(); k->dec(ss,S_[8].p,S_[7].p); unseal("dec"); mc_trans(1); } mc_trans(2); }
    mc_trans(2); mc_trace(1); mc_state(mc_hash2(u,side)); } fake_off(); rnd_hook=NULL; }
/* internal entry points with exact documented sizes */
static void u_cpa(long u){ int im=u%6; kyber*k=&KY[im]; int c=u/6,K=k->K; uint8_t t[3200]; if(!k->cpa_keypair||!k->cpa_enc||!k->cpa_dec){ mc_note("%s indcpa functions not exported",k->name); return; } for(side=0;side<2;side++){ reset(); mc_ctx("%s indcpa functions content %d side %d",k->name,c,side); uint8_t*pk=place(0,k->pkb,0),*sk=place(1,384*K,0); con(t,32,c,u); putin(2,t,32); seal(); k->cpa_keypair(pk,sk,S_[2].p); unseal("indcpa_keypair_derand"); con(t,32,c,u); putin(3,t,32); con(t,k->pkb,c,u); putin(4,t,k->pkb); con(t,32,11-c,u); putin(5,t,32); uint8_t*ct=place(6,k->ctb,0); seal(); k->cpa_enc(ct,S_[3].p,S_[4].p,S_[5].p); unseal("indcpa_enc"); con(t,k->ctb,c,u); putin(3,t,k->ctb); con(t,384*K,c,u); putin(4,t,384*K); uint8_t*m=place(5,32,0); seal(); k->cpa_dec(m,S_[3].p,S_[4].p); unseal("indcpa_dec"); mc_trans(3); } mc_trace(1); mc_state(mc_hash2(u,0xc142)); }
static void u_ver(long u){ int im=u%6; kyber*k=&KY[im]; size_t n=u/6*LEN_STEP; if(!k->verify||!k->cmov){ mc_note("%s verify/cmov not exported",k->name); return; } for(side=0;side<2;side++){ reset(); mc_ctx("%s verify/cmov length %zu side %d",k->name,n,side); memset(place(0,n,1),1,n); memset(place(1,n,1),1,n); seal(); if(k->verify(S_[0].p,S_[1].p,n)) mc_fail("%s verify(equal, %zu) != 0",k->name,n); unseal("verify"); for(int b=0;b<2;b++){ uint8_t*r=place(2,n,0); memset(r,0xd7,n); memset(place(3,n,1),2,n); seal(); k->cmov(r,S_[3].p,n,b); unseal("cmov"); } mc_trans(3); } mc_trace(1); mc_state(mc_hash2(u,0xc143)); }
/* ---- hashing: all input lengths, all output lengths ---- */
typedef void (*f_one)(uint8_t*,size_t,const uint8_t*,size_t); typedef void (*f_s3)(uint8_t*,const uint8_t*,size_t);
static void u_hin(long u){ int l=u&1; size_t n=(u>>1)*LEN_STEP; f_s3 s3[2]={(f_s3)fsym(l,"sha3_256"),(f_s3)fsym(l,"sha3_512")}; f_one sh[2]={(f_one)fsym(l,"shake128"),(f_one)fsym(l,"shake256")}; 
  for(side=0;side<2;side++){ reset(); for(int a=0;a<2;a++){ mc_ctx("%s sha3_%d of %zu bytes side %d",l?"avx2":"ref",a?512:256,n,side); if(s3[a]){ memset(place(0,n,1),0x5e,n); uint8_t*o=place(1,a?64:32,0); seal(); s3[a](o,S_[0].p,n); unseal("sha3"); } static const int ol[]={0,1,7,8,9,31,32,33,64,135,136,137,167,168,169,200,335,336,337,500}; if(sh[a]) for(int k=0;k<20;k++){ if(n>180&&k%5!=(int)(n%5)&&!mc_thorough) continue; mc_ctx("%s shake%d %zu bytes in, %d out, side %d",l?"avx2":"ref",a?256:128,n,ol[k],side); memset(place(0,n,1),0x5e,n); uint8_t*o=place(1,ol[k],0); seal(); sh[a](o,ol[k],S_[0].p,n); unseal("shake"); mc_trans(1); } } } mc_trace(1); mc_state(mc_hash2(u,0xc144)); }
static void u_hout(long u){ int l=u&1; size_t m=(u>>1)*LEN_STEP; f_one sh[2]={(f_one)fsym(l,"shake128"),(f_one)fsym(l,"shake256")}; for(side=0;side<2;side++){ reset(); for(int a=0;a<2;a++) if(sh[a]) for(int n=0;n<3;n++){ mc_ctx("%s shake%d %zu bytes out side %d",l?"avx2":"ref",a?256:128,m,side); memset(place(0,n*33,1),0x5e,n*33); uint8_t*o=place(1,m,0); seal(); sh[a](o,m,S_[0].p,n*33); unseal("shake"); mc_trans(1); } } mc_trace(1); mc_state(mc_hash2(u,0xc145)); }
/* incremental interface: (position, chunk) with state and chunk at the page edge; the state is 25 words and a position */
static void u_hinc(long u){ int l=u&1,a=u>>1&1; size_t p=(u>>2)*LEN_STEP; char b[64]; void (*init)(void*),(*ab)(void*,const uint8_t*,size_t),(*fin)(void*),(*sq)(uint8_t*,size_t,void*),(*sqb)(uint8_t*,size_t,void*),(*once)(void*,const uint8_t*,size_t);
#define L(v,s) snprintf(b,64,"shake%d" s,a?256:128); *(void**)&v=fsym(l,b); if(!v){ mc_note("%s missing",b); return; }
  L(init,"_init") L(ab,"_absorb") L(fin,"_finalize") L(sq,"_squeeze") L(sqb,"_squeezeblocks") L(once,"_absorb_once") size_t r=a?136:168; static const int cs[]={0,1,2,7,8,9,15,16,17,31,32,33,127,128,129,135,136,137,160,167,168,169,272,300};
  for(side=0;side<2;side++) for(int k=0;k<24;k++){ reset(); size_t n=cs[k]; mc_ctx("%s shake%d absorb(%zu), absorb(%zu), then squeeze(%zu), squeeze(%zu), side %d",l?"avx2":"ref",a?256:128,p,n,p,n,side); size_t SZ=state_size(l); uint8_t *st=placea(0,SZ); init(st); memset(place(1,p,1),0x33,p); memset(place(2,n,1),0x44,n); seal(); ab(st,S_[1].p,p); ab(st,S_[2].p,n); fin(st); uint8_t*o1=place(3,p,0),*o2=place(4,n,0); sq(o1,p,st); sq(o2,n,st); unseal("incremental shake"); mc_trans(4);
    if(k<4){ reset(); st=placea(0,SZ); memset(place(1,p,1),0x33,p); seal(); once(st,S_[1].p,p); o1=place(3,k*r,0); sqb(o1,k,st); unseal("absorb_once+squeezeblocks"); mc_trans(2); } } mc_trace(1); mc_state(mc_hash2(u,0xc146)); }
/* ---- four-way ---- */
typedef void (*f_x4)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t);
static void u_x4(long u){ int a=u&1; size_t n=(u>>1)*LEN_STEP; f_x4 f=(f_x4)xsym(a?"shake256x4":"shake128x4"); void (*ab)(void*,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t)=xsym(a?"shake256x4_absorb_once":"shake128x4_absorb_once"); void (*sb)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,void*)=xsym(a?"shake256x4_squeezeblocks":"shake128x4_squeezeblocks"); if(!f||!ab||!sb) mc_fail("four-way functions missing"); size_t r=a?136:168; static const int ol[]={0,1,8,31,32,33,135,136,137,167,168,169,300,336,337};
  for(side=0;side<2;side++){ for(int k=0;k<15;k++){ if(n>180&&k%5!=(int)(n%5)&&!mc_thorough) continue; reset(); size_t m=ol[k]; mc_ctx("%s %zu bytes in, %zu out, side %d",a?"shake256x4":"shake128x4",n,m,side); for(int j=0;j<4;j++) memset(place(j,n,1),j,n); for(int j=4;j<8;j++) place(j,m,0); seal(); f(S_[4].p,S_[5].p,S_[6].p,S_[7].p,m,S_[0].p,S_[1].p,S_[2].p,S_[3].p,n); unseal("four-way shake"); mc_trans(1); }
    for(int nb=0;nb<3;nb++){ reset(); mc_ctx("%s absorb_once(%zu), squeezeblocks(%d), side %d",a?"shake256x4":"shake128x4",n,nb,side); for(int j=0;j<4;j++) memset(place(j,n,1),j,n); for(int j=4;j<8;j++) place(j,nb*r,0); uint8_t*st=placea(8,state_size(2)); seal(); ab(st,S_[0].p,S_[1].p,S_[2].p,S_[3].p,n); sb(S_[4].p,S_[5].p,S_[6].p,S_[7].p,nb,st); unseal("four-way absorb/squeeze"); mc_trans(2); } } mc_trace(1); mc_state(mc_hash2(u,0xc147)); }
static void u_x4o(long u){ int a=u&1; size_t m=(u>>1)*LEN_STEP; f_x4 f=(f_x4)xsym(a?"shake256x4":"shake128x4"); for(side=0;side<2;side++){ reset(); mc_ctx("%s 34 bytes in, %zu out, side %d",a?"shake256x4":"shake128x4",m,side); for(int j=0;j<4;j++) memset(place(j,34,1),j,34); for(int j=4;j<8;j++) place(j,m,0); seal(); f(S_[4].p,S_[5].p,S_[6].p,S_[7].p,m,S_[0].p,S_[1].p,S_[2].p,S_[3].p,34); unseal("four-way shake"); mc_trans(1); } mc_trace(1); mc_state(mc_hash2(u,0xc148)); }
/* multi-lane state operations */
static void u_snp(long u){ int inst=u&3,off=(u>>2)*LEN_STEP; if(off>200) return; void (*add)(void*,unsigned,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_AddBytes"),(*ow)(void*,unsigned,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_OverwriteBytes"); void (*ext)(const void*,unsigned,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractBytes"); void (*exa)(const void*,unsigned,const uint8_t*,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractAndAddBytes"); void (*ozr)(void*,unsigned,unsigned)=xsym("KeccakP1600times4_OverwriteWithZeroes"); if(!add||!ow||!ext||!exa||!ozr){ mc_note("state operations not exported"); return; }
  for(side=0;side<2;side++) for(int len=0;off+len<=200;len++){ reset(); mc_ctx("state byte operations instance %d offset %d length %d side %d",inst,off,len,side); uint8_t*st=placea(0,800); memset(st,3,800); memset(place(1,len,1),7,len); uint8_t*o=place(2,len,0),*o2=place(3,len,0); seal(); add(st,inst,S_[1].p,off,len); ow(st,inst,S_[1].p,off,len); ext(st,inst,o,off,len); exa(st,inst,S_[1].p,o2,off,len); ozr(st,inst,off+len); unseal("state byte operations"); mc_trans(5); } mc_trace(1); mc_state(mc_hash2(u,0xc149)); }
static void u_snl(long u){ int cnt=u%26,ex=u/26; int lo=cnt+ex; if(cnt==0&&lo==0) lo=1; void (*add)(void*,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_AddLanesAll"),(*ow)(void*,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_OverwriteLanesAll"); void (*ext)(const void*,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractLanesAll"); void (*exa)(const void*,const uint8_t*,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractAndAddLanesAll"); size_t (*fl[2])(void*,unsigned,unsigned,unsigned,const uint8_t*,size_t)={xsym("KeccakF1600times4_FastLoop_Absorb"),xsym("KeccakP1600times4_12rounds_FastLoop_Absorb")}; if(!add||!ow||!ext||!exa||!fl[0]||!fl[1]) return; size_t n=cnt?(size_t)(3*lo+cnt)*8:0;
  for(side=0;side<2;side++){ reset(); mc_ctx("state lane operations count %d offset %d side %d",cnt,lo,side); uint8_t*st=placea(0,800); memset(st,3,800); memset(place(1,n,1),7,n); uint8_t*o=place(2,n,0),*o2=place(3,n,0); seal(); add(st,S_[1].p,cnt,lo); ow(st,S_[1].p,cnt,lo); ext(st,o,cnt,lo); exa(st,S_[1].p,o2,cnt,lo); unseal("state lane operations"); mc_trans(4); if(cnt) for(int k=0;k<2;k++) for(int nb=0;nb<3;nb++) for(int t=0;t<10;t+=9){ reset(); size_t q=(size_t)nb*cnt*4*8+t; mc_ctx("absorbing loop %d lanes %d bytes %zu side %d",k,cnt,q,side); st=placea(0,800); memset(st,3,800); memset(place(1,q,1),7,q); seal(); fl[k](st,cnt,cnt,4*cnt,S_[1].p,q); unseal("absorbing loop"); mc_trans(1); } } mc_trace(1); mc_state(mc_hash2(u,0xc14a)); }
/* random-byte consumer of exact size is checked by C05 */
int main(int argc,char **argv){ mc_init(argc,argv,"C14"); if(libs_load()) return 2; orc_init();
  mc_units("kem",u_kem,6*NCON*8); mc_units("indcpa",u_cpa,6*NCON); mc_units("verify-cmov",u_ver,6*(1601/LEN_STEP)); mc_units("hash-input",u_hin,2*(700/LEN_STEP)); mc_units("hash-output",u_hout,2*(1100/LEN_STEP)); mc_units("hash-incremental",u_hinc,4*(346/LEN_STEP)); mc_units("x4-input",u_x4,2*(600/LEN_STEP)); mc_units("x4-output",u_x4o,2*(1100/LEN_STEP)); mc_units("state-bytes",u_snp,4*(201/LEN_STEP)); mc_units("state-lanes",u_snl,26*4);
  return mc_run(); }
