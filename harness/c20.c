/* C20: the known-answer DRBG, the seed expander and the KAT program. */
#define _GNU_SOURCE
#include "mc.h"
#include "spec.h"
#include "aes_model.h"
#include <dlfcn.h>
#include <stdio.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include "rng.h"   /* the tree's own declarations (copied tree) */
#ifdef NO_DRBG_FIELDS   /* the generator's state is laid out differently: judged through its functions only */
typedef struct { unsigned char Key[32],V[16]; } ctxt;
#define GETCTX(h) NULL
#else
typedef AES256_CTR_DRBG_struct ctxt;
#define GETCTX(h) dlsym(h,"DRBG_ctx")
#endif
#ifdef NO_XOF_FIELDS
#define XCTR(x) dummyctr
static unsigned char dummyctr[16];
#else
#define XCTR(x) x.ctr
#endif
static char DIR_[512];
static struct { const char *nm; void *h; ctxt *ctx; void (*init)(unsigned char*,unsigned char*,int); int (*rb)(unsigned char*,unsigned long long); int (*sei)(AES_XOF_struct*,unsigned char*,unsigned char*,unsigned long); int (*se)(AES_XOF_struct*,unsigned char*,unsigned long); void (*ecb)(unsigned char*,unsigned char*,unsigned char*); } R[2]={{"-O3"},{"-O0"}};
static int lf(void){ for(int i=0;i<2;i++){ char b[600]; snprintf(b,600,"%s/librng%s.so",mc_arg,R[i].nm); R[i].h=dlopen(b,RTLD_NOW|RTLD_LOCAL); if(!R[i].h){ fprintf(stderr,"%s\n",dlerror()); return 2; }
#define S(f,s) *(void**)&R[i].f=dlsym(R[i].h,s); if(!R[i].f){ fprintf(stderr,"missing %s\n",s); return 2; }
    S(init,"randombytes_init") S(rb,"randombytes") S(sei,"seedexpander_init") S(se,"seedexpander") R[i].ecb=dlsym(R[i].h,"AES256_ECB"); R[i].ctx=GETCTX(R[i].h); if(!R[i].ctx) mc_note("DRBG_ctx not exported: counter states only reached through seeding"); } return aes_selftest(); }
static const char *hx(const void*p,size_t n){ return mc_hexs(p,n); }
static void cmp(int r,const uint8_t*g,const uint8_t*w,size_t n,const char*what,long a,long b){ for(size_t i=0;i<n;i++) if(g[i]!=w[i]){ size_t lo=i>4?i-4:0; mc_fail("rng.c (%s) %s (case %ld/%ld): byte %zu of %zu wrong: got[%zu..] %s want %s",R[r].nm,what,a,b,i,n,lo,hx(g+lo,n-lo<24?n-lo:24),hx(w+lo,n-lo<24?n-lo:24)); } }
static void gen(int r,m_drbg*m,size_t n,const char*what,long a,long b){ static uint8_t o[1300000],w[1300000]; memset(o,0xcc,n+64); int rc=R[r].rb(o+16,n); if(rc!=RNG_SUCCESS) mc_fail("randombytes returns %d",rc); m_gen(m,w,n); cmp(r,o+16,w,n,what,a,b); for(int i=0;i<16;i++) if(o[i]!=0xcc||o[16+n+i]!=0xcc) mc_fail("rng.c (%s) randombytes(%zu) writes outside its buffer",R[r].nm,n); mc_trans(1); mc_state(mc_hash(m,sizeof *m)); }
/* a copy whose last byte lies at the end of readable memory */
static uint8_t *gcopy(int slot,const uint8_t*v,int n){ static uint8_t*pg[3]; if(!pg[slot]){ uint8_t*x=mmap(0,8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(x==MAP_FAILED||mprotect(x+4096,4096,PROT_NONE)) mc_fail("harness: guard page"); pg[slot]=x; } return memcpy(pg[slot]+4096-n,v,n); }
static void seedset(int r,m_drbg*m,const uint8_t*e,const uint8_t*p){ uint8_t *ee=gcopy(0,e,48),*pp=p?gcopy(1,p,48):NULL; R[r].init(ee,p?pp:NULL,256); m_init(m,e,p); if(memcmp(ee,e,48)||(p&&memcmp(pp,p,48))) mc_fail("randombytes_init modifies its inputs"); }
/* seeding: every bit of entropy and of the personalisation string, with none, over dirty states */
static void u_seed(long u){ int r=u&1; long c=u>>1; uint8_t e[48],p[48]; m_drbg m; for(int b=0;b<4;b++){ memset(e,b&1?0xff:0,48); memset(p,b&2?0xff:0,48); if(c<384) e[c>>3]^=1<<(c&7); else if(c<768) p[(c-384)>>3]^=1<<(c&7); else mc_fill(e,48,c); if(b>1) mc_fill(c<384?p:e,48,b*7); seedset(r,&m,e,p); gen(r,&m,64,"after seeding with personalisation",c,b); gen(r,&m,17,"second request",c,b); if(R[r].ctx){ memset(R[r].ctx,0xee,sizeof *R[r].ctx); } seedset(r,&m,e,NULL); gen(r,&m,48,"after seeding without personalisation",c,b); } mc_trace(1); }
/* request lengths */
static void u_len(long u){ int r=u&1; long n0=(u>>1)*8; m_drbg m; uint8_t e[48]; mc_fill(e,48,u); for(long n=n0;n<n0+8;n++){ seedset(r,&m,e,NULL); gen(r,&m,n,"request length",n,0); gen(r,&m,33,"request after request length",n,0); } mc_trace(1); }
/* counter states: every position where the carry stops, crossed at every block of a request */
static void u_ctr(long u){ int r=u&1; if(!R[r].ctx) return; long c=u>>1; int k=c%17; long d=c/17; /* k trailing ff bytes, distance d before the wrap */ m_drbg m; for(int kk=0;kk<3;kk++) for(int q=0;q<6;q++){ static const int ln[]={1,16,17,64,160,333}; mc_fill(m.key,32,kk); for(int i=0;i<16;i++) m.v[i]= i>=16-k?0xff: (uint8_t)(0x10*kk+i*3+1); if(kk==2&&k<16) m.v[15-k]=0xfe; if(kk==1&&k<15){ m.v[15-k]=0xff; m.v[14-k]=0x7f; } /* step back d */ for(long s=0;s<d;s++){ for(int i=15;i>=0&&m.v[i]--==0;i--); } memcpy(R[r].ctx->Key,m.key,32); memcpy(R[r].ctx->V,m.v,16); gen(r,&m,ln[q],"counter state",c,kk*8+q); gen(r,&m,48,"after counter state",c,kk*8+q); } mc_trace(1); }
/* all sequences of requests over boundary lengths to a depth */
static void u_seq(long u){ int r=u&1; long c=u>>1; static const int al[]={0,1,15,16,17,31,32,33,48,64}; int D=mc_thorough?5:4; uint8_t e[48]; mc_fill(e,48,3); m_drbg m; long n=1; for(int i=2;i<D;i++) n*=10; for(long q=0;q<n;q++){ seedset(r,&m,e,NULL); long t=q*100+c; for(int i=0;i<D;i++){ gen(r,&m,al[t%10],"request sequence",q*100+c,i); t/=10; } } mc_trace(n); }
/* long requests: sizes around powers of two */
static void u_longreq(long u){ int r=u&1; long k=(u>>1)/5+8; long n=(1l<<k)+(u>>1)%5*8-16; if((u>>1)%5==2) n=1l<<k; m_drbg m; uint8_t e[48]; mc_fill(e,48,u); for(long d=-1;d<=1;d++){ seedset(r,&m,e,NULL); gen(r,&m,n+d,"long request",n+d,0); gen(r,&m,33,"request after a long request",n+d,0); } mc_trace(1); }
/* very many requests after one seeding; re-seeding starts over */
static void u_many(long u){ int r=u&1; int v=u>>1; m_drbg m; uint8_t e[48]; mc_fill(e,48,v); for(int pass=0;pass<2;pass++){ seedset(r,&m,e,NULL);  for(long i=0;i<(mc_thorough?1100000:70000)>>pass;i++) gen(r,&m,v==0?1:v==1?48:v==2?i%49:i%3*16,"request number",i,pass); } mc_trace(1); }
/* ---- seed expander ---- */
typedef struct { uint8_t key[32],ctr[16],buf[16]; int pos; unsigned long rem; } m_se;
static void mse_init(m_se*s,const uint8_t*seed,const uint8_t*div,unsigned long max){ memset(s,0,sizeof *s); memcpy(s->key,seed,32); memcpy(s->ctr,div,8); for(int i=0;i<4;i++) s->ctr[8+i]=(uint8_t)(max>>(24-8*i)); s->pos=16; s->rem=max; }
static void mse_get(m_se*s,uint8_t*o,unsigned long n){ aes_ks k; aes_key(&k,s->key); s->rem-=n; for(unsigned long i=0;i<n;i++){ if(s->pos==16){ aes_enc(&k,s->ctr,s->buf); s->pos=0; for(int j=15;j>=12&&++s->ctr[j]==0;j--); } o[i]=s->buf[s->pos++]; } }
static void se1(int r,AES_XOF_struct*x,m_se*m,unsigned long n,const char*what,long a,long b){ static uint8_t o[5000],w[5000]; memset(o,0xcc,n<4900?n+32:32); if(n<m->rem){ int rc=R[r].se(x,o+16,n); if(rc!=RNG_SUCCESS) mc_fail("seedexpander(%lu) returns %d with %lu bytes left (%s, case %ld/%ld)",n,rc,m->rem,what,a,b); mse_get(m,w,n); cmp(r,o+16,w,n,what,a,b); for(int i=0;i<16;i++) if(o[i]!=0xcc||o[16+n+i]!=0xcc) mc_fail("seedexpander(%lu) writes outside its buffer (%s)",n,what); } else { uint8_t c[16]; memset(c,0xcc,16); int rc=R[r].se(x,c,n); if(rc!=RNG_BAD_REQ_LEN) mc_fail("seedexpander(%lu) returns %d with only %lu bytes left (%s, case %ld/%ld)",n,rc,m->rem,what,a,b); for(int i=0;i<16;i++) if(c[i]!=0xcc) mc_fail("a refused seedexpander request writes output"); } mc_trans(1); mc_state(mc_hash(m,sizeof *m)); }
static void u_sei(long u){ int r=u&1; long c=u>>1; uint8_t seed[32],div[8]; AES_XOF_struct x,*gx; m_se m; static const unsigned long mx[]={0,1,2,16,17,255,256,257,65535,65536,0x10000ff,0x12345678,0xffffffffUL}; for(int k=0;k<13;k++){ memset(seed,k&1?0xff:0,32); memset(div,k&2?0xff:0,8); if(c<256) seed[c>>3]^=1<<(c&7); else div[(c-256)>>3]^=1<<(c&7); memset(&x,0xee,sizeof x); gx=sizeof x%_Alignof(AES_XOF_struct)==0?(AES_XOF_struct*)gcopy(2,(uint8_t*)&x,sizeof x):&x; int rc=R[r].sei(gx,gcopy(0,seed,32),gcopy(1,div,8),mx[k]); x=*gx; if(rc) mc_fail("seedexpander_init returns %d for maxlen %lu",rc,mx[k]); mse_init(&m,seed,div,mx[k]); static const int ln[]={0,1,15,16,17,40}; for(int i=0;i<6;i++) se1(r,&x,&m,ln[i],"seed expander after initialisation",c,k); unsigned char y; AES_XOF_struct sv=x; if(R[r].se(&x,NULL,1)!=RNG_BAD_OUTBUF) mc_fail("seedexpander accepts a null output"); (void)y; (void)sv; se1(r,&x,&m,7,"seed expander after a refused request",c,k); }
  static const unsigned long bad[]={0x100000000UL,0x100000001UL,0xffffffffffffffffUL}; for(int k=0;k<3;k++){ if(R[r].sei(&x,seed,div,bad[k])!=RNG_BAD_MAXLEN) mc_fail("seedexpander_init accepts maxlen %lx",bad[k]); } mc_trace(1); }
/* every (position in block, next chunk) and all chunk sequences */
static void u_sec(long u){ int r=u&1; long c=u>>1; uint8_t seed[32],div[8]; mc_fill(seed,32,1); mc_fill(div,8,2); AES_XOF_struct x; m_se m; for(long n=0;n<100;n++){ R[r].sei(&x,seed,div,1000); mse_init(&m,seed,div,1000); se1(r,&x,&m,c,"first chunk",c,n); se1(r,&x,&m,n,"second chunk",c,n); se1(r,&x,&m,19,"third chunk",c,n); } mc_trace(1); }
static void u_ses(long u){ int r=u&1; long c=u>>1; static const int al[]={0,1,7,15,16,17,32,33}; int D=mc_thorough?6:5; long n=1; for(int i=2;i<D;i++) n*=8; uint8_t seed[32],div[8]; mc_fill(seed,32,1); mc_fill(div,8,2); for(long q=0;q<n;q++){ AES_XOF_struct x; m_se m; R[r].sei(&x,seed,div,120); mse_init(&m,seed,div,120); long t=q*64+c; for(int i=0;i<D;i++){ se1(r,&x,&m,al[t&7],"chunk sequence",q*64+c,i); t>>=3; } } mc_trace(n); }
static void u_semany(long u){ int r=u&1; int v=u>>1; uint8_t seed[32],div[8]; mc_fill(seed,32,1); mc_fill(div,8,2); AES_XOF_struct x; m_se m; R[r].sei(&x,seed,div,0xfffffffful); mse_init(&m,seed,div,0xfffffffful); for(long i=0;i<(mc_thorough?1100000:140000);i++) se1(r,&x,&m,v==0?1:v==1?16:i%35,"expander request number",i,v); static const int L[]={255,256,257,511,512,513,1023,1024,1025,4095,4096,4097,4800}; for(int i=0;i<13;i++) se1(r,&x,&m,L[i],"long expander request",L[i],v); mc_trace(1); }
/* limits: all (maxlen, already drawn, request) around exhaustion */
static void u_lim(long u){ int r=u&1; long mx=u>>1; uint8_t seed[32],div[8]; mc_fill(seed,32,1); mc_fill(div,8,2); for(long d=0;d<=mx;d++) for(long q=0;q<4;q++){ AES_XOF_struct x; m_se m; R[r].sei(&x,seed,div,mx); mse_init(&m,seed,div,mx); se1(r,&x,&m,d,"draw before the limit",mx,d); long n= q==0?mx-d-1:q==1?mx-d:q==2?mx-d+1:3; if(n<0) n=0; se1(r,&x,&m,n,"request at the limit",mx,d*4+q); se1(r,&x,&m,1,"request after the limit",mx,d*4+q); se1(r,&x,&m,4000000000UL,"huge request",mx,d*4+q); se1(r,&x,&m,0,"empty request",mx,d); } mc_trace(1); }
static void u_sctr(long u){
#ifdef NO_XOF_FIELDS
  mc_note("seed expander state laid out differently: counter states judged from the start only"); (void)u; return;
#endif
  int r=u&1; long c=u>>1; int k=c%5; long d=c/5; uint8_t seed[32],div[8]; mc_fill(seed,32,c); mc_fill(div,8,2); AES_XOF_struct x; m_se m; for(int q=0;q<3;q++){ R[r].sei(&x,seed,div,0xfffffffful-q); mse_init(&m,seed,div,0xfffffffful-q); uint32_t v= k==0?0x01020304u: (uint32_t)((0xffffffffull<<(8*(4-k)))>>(8*(4-k))) & (k==4?0xffffffffu:((1u<<(8*k))-1)); if(k&&k<4) v|=(q==1?0x7eu:0x12u)<<(8*k); v-=(uint32_t)d; for(int i=0;i<4;i++){ m.ctr[12+i]=(uint8_t)(v>>(24-8*i)); XCTR(x)[12+i]=m.ctr[12+i]; } se1(r,&x,&m,200,"seed expander counter state",c,q); se1(r,&x,&m,9,"after the counter state",c,q); } mc_trace(1); }
/* requests past 2^31 bytes (built without optimisation); AES replaced by a cheap stand-in through symbol interposition where the build allows it */
static int fastaes; static long fasthits;
void AES256_ECB(unsigned char*k,unsigned char*c,unsigned char*b); void AES256_ECB(unsigned char*k,unsigned char*c,unsigned char*b){ if(fastaes){ fasthits++; memcpy(b,c,16); b[0]^=0x5a; return; } aes_ecb(k,c,b); }
static void u_huge(long u){ char b[600]; snprintf(b,600,"%s/librng-preempt.so",mc_arg); void*h=dlopen(b,RTLD_NOW|RTLD_LOCAL); if(!h) return; int (*rb)(unsigned char*,unsigned long long)=dlsym(h,"randombytes"); ctxt*cx=GETCTX(h); fastaes=1; fasthits=0; uint8_t t[32]; rb(t,32); if(!cx||fasthits<2){ fastaes=0; mc_note("AES cannot be replaced in this build: requests past 2^31 bytes skipped"); return; } mc_limit(200); unsigned long long n=(1ull<<31)+80;
  if(u==1){ /* past 2^32 bytes: 61 MiB of memory mapped over and over, the last window is judged */ const size_t P=61u<<20; n=(1ull<<32)+1040; size_t k=(n+P-1)/P; int fd=memfd_create("win",0); if(fd<0||ftruncate(fd,P)){ mc_note("memfd refused"); fastaes=0; return; } uint8_t*x=mmap(0,k*P,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(x==MAP_FAILED){ mc_note("4 GiB of addresses refused"); fastaes=0; return; } for(size_t i=0;i<k;i++) if(mmap(x+i*P,P,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED) mc_fail("harness: mmap");
    memset(cx->V,0,16); mc_ctx("randombytes(2^32+1040) at -O0"); rb(x,n); for(unsigned long long i=(n-P)/16+1;i<n/16;i++){ uint8_t w[16]={0}; uint64_t v=i+1; for(int j=0;j<8;j++) w[15-j]=(uint8_t)(v>>(8*j)); w[0]^=0x5a; if(memcmp(x+16*i,w,16)) mc_fail("rng.c (-O0) randombytes(2^32+1040): block %llu wrong",i); } munmap(x,k*P); close(fd); fastaes=0; mc_trace(1); mc_count("bytes of the largest request",(long)n); return; }
  uint8_t*x=mmap(0,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(x==MAP_FAILED){ mc_note("2 GiB mapping refused"); fastaes=0; return; } memset(cx->V,0,16); mc_ctx("randombytes(2^31+80) at -O0"); rb(x,n); for(unsigned long long i=0;i<n/16;i+= i+100<n/16&&i>100?99991:1){ uint8_t w[16]={0}; uint64_t v=i+1; for(int j=0;j<8;j++) w[15-j]=(uint8_t)(v>>(8*j)); w[0]^=0x5a; if(memcmp(x+16*i,w,16)) mc_fail("rng.c (-O0) randombytes(2^31+80): block %llu wrong",i); } munmap(x,n); fastaes=0; mc_trace(1); }
/* ---- the KAT program ---- */
static int kat_mode,f_call,f_kind,f_at,ncalls[3]; static m_drbg KD; /* mode 1: faithful stubs on the model */
int randombytes(unsigned char*o,unsigned long long n){ m_gen(&KD,o,n); return 0; }
void randombytes_init(unsigned char*e,unsigned char*p,int s){ (void)s; m_init(&KD,e,p); }
static void det(uint8_t*o,size_t n,const uint8_t*s,uint64_t t){ uint64_t h=mc_hash(s,32)^t; for(size_t i=0;i<n;i++) o[i]=(uint8_t)mc_hash2(h,i); }
#define KEM(N,K) \
int pqcrystals_kyber##N##_ref_keypair(uint8_t*,uint8_t*); int pqcrystals_kyber##N##_ref_keypair(uint8_t*pk,uint8_t*sk){ int bad=f_kind==0&&ncalls[0]==f_call; ncalls[0]++; uint8_t c[64]; randombytes(c,64); det(pk,spec_pkbytes(K),c,1); det(sk,spec_skbytes(K),c,2); return bad?f_at:0; } \
int pqcrystals_kyber##N##_ref_enc(uint8_t*,uint8_t*,const uint8_t*); int pqcrystals_kyber##N##_ref_enc(uint8_t*ct,uint8_t*ss,const uint8_t*pk){ int bad=f_kind==1&&ncalls[1]==f_call; ncalls[1]++; uint8_t c[32]; randombytes(c,32); det(ct,spec_ctbytes(K),c,3); for(int i=0;i<32;i++) ct[i]^=pk[i]; det(ss,32,ct,4); return bad?f_at:0; } \
int pqcrystals_kyber##N##_ref_dec(uint8_t*,const uint8_t*,const uint8_t*); int pqcrystals_kyber##N##_ref_dec(uint8_t*ss,const uint8_t*ct,const uint8_t*sk){ (void)sk; int me=ncalls[2]++; det(ss,32,ct,4); if(f_kind==3&&me==f_call) ss[f_at>>3]^=1<<(f_at&7); return f_kind==2&&me==f_call?f_at:0; }
KEM(512,2) KEM(768,3) KEM(1024,4)
/* fopen as seen by the KAT program (compiled with -Dfopen=kat_fopen) */
static int fo_n,fo_fail,fo_didcut; static long fo_cut=-1; FILE*kat_fopen(const char*n,const char*m); FILE*kat_fopen(const char*n,const char*m){ int k=fo_n++; if(k==fo_fail) return NULL; if(fo_cut>=0&&m[0]=='r'){ if(truncate(n,fo_cut)) mc_fail("harness: truncate"); fo_didcut=1; } return fopen(n,m); }
static void tmpd(char*d){ snprintf(d,256,"%s/kat-XXXXXX",mc_arg); if(!mkdtemp(d)||chdir(d)) mc_fail("harness: scratch directory"); }
static char *slurp(const char*f){ FILE*p=fopen(f,"rb"); if(!p) return NULL; fseek(p,0,SEEK_END); long n=ftell(p); rewind(p); char*b=malloc(n+1); if(fread(b,1,n,p)!=(size_t)n){} b[n]=0; fclose(p); return b; }
static void hexline(char**o,const char*l,const uint8_t*b,size_t n){ *o+=sprintf(*o,"%s",l); for(size_t i=0;i<n;i++) *o+=sprintf(*o,"%02X",b[i]); *o+=sprintf(*o,"\n"); }
static const char *alg(int K){ return K==2?"Kyber512":K==3?"Kyber768":"Kyber1024"; }
/* the expected files; real=1: with the executable specification */
static void expect(int K,char*req,char*rsp,int real){ m_drbg d; uint8_t e[48]; for(int i=0;i<48;i++) e[i]=i; m_init(&d,e,NULL); uint8_t seeds[100][48]; char*o=req; for(int i=0;i<100;i++){ m_gen(&d,seeds[i],48); o+=sprintf(o,"count = %d\n",i); hexline(&o,"seed = ",seeds[i],48); o+=sprintf(o,"pk =\nsk =\nct =\nss =\n\n"); } o=rsp; o+=sprintf(o,"# %s\n\n",alg(K)); for(int i=0;i<100;i++){ uint8_t pk[1568],sk[3168],ct[1568],ss[32],c[64]; m_init(&KD,seeds[i],NULL); if(real){ m_gen(&KD,c,64); spec_keypair(K,c,pk,sk); m_gen(&KD,c,32); spec_enc(K,pk,c,ct,ss); } else { f_kind=-1; if(K==2){ pqcrystals_kyber512_ref_keypair(pk,sk); pqcrystals_kyber512_ref_enc(ct,ss,pk); } else if(K==3){ pqcrystals_kyber768_ref_keypair(pk,sk); pqcrystals_kyber768_ref_enc(ct,ss,pk); } else { pqcrystals_kyber1024_ref_keypair(pk,sk); pqcrystals_kyber1024_ref_enc(ct,ss,pk); } } o+=sprintf(o,"count = %d\n",i); hexline(&o,"seed = ",seeds[i],48); hexline(&o,"pk = ",pk,spec_pkbytes(K)); hexline(&o,"sk = ",sk,spec_skbytes(K)); hexline(&o,"ct = ",ct,spec_ctbytes(K)); hexline(&o,"ss = ",ss,32); o+=sprintf(o,"\n"); } }
static char *REQ,*RSP; static void bufs(void){ if(!REQ){ REQ=malloc(1<<16); RSP=malloc(4<<20); } }
static void same(const char*got,const char*want,const char*f){ if(!got) mc_fail("the known-answer program did not write %s",f); size_t i=0; int line=1; while(got[i]&&got[i]==want[i]){ if(got[i]=='\n') line++; i++; } if(got[i]!=want[i]) mc_fail("%s written by the known-answer program differs at byte %zu (line %d): got '%.40s' want '%.40s'",f,i,line,got+i,want+i); }
static void rmd(const char*d){ char b[800]; static const char*s[]={"1632","2400","3168"}; for(int i=0;i<3;i++){ snprintf(b,800,"%s/PQCkemKAT_%s.req",d,s[i]); unlink(b); snprintf(b,800,"%s/PQCkemKAT_%s.rsp",d,s[i]); unlink(b); } if(chdir("/")){} rmdir(d); }
static void u_kat(long u){ int K=2+u%3,san=u/3; bufs(); char d[256],b[700]; tmpd(d); int N=K==2?512:K==3?768:1024; snprintf(b,700,"%s/%s/nistkat/PQCgenKAT_kem%d",san?mc_arg:mc_libdir,san?"san":"ref",N); pid_t p=fork(); if(p==0){ setenv("ASAN_OPTIONS","detect_leaks=0",1); int fd=open("/dev/null",O_WRONLY); dup2(fd,1); if(san) dup2(open("err.txt",O_WRONLY|O_CREAT,0600),2); execl(b,b,(char*)0); _exit(99); } int st; waitpid(p,&st,0); if(!WIFEXITED(st)||WEXITSTATUS(st)){ char*e=san?slurp("err.txt"):""; mc_fail("PQCgenKAT_kem%d%s ends with status %x %.1500s",N,san?" (address and undefined-behaviour checks on)":"",st,e); } if(san) unlink("err.txt"); expect(K,REQ,RSP,1); snprintf(b,700,"PQCkemKAT_%zu.req",spec_skbytes(K)); char*g=slurp(b); same(g,REQ,b); snprintf(b,700,"PQCkemKAT_%zu.rsp",spec_skbytes(K)); g=slurp(b); same(g,RSP,b); rmd(d); mc_trans(300); mc_trace(100); mc_state(mc_hash2(u,0xc207)); }
/* fault enumeration: every call position x kind of failure must end in the failure status, with everything before it written */
static int run_kat(int K){ char b[700]; snprintf(b,700,"%s/libkat%d.so",mc_arg,K); void*h=dlopen(b,RTLD_NOW|RTLD_LOCAL); if(!h) mc_fail("harness: %s",dlerror()); int (*m)(void)=dlsym(h,"kat_main"); fflush(stdout); int so=dup(1),fd=open("/dev/null",O_WRONLY); dup2(fd,1); close(fd); memset(ncalls,0,sizeof ncalls); fo_n=0; int r=m(); fflush(stdout); dup2(so,1); close(so); dlclose(h); return r; }
static void u_fault(long u){ int K=2+u%3; int call=u/3; bufs(); char d[256]; tmpd(d); static const int rets[]={1,-1,256,0x7fffffff}; expect(K,REQ,RSP,0); char nm[64]; snprintf(nm,64,"PQCkemKAT_%zu.rsp",spec_skbytes(K));
  for(int kind=0;kind<4;kind++) for(int v=0;v<(kind==3?(call==0?256:8):4);v++){ f_kind=kind; f_call=call; f_at= kind==3? (call==0?v:v*37%256): rets[v]; fo_fail=-1; mc_ctx("KAT program, fault kind %d at call %d value %d",kind,call,f_at); int r=run_kat(K); if(r!=-4) mc_fail("the known-answer program returns %d when %s %d %s",r,kind==0?"key generation":kind==1?"encapsulation":"decapsulation",call,kind==3?"gives a different secret":"fails"); mc_trans(1); }
  /* the request file ends right behind the number of this vector, or inside the marker before its seed */
  if(call<100){ f_kind=-1; char mk[32]; snprintf(mk,32,"count = %d\n",call); char*q=strstr(REQ,mk); if(!q) mc_fail("harness: no vector %d",call); for(int k=0;k<7;k++){ fo_cut=(q-REQ)+(long)strlen(mk)+k; fo_fail=-1; mc_ctx("KAT program, request file cut at byte %ld",fo_cut); fo_didcut=0; int r=run_kat(K); fo_cut=-1; if(r==0&&fo_didcut) mc_fail("the known-answer program reports success although the request file has no seed for vector %d",call); mc_trans(1); } }
  if(call<3){ f_kind=-1; fo_fail=call; int r=run_kat(K); if(fo_n>call&&r!=-1) mc_fail("the known-answer program returns %d when file open %d fails",r,call); fo_fail=-1; r=run_kat(K); if(r) mc_fail("the known-answer program returns %d without any fault",r); char*g=slurp(nm); same(g,RSP,nm); free(g); mc_trans(2); } f_kind=-1; rmd(d); mc_trace(1); mc_state(mc_hash2(u,0xc208)); }
/* the file readers: all small files over an alphabet against their meaning */
static void u_find(long u){ char b[700]; snprintf(b,700,"%s/libkat2.so",mc_arg); void*h=dlopen(b,RTLD_NOW|RTLD_LOCAL); int (*fm)(FILE*,const char*)=dlsym(h,"FindMarker"); if(!fm){ mc_note("FindMarker not exported"); return; } static const char*MK[]={"a","ab","aab","aba","aaa = "}; const char AL[]="ab =\n"; const char*mk=MK[u%5]; long c=u/5; int ml=strlen(mk),L=mc_thorough?8:7; /* first two letters from c */ long n=1; for(int i=2;i<L;i++) n*=5; for(long q=0;q<n;q++){ char s[10]; long t=q*25+c; for(int i=0;i<L;i++){ s[i]=AL[t%5]; t/=5; } s[L]=0; FILE*f=fmemopen(s,L,"r"); int r=fm(f,mk); long pos=ftell(f); fclose(f); char*w=strstr(s,mk); if(r!=(w!=NULL)||(w&&pos!=w-s+ml)) mc_fail("FindMarker(\"%s\") on \"%s\" returns %d at position %ld",mk,s,r,pos); } mc_trans(n); mc_trace(n); mc_state(mc_hash2(u,0xc209)); }
static int hv(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static void u_hex(long u){ char b[700]; snprintf(b,700,"%s/libkat2.so",mc_arg); void*h=dlopen(b,RTLD_NOW|RTLD_LOCAL); int (*rh)(FILE*,unsigned char*,int,char*)=dlsym(h,"ReadHex"); void (*pb)(FILE*,char*,unsigned char*,unsigned long long)=dlsym(h,"fprintBstr"); if(!rh||!pb){ mc_note("ReadHex not exported"); return; } const char AL[]="0 fA9\n-"; int len=1+u%4; long c=u/4; int L=mc_thorough?7:6; long n=1; for(int i=1;i<L;i++) n*=7; for(long q=0;q<n;q++){ char s[40]="xs = "; long t=q*7+c; for(int i=0;i<L;i++){ s[5+i]=AL[t%7]; t/=7; } s[5+L]=0; uint8_t g[8],w[8]; memset(g,0xcc,8); memset(w,0xcc,8); memset(w,0,len); int st=0; for(int i=5;i<5+L;i++){ int v=hv(s[i]); if(v<0){ if(st||s[i]=='\n') break; else continue; } st=1; for(int k=0;k<len-1;k++) w[k]=w[k]<<4|w[k+1]>>4; w[len-1]=w[len-1]<<4|v; } FILE*f=fmemopen(s,5+L,"r"); int r=rh(f,g,len,"s = "); fclose(f); if(r!=1||memcmp(g,w,8)) mc_fail("ReadHex(%d bytes) of \"%s\" returns %d with %s, should be %s",len,s,r,hx(g,len),hx(w,len)); } for(int v=0;v<256;v++){ uint8_t a[4]={v,(uint8_t)~v,(uint8_t)(v*7),0xcc},z[8]; char t[64]; FILE*f=fmemopen(t,64,"w"); pb(f,"q = ",a,3); fclose(f); char w[64]; sprintf(w,"q = %02X%02X%02X\n",a[0],a[1],a[2]); if(strncmp(t,w,11)) mc_fail("fprintBstr prints %.20s",t); f=fmemopen(t,11,"r"); int r=rh(f,z,3,"q = "); fclose(f); if(!r||memcmp(z,a,3)) mc_fail("ReadHex does not read back fprintBstr"); } mc_trans(n); mc_trace(n); mc_state(mc_hash2(u,0xc20a)); }
int main(int argc,char **argv){ mc_init(argc,argv,"C20"); int r=spec_selftest(); if(r) return 2; if(lf()) return 2;
  mc_units("kat-files",u_kat,6); mc_units("huge-request",u_huge,2); mc_units("kat-faults",u_fault,300); mc_units("seeding",u_seed,2*800); mc_units("request-lengths",u_len,2*(mc_thorough?512:100)); mc_units("counter-states",u_ctr,2*17*(mc_thorough?24:6)); mc_units("long-requests",u_longreq,2*5*13); mc_units("many-requests",u_many,2*4); mc_units("expander-many",u_semany,2*3); mc_units("request-sequences",u_seq,2*100); mc_units("expander-init",u_sei,2*320); mc_units("expander-chunks",u_sec,2*100); mc_units("expander-sequences",u_ses,2*64); mc_units("expander-limits",u_lim,2*70); mc_units("expander-counter",u_sctr,2*5*14); mc_units("find-marker",u_find,5*25); mc_units("read-hex",u_hex,4*7);
  return mc_run(); }
