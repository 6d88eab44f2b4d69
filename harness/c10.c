/* C10: SHA-3/SHAKE, every length, chunking and legal call sequence. */
#include "libs.h"
#include "util.h"
#include <sys/mman.h>
/* sha3_256 of 2^32+3 zero bytes, computed with CPython hashlib */
#define HUGE_DIGEST512 "a6dde3cd610c4acfa9c2139859f1150f856d0c5b193fd28ec74be8827ca9e4d8261bb0f403f2c04f5435670cb69e099c3fe8b5b51671da917bfb79918468b9b8"
#define HUGE_DIGEST "c76e07395e1fc55b6930f1be0323878693e2cb634afc91297ce8436b027861ad"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
typedef struct { uint8_t b[512] __attribute__((aligned(64))); } st;
static struct H { void (*init)(void*),(*absorb)(void*,const uint8_t*,size_t),(*fin)(void*),(*sq)(uint8_t*,size_t,void*),(*once)(void*,const uint8_t*,size_t),(*sqb)(uint8_t*,size_t,void*),(*one)(uint8_t*,size_t,const uint8_t*,size_t); unsigned rate; int alg; } H[2][2];
static void (*S3[2][2])(uint8_t*,const uint8_t*,size_t); static const unsigned S3R[2]={136,72}; static const unsigned S3L[2]={32,64};
static void load(void){ for(int l=0;l<2;l++){ for(int a=0;a<2;a++){ struct H*h=&H[l][a]; char b[64]; h->rate=a?136:168; h->alg=a?A_SHAKE256:A_SHAKE128;
#define L(f,s) snprintf(b,64,"shake%d" s,a?256:128); *(void**)&h->f=fsym(l,b); if(!h->f){ fprintf(stderr,"missing fips202 function %s\n",b); exit(2);} 
  L(init,"_init") L(absorb,"_absorb") L(fin,"_finalize") L(sq,"_squeeze") L(once,"_absorb_once") L(sqb,"_squeezeblocks") L(one,"") } S3[l][0]=(void*)fsym(l,"sha3_256"); S3[l][1]=(void*)fsym(l,"sha3_512"); if(!S3[l][0]||!S3[l][1]) exit(2); } }
/* message families and cached expected streams by total length */
#define ML 1400
static uint8_t M[3][ML+64]; static uint8_t *EX[2][3]; /* [alg][family][len*OL] */
#define OL 700
static char *EXh[2][3];
static void fam(void){ static int d; if(d) return; d=1; for(int i=0;i<ML+64;i++){ M[0][i]=(uint8_t)(i*7+(i>>8)*3+1); M[1][i]=0xff; M[2][i]=(uint8_t)(mc_hash2(5,i)); } for(int a=0;a<2;a++) for(int f=0;f<3;f++){ EX[a][f]=malloc((size_t)(ML+1)*OL); EXh[a][f]=calloc(ML+1,1); } }
static const uint8_t *ex(int a,int f,size_t n){ fam(); if(n>ML) mc_fail("harness length"); if(!EXh[a][f][n]){ (a?spec_shake256:spec_shake128)(EX[a][f]+n*OL,OL,M[f],n); EXh[a][f][n]=1; } return EX[a][f]+n*OL; }
static const char *ln(int l){ return l?"avx2":"ref"; }
/* ---- one-shot: all input lengths (several families), all output lengths ---- */
static void u_in(long u){ int l=u&1; long c=u>>1; fam(); for(int z=0;z<4;z++){ size_t n=c*4+z; if(n>1200) return; for(int f=0;f<3;f++){ uint8_t o[OL+32],w[64];
    for(int a=0;a<2;a++){ static const int ol[]={0,1,31,32,33,64,135,136,137,168,169,336,337,504,699}; for(int k=0;k<15;k++){ memset(o,0xcc,sizeof o); H[l][a].one(o,ol[k],M[f],n); if(memcmp(o,ex(a,f,n),ol[k])||o[ol[k]]!=0xcc) mc_fail("%s shake%d(%d bytes of output, %zu bytes of input, family %d) wrong at byte %ld",ln(l),a?256:128,ol[k],n,f,first_diff(o,ex(a,f,n),ol[k])); } mc_trans(15); st s; memset(&s,0x11,sizeof s); H[l][a].once(&s,M[f],n); memset(o,0xcc,sizeof o); H[l][a].sqb(o,2,&s); H[l][a].sq(o+2*H[l][a].rate,50,&s); if(memcmp(o,ex(a,f,n),2*H[l][a].rate+50)||o[2*H[l][a].rate+50]!=0xcc) mc_fail("%s shake%d absorb_once(%zu)+2 blocks+50 bytes wrong",ln(l),a?256:128,n); }
    for(int a=0;a<2;a++){ memset(o,0xcc,sizeof o); S3[l][a](o,M[f],n); (a?spec_sha3_512:spec_sha3_256)(w,M[f],n); if(memcmp(o,w,S3L[a])||o[S3L[a]]!=0xcc) mc_fail("%s sha3_%d of %zu bytes (family %d) wrong",ln(l),a?512:256,n,f); /* in place: the output lies in the input, at several offsets */ for(int q=0;q<4;q++){ size_t off= q==0?0: q==1?n/2: q==2? (n>S3L[a]?n-S3L[a]:0): (n>5?5:0); uint8_t *b=malloc(n+200); memcpy(b,M[f],n); S3[l][a](b+off,b,n); if(memcmp(b+off,w,S3L[a])) mc_fail("%s sha3_%d of %zu bytes, output overlapping the input at offset %zu, wrong",ln(l),a?512:256,n,off); free(b); } }
    for(int a=0;a<2;a++) for(int q=0;q<3;q++){ uint8_t b[ML+OL+64]; memcpy(b,M[f],n); size_t off=q==0?0:q==1?n/2:n>8?n-8:0; H[l][a].one(b+off,400,b,n); if(memcmp(b+off,ex(a,f,n),400)) mc_fail("%s shake%d of %zu bytes, output overlapping the input at offset %zu, wrong",ln(l),a?256:128,n,off); }
    mc_state(mc_hash2(n*8+f*2+l,0xc101)); } } mc_trace(1); }
static void u_out(long u){ int l=u&1; long c=u>>1; fam(); static const int il[]={0,1,32,33,34,135,136,137,167,168,169,300}; uint8_t o[4096],w[4096]; for(size_t n=c*16;n<(size_t)c*16+16;n++) for(int a=0;a<2;a++) for(int k=0;k<12;k++){ memset(o,0xcc,n+8); H[l][a].one(o,n,M[2],il[k]); (a?spec_shake256:spec_shake128)(w,n,M[2],il[k]); if(memcmp(o,w,n)||o[n]!=0xcc) mc_fail("%s shake%d with %zu output bytes, %d input bytes, wrong",ln(l),a?256:128,n,il[k]); mc_trans(1); } mc_trace(1); mc_state(mc_hash2(u,0xc102)); }
/* ---- automaton: every (position, next chunk) absorb transition; every residual ---- */
static void u_abs(long u){ int l=u&1,a=u>>1&1; size_t p=u>>2; struct H*h=&H[l][a]; fam(); st s0; memset(&s0,0x77,sizeof s0); h->init(&s0); h->absorb(&s0,M[0],p); 
  for(size_t n=0;n<=2*h->rate+9;n++){ st s=s0; h->absorb(&s,M[0]+p,n); st s2=s; h->fin(&s); uint8_t o[64]; h->sq(o,48,&s); if(memcmp(o,ex(a,0,p+n),48)) mc_fail("%s shake%d: absorb(%zu) absorb(%zu) finalize squeeze(48) differs from the hash of the %zu bytes",ln(l),a?256:128,p,n,p+n); mc_trans(3); /* one more byte afterwards, with an empty piece between */ h->absorb(&s2,M[0],0); h->absorb(&s2,M[0]+p+n,1); h->fin(&s2); h->sq(o,33,&s2); if(memcmp(o,ex(a,0,p+n+1),33)) mc_fail("%s shake%d: absorb(%zu) absorb(%zu) absorb(0) absorb(1) wrong",ln(l),a?256:128,p,n); mc_state(mc_hash2((p%h->rate)*4+(u&3),n)); } mc_trace(1); }
/* every (position, next chunk) squeeze transition, also as whole blocks */
static void u_sq(long u){ int l=u&1,a=u>>1&1; size_t p=u>>2; struct H*h=&H[l][a]; fam(); const uint8_t*e=ex(a,2,57); st s0; memset(&s0,0x77,sizeof s0); h->init(&s0); h->absorb(&s0,M[2],57); h->fin(&s0); uint8_t o[OL+64]; h->sq(o,p,&s0); if(memcmp(o,e,p)) mc_fail("%s shake%d squeeze(%zu) wrong",ln(l),a?256:128,p);
  for(size_t n=0;n<=2*h->rate+9&&p+n+3<=OL;n++){ st s=s0; memset(o,0xcc,sizeof o); h->sq(o,n,&s); if(memcmp(o,e+p,n)||o[n]!=0xcc) mc_fail("%s shake%d squeeze(%zu) squeeze(%zu): byte %ld wrong",ln(l),a?256:128,p,n,first_diff(o,e+p,n)); h->sq(o,0,&s); h->sq(o,3,&s); if(memcmp(o,e+p+n,3)) mc_fail("%s shake%d squeeze(%zu) squeeze(%zu) squeeze(0) squeeze(3) wrong",ln(l),a?256:128,p,n); mc_trans(3); mc_state(mc_hash2((p%h->rate)*4+(u&3)+0x10000,n)); }
  if(p%h->rate==0) for(size_t nb=0;nb<=3&&p+nb*h->rate+20<=OL;nb++){ st s=s0; memset(o,0xcc,sizeof o); h->sqb(o,nb,&s); h->sq(o+nb*h->rate,20,&s); if(memcmp(o,e+p,nb*h->rate+20)||o[nb*h->rate+20]!=0xcc) mc_fail("%s shake%d squeeze(%zu) squeezeblocks(%zu) squeeze(20) wrong",ln(l),a?256:128,p,nb); mc_trans(2); } mc_trace(1); }
/* ---- bounded call sequences over the boundary alphabet ---- */
static void u_seq(long u){ int l=u&1,a=u>>1&1; u>>=2; struct H*h=&H[l][a]; unsigned r=h->rate; fam(); size_t al[]={0,1,7,8,r-1,r,r+1,9,r-8,2*r,r/2}; int na=mc_thorough?11:8; int D=mc_thorough?5:4; /* first two letters from u */ int i0=u%na,i1=u/na; if(i1>=na) return;
  long nseq=1; for(int d=2;d<D;d++) nseq*=na; for(long q=0;q<nseq;q++){ size_t len[6]; len[0]=al[i0]; len[1]=al[i1]; long t=q; for(int d=2;d<D;d++){ len[d]=al[t%na]; t/=na; } st s; memset(&s,0x33,sizeof s); h->init(&s); size_t n=0; for(int d=0;d<D;d++){ h->absorb(&s,M[1]+0,0); h->absorb(&s,M[2]+n,len[d]); n+=len[d]; if(d==1){ st c=s; memset(&s,0,sizeof s); s=c; } } h->fin(&s); uint8_t o[OL+2200]; const uint8_t*e=ex(a,2,n); size_t m=0; for(int d=D-1;d>=0&&m+len[d]<=OL;d--){ h->sq(o+m,len[d],&s); m+=len[d]; } if(memcmp(o,e,m)) mc_fail("%s shake%d: absorbing %zu,%zu,%zu,%zu.. and squeezing the same chunks in reverse: byte %ld wrong",ln(l),a?256:128,len[0],len[1],len[2],len[3],first_diff(o,e,m)); mc_trans(2*D); mc_trace(1); }
  mc_state(mc_hash2(u*4+l*2+a,0xc103)); }
/* mixed whole-block and byte squeezes starting at block boundaries */
static void u_blk(long u){ int l=u&1,a=u>>1&1; u>>=2; struct H*h=&H[l][a]; unsigned r=h->rate; fam(); const uint8_t*e=ex(a,1,(size_t)u); st s; h->once(&s,M[1],(size_t)u); /* sequences over {block, 2 blocks, r bytes, (k,r-k) split} up to OL */ for(int code=0;code<256;code++){ st t=s; uint8_t o[OL+400]; size_t m=0; int c=code; for(int d=0;d<4&&m+2*r<=OL;d++){ switch(c&3){ case 0: h->sqb(o+m,1,&t); m+=r; break; case 1: h->sq(o+m,r,&t); m+=r; break; case 2: h->sq(o+m,r-9,&t); h->sq(o+m+r-9,9,&t); m+=r; break; default: h->sqb(o+m,0,&t); h->sq(o+m,0,&t); h->sqb(o+m,2,&t); m+=2*r; } c>>=2; } if(memcmp(o,e,m)) mc_fail("%s shake%d: squeeze code %02x after %ld input bytes: byte %ld wrong",ln(l),a?256:128,code,u,first_diff(o,e,m)); mc_trans(4); } mc_trace(1); mc_state(mc_hash2(u*4+l*2+a,0xc104)); }
/* two interleaved sponges of all four kinds */
static void u_two(long u){ int l=u&1; u>>=1; fam(); st s[4]; size_t pos[4]={0},out[4]={0}; size_t len[4]={(size_t)u*3,(size_t)u*5%400,(size_t)(400-u),(size_t)u}; uint8_t o[4][OL]; for(int i=0;i<4;i++) H[(l+(i>>1))&1][i&1].init(&s[i]); int busy=1; for(int t=0;busy;t++){ busy=0; for(int i=0;i<4;i++){ struct H*h=&H[(l+(i>>1))&1][i&1]; size_t c=1+(t*7+i*13+u)%61; if(pos[i]<len[i]){ if(c>len[i]-pos[i]) c=len[i]-pos[i]; h->absorb(&s[i],M[i%3]+pos[i],c); pos[i]+=c; busy=1; } } uint8_t d[64]; S3[l][t&1](d,M[0],t); } for(int i=0;i<4;i++) H[(l+(i>>1))&1][i&1].fin(&s[i]); for(int t=0;t<40;t++) for(int i=0;i<4;i++){ struct H*h=&H[(l+(i>>1))&1][i&1]; size_t c=(t*5+i*3+u)%17; if(out[i]+c<=OL){ h->sq(o[i]+out[i],c,&s[i]); out[i]+=c; } } for(int i=0;i<4;i++) if(memcmp(o[i],ex(i&1,i%3,len[i]),out[i])) mc_fail("interleaved sponges (%s first) disturb each other: sponge %d, %zu input bytes",ln(l),i,len[i]); mc_trans(200); mc_trace(1); }
/* single-bit messages: every bit of up to two blocks */
static void u_bit(long u){ int l=u&1; size_t by=u>>1; fam(); for(int b=0;b<8;b++){ uint8_t m[340]={0},o[64],w[64]; m[by]=1<<b; for(int a=0;a<2;a++){ for(size_t n=by+1;n<=340;n+= 340-by-1?340-by-1:1){ H[l][a].one(o,64,m,n); (a?spec_shake256:spec_shake128)(w,64,m,n); if(memcmp(o,w,64)) mc_fail("%s shake%d of a single bit %zu.%d, length %zu, wrong",ln(l),a?256:128,by,b,n); S3[l][a](o,m,n); (a?spec_sha3_512:spec_sha3_256)(w,m,n); if(memcmp(o,w,S3L[a])) mc_fail("%s sha3 of a single bit %zu.%d length %zu wrong",ln(l),by,b,n); mc_trans(2); mc_state(mc_hash(w,32)); } } } mc_trace(1); }
/* lengths beyond 32 bits: read-only zero pages, digest known from an independent implementation */
#include <unistd.h>
#define AW ((size_t)(16<<20)+3*4096)
/* the stream of a short input, position by position into a ring, through calls of at most 64 KiB */
static void u_hout(long u){ mc_limit(150); int l=u&1,a=u>>1; struct H*h=&H[l][a]; size_t nb=(1ull<<32)/h->rate+5,L=nb*h->rate+7,t; uint8_t *w=alias_map(L+AW,AW,&t); if(!w){ mc_note("large mapping refused: very long outputs skipped"); return; } uint8_t *r=malloc(AW),nx[200],ny[200]; st s; fam(); h->init(&s); h->absorb(&s,M[2],100); h->fin(&s);
  for(size_t p=0;p<L;){ size_t k=65000; if(k>L-p) k=L-p; if(k>AW-p%AW) k=AW-p%AW; h->sq(r+p%AW,k,&s); p+=k; } h->sq(nx,200,&s);
  for(int v=0;v<3;v++){ memset(w,0x3c,AW); memset(ny,0,200); static const char*N[]={"one-shot call","squeeze of 3 bytes and of the rest","whole-block squeeze and 7 bytes"}; if(v==0) h->one(w,L,M[2],100); else { h->once(&s,M[2],100); if(v==1){ h->sq(w,3,&s); h->sq(w+3,L-3,&s); } else { h->sqb(w,nb,&s); h->sq(w+nb*h->rate,7,&s); } h->sq(ny,200,&s); if(memcmp(nx,ny,200)) mc_fail("%s shake%d: after %zu bytes of output (%s) the stream continues wrongly",ln(l),a?256:128,L,N[v]); } if(memcmp(w,r,AW)) mc_fail("%s shake%d: %zu bytes of output by %s are wrong",ln(l),a?256:128,L,N[v]); mc_trans(1); } free(r); munmap(w,t); mc_trace(3); mc_count("outputs longer than 2^32 bytes",3); mc_state(mc_hash2(u,0xc107)); }
static void u_hin(long u){ mc_limit(150); int l=u&1,a=u>>1; struct H*h=&H[l][a]; size_t n=(1ull<<32)+77,t; uint8_t *w=alias_map(n,AW,&t); if(!w){ mc_note("large mapping refused: very long inputs skipped"); return; } for(size_t i=0;i<AW;i++) w[i]=(uint8_t)(i*7+(i>>8)*3+(i>>16)*11); uint8_t e[96],g[96]; st s; h->init(&s); for(size_t p=0;p<n;){ size_t k=65003; if(k>n-p) k=n-p; h->absorb(&s,w+p,k); p+=k; } h->fin(&s); h->sq(e,96,&s);
  for(int v=0;v<3;v++){ static const char*N[]={"one-shot call","absorb of 5 bytes and of the rest","absorb_once"}; memset(g,0,96); if(v==0) h->one(g,96,w,n); else { if(v==1){ h->init(&s); h->absorb(&s,w,5); h->absorb(&s,w+5,n-5); h->fin(&s); } else h->once(&s,w,n); h->sq(g,96,&s); } if(memcmp(e,g,96)) mc_fail("%s shake%d of %zu bytes (%s) is wrong",ln(l),a?256:128,n,N[v]); mc_trans(1); } munmap(w,t); mc_trace(3); mc_count("inputs longer than 2^32 bytes",3); mc_state(mc_hash2(u,0xc108)); }
static void u_huge(long u){ mc_limit(150); int l=u&1,a=u>>1; size_t n=(1ull<<32)+3; uint8_t *z=mmap(0,n+4096,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(z==MAP_FAILED){ mc_note("4 GiB mapping refused: very long inputs skipped"); return; } madvise(z,n,MADV_HUGEPAGE); uint8_t o[64]; S3[l][a](o,z,n); char hx[129]; mc_hex(hx,o,S3L[a]); if(strcmp(hx,a?HUGE_DIGEST512:HUGE_DIGEST)) mc_fail("%s sha3_%d of 2^32+3 zero bytes is %s, should be %s",ln(l),a?512:256,hx,a?HUGE_DIGEST512:HUGE_DIGEST); munmap(z,n+4096); mc_trace(1); mc_count("inputs longer than 2^32 bytes",1); }
static void u_lng(long u){ int l=u&1; long c=u>>1; static const size_t N[]={4095,4096,65535,65536,65537,100000,1<<20,(1<<20)+137}; size_t n=N[c]; uint8_t *b=malloc(n),*o=malloc(n),*w=malloc(n); mc_fill(b,n,c); for(int a=0;a<2;a++){ H[l][a].one(o,n,b,n); (a?spec_shake256:spec_shake128)(w,n,b,n); if(memcmp(o,w,n)) mc_fail("%s shake%d %zu bytes in and out wrong at %ld",ln(l),a?256:128,n,first_diff(o,w,n)); S3[l][a](o,b,n); (a?spec_sha3_512:spec_sha3_256)(w,b,n); if(memcmp(o,w,S3L[a])) mc_fail("%s sha3 of %zu bytes wrong",ln(l),n); st s; H[l][a].init(&s); for(size_t p=0;p<n;){ size_t k=p%1013+1; if(k>n-p) k=n-p; H[l][a].absorb(&s,b+p,k); p+=k; } H[l][a].fin(&s); for(size_t p=0;p<n;){ size_t k=p%613+1; if(k>n-p) k=n-p; H[l][a].sq(o+p,k,&s); p+=k; } (a?spec_shake256:spec_shake128)(w,n,b,n); if(memcmp(o,w,n)) mc_fail("%s shake%d %zu bytes chunked wrong at %ld",ln(l),a?256:128,n,first_diff(o,w,n)); } mc_trans(6); mc_trace(1); }
int main(int argc,char **argv){ mc_init(argc,argv,"C10"); if(libs_load()) return 2; load();
  mc_units("huge-outputs",u_hout,4); mc_units("huge-inputs",u_hin,4); mc_units("huge",u_huge,4); mc_units("long",u_lng,16); mc_units("input-lengths",u_in,2*301); mc_units("output-lengths",u_out,2*(mc_thorough?250:64)); mc_units("absorb-transitions",u_abs,4*345L); mc_units("squeeze-transitions",u_sq,4*345L); mc_units("sequences",u_seq,4L*(mc_thorough?121:64)); mc_units("block-squeezes",u_blk,4*172); mc_units("interleaved",u_two,2*400); mc_units("single-bits",u_bit,2*340);
  return mc_run(); }
