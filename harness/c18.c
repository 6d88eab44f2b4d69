/* C18: results do not depend on where the buffers lie. */
#include "libs.h"
#include "util.h"
#include <sys/mman.h>
/* an operation: up to 12 byte-array arguments */
typedef struct { const char *nm; int na; size_t len[12]; char out[12]; } opd;
static kyber *K_; static int L_; static size_t P1,P2;
static uint8_t *AR[12]; /* 5 pages each */
#define AP 8
static uint8_t IN[12][4096],REFO[12][4096];
static void arena(void){ for(int i=0;i<12;i++) if(!AR[i]){ AR[i]=mmap(0,AP*4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); if(AR[i]==MAP_FAILED) exit(2); } }
static uint8_t rb[64]; static size_t rbp; static void rnd(uint8_t*o,size_t n){ for(size_t i=0;i<n;i++) o[i]=rb[rbp++&63]; }
typedef void (*f_one)(uint8_t*,size_t,const uint8_t*,size_t); typedef void (*f_s3)(uint8_t*,const uint8_t*,size_t);
typedef void (*f_x4)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t);
enum { O_KG,O_KGR,O_ENC,O_ENCR,O_DEC,O_DECR,O_VER,O_CMOV,O_S3a,O_S3b,O_SH1,O_SH2,O_INC1,O_INC2,O_X1,O_X2,O_XB1,O_XB2,O_CPAK,O_CPAE,O_CPAD,NOP };
static int def(int op,opd*d){ memset(d,0,sizeof *d); kyber*k=K_; 
#define A(l,o) d->len[d->na]=(l),d->out[d->na]=(o),d->na++
  switch(op){ case O_KG: d->nm="keypair_derand"; A(k->pkb,1);A(k->skb,1);A(64,0); break; case O_KGR: d->nm="keypair"; A(k->pkb,1);A(k->skb,1); break;
  case O_ENC: d->nm="enc_derand"; A(k->ctb,1);A(32,1);A(k->pkb,0);A(32,0); break; case O_ENCR: d->nm="enc"; A(k->ctb,1);A(32,1);A(k->pkb,0); break; case O_DEC: case O_DECR: d->nm=op==O_DEC?"dec (valid)":"dec (rejected)"; A(32,1);A(k->ctb,0);A(k->skb,0); break;
  case O_VER: if(!k->verify) return 0; d->nm="verify"; A(4,1);A(P1,0);A(P1,0); break; case O_CMOV: if(!k->cmov) return 0; d->nm="cmov"; A(P1,1);A(P1,0); break;
  case O_S3a: case O_S3b: d->nm=op==O_S3a?"sha3_256":"sha3_512"; A(op==O_S3a?32:64,1);A(P1,0); break; case O_SH1: case O_SH2: d->nm=op==O_SH1?"shake128":"shake256"; A(P2,1);A(P1,0); break;
  case O_INC1: case O_INC2: d->nm=op==O_INC1?"shake128 incremental":"shake256 incremental"; A(P2,1);A(P2,1);A(P1,0);A(P1,0); break;
  case O_X1: case O_X2: d->nm=op==O_X1?"shake128x4":"shake256x4"; for(int i=0;i<4;i++) A(P2,1); for(int i=0;i<4;i++) A(P1,0); break;
  case O_XB1: case O_XB2: d->nm=op==O_XB1?"shake128x4 blocks":"shake256x4 blocks"; for(int i=0;i<4;i++) A(op==O_XB1?336:272,1); for(int i=0;i<4;i++) A(P1,0); break;
  case O_CPAK: if(!k->cpa_keypair) return 0; d->nm="indcpa_keypair_derand"; A(k->pkb,1);A(384*k->K,1);A(32,0); break; case O_CPAE: if(!k->cpa_enc) return 0; d->nm="indcpa_enc"; A(k->ctb,1);A(32,0);A(k->pkb,0);A(32,0); break; case O_CPAD: if(!k->cpa_dec) return 0; d->nm="indcpa_dec"; A(32,1);A(k->ctb,0);A(384*k->K,0); break; }
  return 1; }
static void call(int op,uint8_t**p){ kyber*k=K_; char b[64]; static struct{ uint64_t s[256]; } st __attribute__((aligned(64)));
  switch(op){ case O_KG: k->keypair_derand(p[0],p[1],p[2]); break; case O_KGR: rbp=0; k->keypair(p[0],p[1]); break; case O_ENC: k->enc_derand(p[0],p[1],p[2],p[3]); break; case O_ENCR: rbp=0; k->enc(p[0],p[1],p[2]); break; case O_DEC: case O_DECR: k->dec(p[0],p[1],p[2]); break;
  case O_VER: { int r=k->verify(p[1],p[2],P1); memcpy(p[0],&r,4); break; } case O_CMOV: k->cmov(p[0],p[1],P1,1); break;
  case O_S3a: case O_S3b: ((f_s3)fsym(L_,op==O_S3a?"sha3_256":"sha3_512"))(p[0],p[1],P1); break; case O_SH1: case O_SH2: ((f_one)fsym(L_,op==O_SH1?"shake128":"shake256"))(p[0],P2,p[1],P1); break;
  case O_INC1: case O_INC2: { int a=op==O_INC1?128:256;
#define F(s) (snprintf(b,64,"shake%d_" s,a),fsym(L_,b))
      ((void(*)(void*))F("init"))(&st); ((void(*)(void*,const uint8_t*,size_t))F("absorb"))(&st,p[2],P1); ((void(*)(void*,const uint8_t*,size_t))F("absorb"))(&st,p[3],P1); ((void(*)(void*))F("finalize"))(&st); ((void(*)(uint8_t*,size_t,void*))F("squeeze"))(p[0],P2,&st); ((void(*)(uint8_t*,size_t,void*))F("squeeze"))(p[1],P2,&st); break; }
  case O_X1: case O_X2: ((f_x4)xsym(op==O_X1?"shake128x4":"shake256x4"))(p[0],p[1],p[2],p[3],P2,p[4],p[5],p[6],p[7],P1); break;
  case O_XB1: case O_XB2: { int a=op==O_XB1?128:256; snprintf(b,64,"shake%dx4_absorb_once",a); ((void(*)(void*,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t))xsym(b))(&st,p[4],p[5],p[6],p[7],P1); snprintf(b,64,"shake%dx4_squeezeblocks",a); ((void(*)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,void*))xsym(b))(p[0],p[1],p[2],p[3],2,&st); break; }
  case O_CPAK: k->cpa_keypair(p[0],p[1],p[2]); break; case O_CPAE: k->cpa_enc(p[0],p[1],p[2],p[3]); break; case O_CPAD: k->cpa_dec(p[0],p[1],p[2]); break; } }
static void inputs(int op,opd*d,uint64_t tag){ for(int i=0;i<d->na;i++) for(size_t j=0;j<d->len[i];j++) IN[i][j]=(uint8_t)mc_hash2(tag*31+i,j); mc_fill(rb,64,tag); kset hs; if(K_){ honest(K_->K,tag,&hs); if(op==O_ENC||op==O_ENCR) memcpy(IN[2],hs.pk,d->len[2]); if(op==O_DEC||op==O_DECR){ memcpy(IN[1],hs.ct,d->len[1]); memcpy(IN[2],hs.sk,d->len[2]); if(op==O_DECR) IN[1][d->len[1]-1]^=1; } if(op==O_VER){ memcpy(IN[2],IN[1],P1); if(P1&&(tag&1)) IN[2][P1-1]^=4; } } }
static long nrun;
static void at(int op,opd*d,uint8_t**p,const char *what){ nrun++; for(int i=0;i<d->na;i++){ if(d->out[i]){ memset(p[i],0x3c,d->len[i]); if(op==O_CMOV) memset(p[i],0x11,d->len[i]); } else memcpy(p[i],IN[i],d->len[i]); }
  uintptr_t ad[12]; for(int i=0;i<12;i++) ad[i]=i<d->na?(uintptr_t)p[i]&4095:0;
  mc_ctx("%s%s%s, arguments at page offsets %zu %zu %zu %zu %zu %zu %zu %zu (%s)",K_?K_->name:L_?"avx2":"ref"," ",d->nm,ad[0],ad[1],ad[2],ad[3],ad[4],ad[5],ad[6],ad[7],what);
  call(op,p); for(int i=0;i<d->na;i++){ const uint8_t *w=d->out[i]?REFO[i]:IN[i]; long f=first_diff(p[i],w,d->len[i]); if(f>=0) mc_fail("%s %s with arguments at page offsets %zu %zu %zu %zu %zu %zu %zu %zu (%s): argument %d differs at byte %ld from the aligned call",K_?K_->name:L_?"avx2":"ref",d->nm,ad[0],ad[1],ad[2],ad[3],ad[4],ad[5],ad[6],ad[7],what,i,f); } }
static void sweep(int op,uint64_t tag,int full){ opd d; arena(); if(!def(op,&d)) { mc_note("operation %d not exported",op); return; } inputs(op,&d,tag); uint8_t *p[12]; nrun=0;
  /* reference placement: 64-aligned, page-separated */ for(int i=0;i<d.na;i++){ p[i]=AR[i]; if(d.out[i]) memset(p[i],op==O_CMOV?0x11:0x3c,d.len[i]); else memcpy(p[i],IN[i],d.len[i]); } call(op,p); for(int i=0;i<d.na;i++) if(d.out[i]) memcpy(REFO[i],p[i],d.len[i]);
  for(int a=0;a<64;a++){ for(int i=0;i<d.na;i++) p[i]=AR[i]+a; at(op,&d,p,"all at one alignment"); for(int i=0;i<d.na;i++) p[i]=AR[i]+(a*(2*i+1)+i*5)%64; at(op,&d,p,"mixed alignments");
    for(int i=0;i<d.na;i++){ for(int j=0;j<d.na;j++) p[j]=AR[j]; p[i]=AR[i]+a; at(op,&d,p,"one argument moved"); /* crossing a page in the middle, at the first and last bytes */ p[i]=AR[i]+4096-a; at(op,&d,p,"page crossing near the start"); size_t e= d.len[i]; p[i]=AR[i]+3*4096-e+(e>(size_t)a?a:0); at(op,&d,p,"page crossing near the end"); } }
  if(full) for(int i=0;i<d.na;i++) for(int j=i+1;j<d.na;j++) for(int a=0;a<64;a+= mc_thorough?1:3) for(int b=0;b<64;b+= mc_thorough?1:5){ for(int x=0;x<d.na;x++) p[x]=AR[x]+(x*9&31); p[i]=AR[i]+a; p[j]=AR[j]+b; at(op,&d,p,"two arguments moved"); }
  /* packed directly one behind the other in both orders */
  { static uint8_t pack[32768]; for(int o=0;o<64;o++) for(int rv=0;rv<2;rv++){ uint8_t*q=pack+o; for(int i=0;i<d.na;i++){ int x=rv?d.na-1-i:i; p[x]=q; q+=d.len[x]; } at(op,&d,p,"packed"); } }
  mc_trans(nrun); mc_trace(1); mc_state(mc_hash2(op*1000+tag,(K_?K_-KY:10)*7+L_)); }
static void refcall(int op,opd*d){ uint8_t*p[12]; arena(); for(int i=0;i<d->na;i++){ p[i]=AR[i]; if(d->out[i]) memset(p[i],op==O_CMOV?0x11:0x3c,d->len[i]); else memcpy(p[i],IN[i],d->len[i]); } call(op,p); for(int i=0;i<d->na;i++) if(d->out[i]) memcpy(REFO[i],p[i],d->len[i]); }
/* every argument at every page offset */
static void pages(int op,uint64_t tag){ opd d; if(!def(op,&d)) return; inputs(op,&d,tag); refcall(op,&d); uint8_t*p[12]; nrun=0; for(int o=0;o<4096;o++){ int st=op<=O_DECR||op>=O_CPAK?(mc_thorough?1:2):1; if(o%st!=(int)(tag%st)) continue; for(int i=0;i<d.na;i++){ for(int j=0;j<d.na;j++) p[j]=AR[j]+(j*64&4095); p[i]=AR[i]+o; at(op,&d,p,"one argument at this page offset"); } for(int j=0;j<d.na;j++) p[j]=AR[j]+o; at(op,&d,p,"all arguments at one page offset"); } mc_trans(nrun); mc_trace(1); mc_state(mc_hash2(op*1000+tag,(K_?K_-KY:10)*7+L_+0x100)); }
/* regions far apart: around 2^31, 2^32, 3*2^31, 2^33, 2^44 and near the end of the address space */
static uint8_t *RG[8]; static void regions(void){ if(RG[0]) return; static const uint64_t B[]={0x20000000,0x80000000,0x100000000,0x180000000,0x200000000,0x100000000000,0x100080000000,0x7e0100000000}; for(int i=0;i<8;i++){ uint64_t a=B[i]-0x20000; uint8_t*m=mmap((void*)a,0x40000,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0); if(m!=(uint8_t*)a){ if(m!=MAP_FAILED) munmap(m,0x40000); mc_note("region at %llx not available, another address used",(unsigned long long)a); m=mmap(NULL,0x40000,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); } RG[i]=m+0x20000; } }
static void far(int op,uint64_t tag){ opd d; if(!def(op,&d)) return; regions(); inputs(op,&d,tag); refcall(op,&d); uint8_t*p[12]; nrun=0; long n=1; for(int i=0;i<d.na&&i<4;i++) n*=8; for(long c=0;c<n;c++) for(int off=0;off<3;off++){ if(off!=c%3&&!mc_thorough&&d.na>3) continue; long t=c; int q[12]; for(int i=0;i<d.na;i++){ q[i]=i<4?t%8:(q[i-4]+3+i)%8; t/=8; int r=0; for(int j=0;j<i;j++) if(q[j]==q[i]) r++; size_t e=d.len[i]; uint8_t*b=RG[q[i]]+(r?r*0x2000*(r&1?1:-1):0); p[i]=b-(off==0?e/2:off==1?(e<33?e:33):e>33?e-33:0); } at(op,&d,p,"regions far apart"); } mc_trans(nrun); mc_trace(1); mc_state(mc_hash2(op*1000+tag,(K_?K_-KY:10)*7+L_+0x200)); }
/* read-only arguments sharing memory */
static void shared(int op,int a,int b,uint64_t tag){ opd d; if(!def(op,&d)) return; inputs(op,&d,tag); uint8_t*p[12]; nrun=0; if(d.len[a]<d.len[b]) return; for(size_t o=0;o+d.len[b]<=d.len[a];o++){ if(!mc_thorough&&o%16&&o>80&&o+d.len[b]+80<d.len[a]&&o%37) continue; memcpy(IN[b],IN[a]+o,d.len[b]); refcall(op,&d); for(int j=0;j<d.na;j++) p[j]=AR[j]+j*16; p[b]=p[a]+o; at(op,&d,p,"one input lying inside another"); } mc_trans(nrun); mc_trace(1); mc_state(mc_hash2(op*1000+tag,(K_?K_-KY:10)*7+L_+0x300)); }
static const int KOP[]={O_KG,O_KGR,O_ENC,O_ENCR,O_DEC,O_DECR,O_CPAK,O_CPAE,O_CPAD};
static int skipavx; 
static void u_kem(long u){ K_=&KY[u%6]; if(skipavx&&K_->avx) return; rnd_hook=rnd; sweep(KOP[u/6%9],u/54,1); rnd_hook=NULL; }
static void u_ver(long u){ K_=&KY[u%6]; if(skipavx&&K_->avx) return; P1=u/6*( (u/6)%2?13:7)%1600; if(u/6<140) P1=u/6; for(int t=0;t<2;t++) sweep(O_VER,t,0); sweep(O_CMOV,u,0); }
static const size_t IL[]={0,1,8,31,32,33,34,64,65,128,135,136,137,144,167,168,169,176,200,272,337,800,1184};
static void u_hash(long u){ K_=NULL; L_=u&1; if(skipavx&&L_) return; P1=IL[(u>>1)%23]; P2=IL[(u>>1)/23]; if(P2>800) P2=337; for(int op=O_S3a;op<=O_INC2;op++) sweep(op,u,0); }
static void u_x4(long u){ K_=NULL; L_=1; if(skipavx) return; P1=IL[u%23]; P2=IL[u/23]; if(P2>800) P2=505; for(int op=O_X1;op<=O_XB2;op++) sweep(op,u,0); }
static void u_pg(long u){ K_=&KY[u%6]; if(skipavx&&K_->avx) return; rnd_hook=rnd; u/=6; if(u<9) pages(KOP[u],u); else { P1=K_->ctb; if(u==9) pages(O_VER,0); else if(u==10) pages(O_VER,1); else if(u==11) pages(O_CMOV,0); else { P1=32; pages(O_CMOV,1); } } rnd_hook=NULL; }
static void u_pgh(long u){ K_=NULL; if(u<12){ L_=u&1; if(skipavx&&L_) return; P1=337; P2=400; pages(O_S3a+u/2,u); } else { L_=1; if(skipavx) return; P1=345; P2=345; pages(O_X1+u-12,u); } }
static void u_far(long u){ K_=&KY[u%6]; if(skipavx&&K_->avx) return; rnd_hook=rnd; u/=6; if(u<9) far(KOP[u],u); else { P1=K_->ctb; if(u<11) far(O_VER,u); else far(O_CMOV,u); } rnd_hook=NULL; }
static void u_farh(long u){ K_=NULL; if(u<12){ L_=u&1; if(skipavx&&L_) return; P1=337; P2=400; far(O_S3a+u/2,u); } else { L_=1; if(skipavx) return; P1=345; P2=345; far(O_X1+u-12,u); } }
static void u_sh(long u){ K_=&KY[u%6]; if(skipavx&&K_->avx) return; rnd_hook=rnd; u/=6; if(u==0) shared(O_ENC,2,3,u); else if(u==1) shared(O_DEC,2,1,u); else if(u==2) shared(O_CPAE,2,1,u); else if(u==3) shared(O_CPAE,2,3,u); else shared(O_CPAD,1,2,u); rnd_hook=NULL; }
int main(int argc,char **argv){ mc_init(argc,argv,"C18"); if(libs_load()) return 2; skipavx=!strcmp(mc_arg,"ref");
  mc_units("page-offsets",u_pg,6*13); mc_units("page-offsets-hash",u_pgh,16); mc_units("far-apart",u_far,6*12); mc_units("far-apart-hash",u_farh,16); mc_units("shared-inputs",u_sh,6*5); mc_units("kem",u_kem,54*(mc_thorough?3:1)); mc_units("verify-cmov",u_ver,6*(mc_thorough?400:170)); mc_units("hash",u_hash,2*23*(mc_thorough?23:6)); mc_units("x4",u_x4,23*(mc_thorough?23:8));
  return mc_run(); }
