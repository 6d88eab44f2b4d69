/* C11: the four-way SHAKE and the multi-lane state operations. */
#include "libs.h"
#include "util.h"
static void (*ONE[2])(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t);
static void (*ABS[2])(void*,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t);
static void (*SQB[2])(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,void*);
static const unsigned RATE[2]={168,136}; static const char *NM[2]={"shake128x4","shake256x4"};
static void load(void){ for(int a=0;a<2;a++){ char b[64]; *(void**)&ONE[a]=xsym(NM[a]); snprintf(b,64,"%s_absorb_once",NM[a]); *(void**)&ABS[a]=xsym(b); snprintf(b,64,"%s_squeezeblocks",NM[a]); *(void**)&SQB[a]=xsym(b); if(!ONE[a]||!ABS[a]||!SQB[a]){ fprintf(stderr,"missing %s functions\n",NM[a]); exit(2); } } }
#define ML 1200
#define OL 1200
typedef struct { uint64_t s[256] __attribute__((aligned(64))); uint8_t guard[64]; } xst;
static uint8_t IN[4][ML+96] __attribute__((aligned(64))), OUT[4][OL+96] __attribute__((aligned(64))), EXP[4][OL+32];
static void content(int fam,uint64_t tag,size_t n){ for(int l=0;l<4;l++){ memset(IN[l],0xe5+l,sizeof IN[l]); for(size_t i=0;i<n;i++) switch(fam){ case 0: IN[l][i]=(uint8_t)(mc_hash2(tag*4+l,i)); break; case 1: IN[l][i]=0; break; case 2: IN[l][i]=0xff; break; case 3: IN[l][i]=(uint8_t)(l==(int)(tag&3)?i+1:0x5a); break; default: IN[l][i]=(uint8_t)(i*3+(l<<6)); } } }
static void expect(int a,const uint8_t *const in[4],size_t n,size_t m){ for(int l=0;l<4;l++) (a?spec_shake256:spec_shake128)(EXP[l],m,in[l],n); }
static void chk(int a,size_t n,size_t m,const char *what){ for(int l=0;l<4;l++){ long d=first_diff(OUT[l],EXP[l],m); if(d>=0) mc_fail("%s %s: input length %zu, output length %zu: instance %d differs from SHAKE at byte %ld",NM[a],what,n,m,l,d); for(int i=0;i<32;i++) if(OUT[l][m+i]!=0x3c) mc_fail("%s %s: input length %zu, output length %zu: instance %d wrote behind its output (byte %d)",NM[a],what,n,m,l,i); } }
static const uint8_t *const ST[4]={IN[0],IN[1],IN[2],IN[3]};
/* every input length, over output lengths and contents */
static void u_in(long n){ static const int ol[]={0,1,8,31,32,63,64,128,136,137,168,169,192,272,335,336,337,504,505}; for(int a=0;a<2;a++) for(int f=0;f<5;f++){ content(f,n,n); expect(a,ST,n,520); for(int k=0;k<19;k++){ if(f&&k%3!=f%3&&!mc_thorough) continue; memset(OUT,0x3c,sizeof OUT); ONE[a](OUT[0],OUT[1],OUT[2],OUT[3],ol[k],IN[0],IN[1],IN[2],IN[3],n); chk(a,n,ol[k],"one-shot"); mc_trans(1); }
    xst s; memset(&s,0xa7,sizeof s); ABS[a](s.s,IN[0],IN[1],IN[2],IN[3],n); for(int i=0;i<64;i++) if(((uint8_t*)s.s)[state_size(2)+i]!=0xa7) mc_fail("%s_absorb_once writes behind its state",NM[a]); memset(OUT,0x3c,sizeof OUT); size_t r=RATE[a]; SQB[a](OUT[0],OUT[1],OUT[2],OUT[3],1,s.s); SQB[a](OUT[0],OUT[1],OUT[2],OUT[3],0,s.s); SQB[a](OUT[0]+r,OUT[1]+r,OUT[2]+r,OUT[3]+r,2,s.s); chk(a,n,3*r,"absorb_once, squeezeblocks 1+0+2"); for(int i=0;i<64;i++) if(((uint8_t*)s.s)[state_size(2)+i]!=0xa7) mc_fail("%s_squeezeblocks writes behind its state",NM[a]); mc_trans(4);
    /* inputs sharing memory in every way */
    static const int al[][4]={{0,0,0,0},{0,0,1,1},{0,1,0,1},{1,0,0,1},{3,2,1,0},{0,1,2,2}}; for(int k=0;k<6;k++){ const uint8_t *p[4]; for(int l=0;l<4;l++) p[l]=IN[al[k][l]]; uint8_t sv[4][40]; for(int l=0;l<4;l++) memcpy(sv[l],EXP[al[k][l]],40); memset(OUT,0x3c,sizeof OUT); ONE[a](OUT[0],OUT[1],OUT[2],OUT[3],40,p[0],p[1],p[2],p[3],n); for(int l=0;l<4;l++) if(memcmp(OUT[l],sv[l],40)) mc_fail("%s with inputs %d%d%d%d (shared buffers), length %ld: instance %d wrong",NM[a],al[k][0],al[k][1],al[k][2],al[k][3],n,l); mc_trans(1); }
    /* overlapping inputs at small distances, and outputs replacing inputs */
    for(int d=0;d<=8;d+=d?7:1){ const uint8_t *p[4]; for(int l=0;l<4;l++) p[l]=IN[0]+l*d; expect(a,p,n,200); memset(OUT,0x3c,sizeof OUT); ONE[a](OUT[0],OUT[1],OUT[2],OUT[3],200,p[0],p[1],p[2],p[3],n); chk(a,n,200,"overlapping inputs"); mc_trans(1); }
    expect(a,ST,n,400); for(int l=0;l<4;l++) memset(IN[l]+n,0x3c,400<ML+96-n?400:ML+96-n); { static uint8_t B[4][ML+96]; memcpy(B,IN,sizeof IN); ONE[a](B[0],B[1],B[2],B[3],400,B[0],B[1],B[2],B[3],n); for(int l=0;l<4;l++) if(memcmp(B[l],EXP[l],400)) mc_fail("%s in place, input length %ld: instance %d wrong",NM[a],n,l); mc_trans(1); }
    mc_state(mc_hash2(n*16+a*8+f,0xc111)); } mc_trace(1); }
static void u_out(long c){ static const int il[]={0,1,7,8,32,33,34,135,136,137,167,168,169,300}; for(size_t m=c*8;m<(size_t)c*8+8;m++) for(int a=0;a<2;a++) for(int k=0;k<14;k++){ content(k%3==1?4:0,m,il[k]); expect(a,ST,il[k],m); memset(OUT,0x3c,sizeof OUT); ONE[a](OUT[0],OUT[1],OUT[2],OUT[3],m,IN[0],IN[1],IN[2],IN[3],il[k]); chk(a,il[k],m,"one-shot"); mc_trans(1); mc_state(mc_hash2(m*32+k*2+a,0xc112)); } mc_trace(1); }
/* one instance differs in one byte; every instance, every byte position */
static void u_lane(long p){ for(int a=0;a<2;a++) for(int l=0;l<4;l++) for(int q=0;q<3;q++){ size_t n= q==0?p+1: q==1? p+8 : 345; if(n<=(size_t)p) n=p+1; content(1,0,n); for(int j=0;j<4;j++) memset(IN[j],q==1?0xff:0,n); IN[l][p]^= q==2?0x80:1; expect(a,ST,n,40); memset(OUT,0x3c,sizeof OUT); ONE[a](OUT[0],OUT[1],OUT[2],OUT[3],40,IN[0],IN[1],IN[2],IN[3],n); chk(a,n,40,"single-instance difference"); mc_trans(1); mc_state(mc_hash2((p*8+l*2+a)*4+q,0xc113)); } mc_trace(1); }
/* all compositions of up to 7 blocks into squeezeblocks calls */
static void u_comp(long u){ int a=u&1; size_t n=u>>1; size_t r=RATE[a]; int T=mc_thorough?7:6; content(0,u,n); expect(a,ST,n,T*r); xst s0; memset(&s0,1,sizeof s0); ABS[a](s0.s,IN[0],IN[1],IN[2],IN[3],n); for(int m=0;m<1<<(T-1);m++){ xst s=s0,o; memset(&o,9,sizeof o); memset(OUT,0x3c,sizeof OUT); int b=0; while(b<T){ int k=1; while(b+k<T&&!(m>>(b+k-1)&1)) k++; size_t q=b*r; SQB[a](OUT[0]+q,OUT[1]+q,OUT[2]+q,OUT[3]+q,k,s.s); b+=k; mc_trans(1); if(m&2){ o=s; memset(&s,0,sizeof s); s=o; } } chk(a,n,T*r,"squeezeblocks composition"); } mc_trace(1); mc_state(mc_hash2(u,0xc114)); }
/* ---- state operations ---- */
static uint64_t BASE[100] __attribute__((aligned(64)));
static void base(uint64_t t){ for(int i=0;i<100;i++) BASE[i]=mc_hash2(t,i)^((i%7==0)?~0ull:0); }
static int bo(int inst,int off){ return ((off/8)*4+inst)*8+off%8; }
static void same(const uint8_t *got,const uint8_t *want,size_t n,const char *f,int inst,int off,int len){ long d=first_diff(got,want,n); if(d>=0) mc_fail("%s(instance %d, offset %d, length %d): byte %ld is %02x, should be %02x",f,inst,off,len,d,got[d],want[d]); }
typedef void (*addf)(void*,unsigned,const uint8_t*,unsigned,unsigned);
static void u_bytes(long u){ int inst=u&3,off=u>>2; addf add=(addf)xsym("KeccakP1600times4_AddBytes"),ow=(addf)xsym("KeccakP1600times4_OverwriteBytes"); void (*ext)(const void*,unsigned,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractBytes"); void (*exa)(const void*,unsigned,const uint8_t*,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractAndAddBytes"); void (*ozr)(void*,unsigned,unsigned)=xsym("KeccakP1600times4_OverwriteWithZeroes"); if(!add||!ow||!ext||!exa||!ozr) mc_note("some byte operations of the 4-way state are not exported");
  base(u); uint8_t data[256+64],w[832],o[320],wo[320]; 
  for(int len=0;off+len<=200;len++) for(int al=0;al<(len%8==0||mc_thorough?8:2);al++){ uint8_t *dp=data+8+al*1; for(int i=0;i<(int)sizeof data;i++) data[i]=(uint8_t)(0x51+i*29+len);
    struct { uint64_t s[100]; uint64_t g[4]; } st __attribute__((aligned(64))); uint8_t *sb=(uint8_t*)st.s;
#define FRESH memcpy(st.s,BASE,800); memset(st.g,0x77,32); memcpy(w,BASE,800); memset(w+800,0x77,32);
    if(add){ FRESH for(int i=0;i<len;i++) w[bo(inst,off+i)]^=dp[i]; add(st.s,inst,dp,off,len); same(sb,w,832,"AddBytes",inst,off,len); }
    if(ow){ FRESH for(int i=0;i<len;i++) w[bo(inst,off+i)]=dp[i]; ow(st.s,inst,dp,off,len); same(sb,w,832,"OverwriteBytes",inst,off,len); }
    if(ext){ FRESH memset(o,0x3c,sizeof o); memset(wo,0x3c,sizeof wo); for(int i=0;i<len;i++) wo[al+8+i]=w[bo(inst,off+i)]; ext(st.s,inst,o+al+8,off,len); same(o,wo,sizeof o,"ExtractBytes",inst,off,len); same(sb,w,832,"ExtractBytes state",inst,off,len); }
    if(exa){ FRESH memset(o,0x3c,sizeof o); memset(wo,0x3c,sizeof wo); for(int i=0;i<len;i++) wo[al+8+i]=dp[i]^w[bo(inst,off+i)]; exa(st.s,inst,dp,o+al+8,off,len); same(o,wo,sizeof o,"ExtractAndAddBytes",inst,off,len); same(sb,w,832,"ExtractAndAddBytes state",inst,off,len); memcpy(o,wo,sizeof o); for(int i=0;i<len;i++){ o[al+8+i]=dp[i]; } exa(st.s,inst,o+al+8,o+al+8,off,len); same(o,wo,sizeof o,"ExtractAndAddBytes in place",inst,off,len); }
    mc_trans(5); mc_state(mc_hash2((u*256+len)*8+al,0xc115)); }
  if(ozr&&off<=200){ struct { uint64_t s[100]; uint64_t g[4]; } st __attribute__((aligned(64))); uint8_t *sb=(uint8_t*)st.s; FRESH for(int i=0;i<off;i++) w[bo(inst,i)]=0; ozr(st.s,inst,off); same(sb,w,832,"OverwriteWithZeroes",inst,0,off); mc_trans(1); } mc_trace(1); }
static void u_lanes(long u){ int cnt=u%26; int extra=(u/26)%5; int lo=cnt+extra*(extra>2?7:1); if(lo==0) lo=extra; int al=(u/130); void (*add)(void*,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_AddLanesAll"),(*ow)(void*,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_OverwriteLanesAll"); void (*ext)(const void*,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractLanesAll"); void (*exa)(const void*,const uint8_t*,uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_ExtractAndAddLanesAll"); void (*ini)(void*)=xsym("KeccakP1600times4_InitializeAll"); if(!add||!ow||!ext||!exa||!ini) mc_note("some lane operations of the 4-way state are not exported");
  base(u+99); static uint8_t data[4*60*8+64],o[4*60*8+64],wo[4*60*8+64]; for(int i=0;i<(int)sizeof data;i++) data[i]=(uint8_t)(i*31+(i>>8)*7+u); uint8_t *dp=data+8+al; uint8_t w[832]; struct { uint64_t s[100]; uint64_t g[4]; } st __attribute__((aligned(64))); uint8_t *sb=(uint8_t*)st.s;
  if(add){ FRESH for(int j=0;j<4;j++) for(int i=0;i<8*cnt;i++) w[bo(j,i)]^=dp[j*lo*8+i]; add(st.s,dp,cnt,lo); same(sb,w,832,"AddLanesAll",-1,lo,cnt); }
  if(ow){ FRESH for(int j=0;j<4;j++) for(int i=0;i<8*cnt;i++) w[bo(j,i)]=dp[j*lo*8+i]; ow(st.s,dp,cnt,lo); same(sb,w,832,"OverwriteLanesAll",-1,lo,cnt); }
  if(ext){ FRESH memset(o,0x3c,sizeof o); memset(wo,0x3c,sizeof wo); for(int j=0;j<4;j++) for(int i=0;i<8*cnt;i++) wo[8+al+j*lo*8+i]=w[bo(j,i)]; ext(st.s,o+8+al,cnt,lo); same(o,wo,sizeof o,"ExtractLanesAll",-1,lo,cnt); same(sb,w,832,"ExtractLanesAll state",-1,lo,cnt); }
  if(exa){ FRESH memset(o,0x3c,sizeof o); memset(wo,0x3c,sizeof wo); for(int j=0;j<4;j++) for(int i=0;i<8*cnt;i++) wo[8+al+j*lo*8+i]=dp[j*lo*8+i]^w[bo(j,i)]; exa(st.s,dp,o+8+al,cnt,lo); same(o,wo,sizeof o,"ExtractAndAddLanesAll",-1,lo,cnt); memcpy(o,wo,sizeof o); for(int j=0;j<4;j++) for(int i=0;i<8*cnt;i++) o[8+al+j*lo*8+i]=dp[j*lo*8+i]; exa(st.s,o+8+al,o+8+al,cnt,lo); same(o,wo,sizeof o,"ExtractAndAddLanesAll in place",-1,lo,cnt); }
  if(ini){ FRESH memset(w,0,800); ini(st.s); same(sb,w,832,"InitializeAll",-1,0,0); }
  mc_trans(6); mc_trace(1); mc_state(mc_hash2(u,0xc116)); }
static void mperm(uint64_t *s,int rounds){ for(int j=0;j<4;j++){ uint64_t t[25]; for(int i=0;i<25;i++) t[i]=s[4*i+j]; spec_keccak_f(t,rounds); for(int i=0;i<25;i++) s[4*i+j]=t[i]; } }
/* permutations: every single bit of every instance, and iterated */
static void u_perm(long u){ void (*p[2])(void*)={xsym("KeccakP1600times4_PermuteAll_24rounds"),xsym("KeccakP1600times4_PermuteAll_12rounds")}; for(int k=0;k<2;k++){ if(!p[k]){ mc_note("4-way permutation %d not exported",k); continue; } struct { uint64_t s[100]; uint64_t g[4]; } st __attribute__((aligned(64))); uint64_t w[100];
    for(int b=0;b<64;b++){ memset(&st,0,sizeof st); memset(st.g,0x77,32); st.s[u]=1ull<<b; memcpy(w,st.s,800); p[k](st.s); mperm(w,k?12:24); same((uint8_t*)st.s,(uint8_t*)w,800,k?"PermuteAll_12rounds on a single bit":"PermuteAll_24rounds on a single bit",u%4,u/4,b); if(st.g[0]!=0x7777777777777777ull) mc_fail("permutation writes behind the state"); mc_trans(1); mc_state(mc_hash(w,800)); }
    base(u); memcpy(st.s,BASE,800); memcpy(w,BASE,800); for(int i=0;i<20;i++){ p[k](st.s); mperm(w,k?12:24); same((uint8_t*)st.s,(uint8_t*)w,800,"iterated permutation",-1,i,k); mc_trans(1); } memset(st.s,0xff,800); memcpy(w,st.s,800); p[k](st.s); mperm(w,k?12:24); same((uint8_t*)st.s,(uint8_t*)w,800,"all-ones permutation",-1,0,k); } mc_trace(1); }
/* absorbing loops: layouts (contiguous streams, interleaved blocks), lane counts, data lengths around every boundary */
static void u_fast(long u){ int cnt=1+u%25; size_t (*f[2])(void*,unsigned,unsigned,unsigned,const uint8_t*,size_t)={xsym("KeccakF1600times4_FastLoop_Absorb"),xsym("KeccakP1600times4_12rounds_FastLoop_Absorb")}; static uint8_t d[26*8*24+64]; for(int i=0;i<(int)sizeof d;i++) d[i]=(uint8_t)(mc_hash2(u,i));
  for(int k=0;k<2;k++){ if(!f[k]){ mc_note("4-way absorbing loop %d not exported",k); continue; } for(int lay=0;lay<3;lay++) for(int nb=0;nb<4;nb++) for(int ex=-1;ex<10;ex+= ex<2?1:7) for(int al=0;al<2;al++){ int par,ser; size_t len; if(lay==0){ par=cnt; ser=4*cnt; len=(size_t)nb*4*cnt*8; } else if(lay==1){ par=cnt*4; ser=cnt; len=(size_t)(par*3+cnt*nb)*8; if(nb==0) len=(size_t)(par*3)*8; } else { par=cnt+1; ser=4*(cnt+1); len=(size_t)nb*ser*8; if(nb) len-=8; } if(ex<0&&len==0) continue; len+=ex; if(len>sizeof d-8) continue;
      base(u*7+lay); struct { uint64_t s[100]; uint64_t g[4]; } st __attribute__((aligned(64))); uint64_t w[100]; memcpy(st.s,BASE,800); memset(st.g,0x77,32); memcpy(w,BASE,800); const uint8_t *dp=d+al; size_t rem=len,pos=0; 
      while(rem>=(size_t)(par*3+cnt)*8){ uint8_t *wb=(uint8_t*)w; for(int j=0;j<4;j++) for(int i=0;i<8*cnt;i++) wb[bo(j,i)]^=dp[pos+(size_t)j*par*8+i]; mperm(w,k?12:24); pos+=(size_t)ser*8; if(rem<(size_t)ser*8){ rem=0; break; } rem-=(size_t)ser*8; }
      if(lay==2&&len<pos) continue; /* the last round would step past the data: outside the documented use */
      size_t r=f[k](st.s,cnt,par,ser,dp,len); if(r!=pos) mc_fail("%s(laneCount %d, parallel %d, serial %d, %zu bytes) reports %zu bytes absorbed, should be %zu",k?"12rounds_FastLoop_Absorb":"FastLoop_Absorb",cnt,par,ser,len,r,pos); same((uint8_t*)st.s,(uint8_t*)w,800,k?"12rounds_FastLoop_Absorb":"FastLoop_Absorb",cnt,par,len); if(st.g[0]!=0x7777777777777777ull) mc_fail("absorbing loop writes behind the state"); mc_trans(1); mc_state(mc_hash2(mc_hash2(u,len),k*16+lay)); } } mc_trace(1); }
/* sequences of state operations to a bounded depth against the byte model */
static void u_opseq(long u){ addf add=(addf)xsym("KeccakP1600times4_AddBytes"),ow=(addf)xsym("KeccakP1600times4_OverwriteBytes"); void (*p24)(void*)=xsym("KeccakP1600times4_PermuteAll_24rounds"),(*p12)(void*)=xsym("KeccakP1600times4_PermuteAll_12rounds"),(*ini)(void*)=xsym("KeccakP1600times4_InitializeAll"); void (*al)(void*,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_AddLanesAll"),(*owl)(void*,const uint8_t*,unsigned,unsigned)=xsym("KeccakP1600times4_OverwriteLanesAll"); void (*oz)(void*,unsigned,unsigned)=xsym("KeccakP1600times4_OverwriteWithZeroes"); if(!add||!ow||!p24||!p12||!ini||!al||!owl||!oz){ mc_note("operation sequences skipped"); return; }
  static uint8_t d[800]; for(int i=0;i<800;i++) d[i]=(uint8_t)(i*11+3); int D=mc_thorough?5:4; long n=1; for(int i=1;i<D;i++) n*=8; for(long q=0;q<n;q++){ uint64_t s[100] __attribute__((aligned(64))),w[100]; memset(s,0x6d,800); memcpy(w,s,800); uint8_t*wb=(uint8_t*)w; long t=q*8+u; for(int k=0;k<D;k++){ int op=t&7; t>>=3; int in=(k*5+op)&3,off=(op*17+k*13)%150; switch(op){ case 0: ini(s); memset(w,0,800); break; case 1: add(s,in,d+k,off,37); for(int i=0;i<37;i++) wb[bo(in,off+i)]^=d[k+i]; break; case 2: ow(s,in,d+k,off,43); for(int i=0;i<43;i++) wb[bo(in,off+i)]=d[k+i]; break; case 3: p24(s); mperm(w,24); break; case 4: p12(s); mperm(w,12); break; case 5: al(s,d,17+k,20); for(int j=0;j<4;j++) for(int i=0;i<8*(17+k);i++) wb[bo(j,i)]^=d[j*160+i]; break; case 6: owl(s,d+1,21,22); for(int j=0;j<4;j++) for(int i=0;i<168;i++) wb[bo(j,i)]=d[1+j*176+i]; break; default: oz(s,in,77+k); for(int i=0;i<77+k;i++) wb[bo(in,i)]=0; } mc_trans(1); }
    same((uint8_t*)s,wb,800,"operation sequence",-1,(int)(q*8+u),D); mc_trace(1); mc_state(mc_hash(w,800)); } }
/* block counts and input lengths around 2^8, 2^16 and 2^24 */
static void u_lng(long u){ int a=u&1; long c=u>>1; static const size_t NB[]={254,255,256,257,511,512,513,1023,1024,1025,4096,32767,32768,65535,65536,65537}; static const size_t NI[]={1500,2047,2048,2049,4095,4096,4097,8192,32768,65535,65536,65537,131072,131073,1<<20,(1<<24)+9};
  if(c<16){ size_t n=NB[c]*RATE[a]; uint8_t *o[4],*w=malloc(n+64); for(int l=0;l<4;l++) o[l]=malloc(n+64); content(0,c,77); for(int v=0;v<2;v++){ for(int l=0;l<4;l++) memset(o[l],0x3c,n+64); size_t m; if(v==0){ m=n; xst s; memset(&s,0xa7,sizeof s); ABS[a](s.s,IN[0],IN[1],IN[2],IN[3],77); SQB[a](o[0],o[1],o[2],o[3],NB[c],s.s); } else { m=n+13; ONE[a](o[0],o[1],o[2],o[3],m,IN[0],IN[1],IN[2],IN[3],77); } for(int l=0;l<4;l++){ (a?spec_shake256:spec_shake128)(w,m,IN[l],77); long d=first_diff(o[l],w,m); if(d>=0) mc_fail("%s %s of %zu blocks: instance %d differs from SHAKE at byte %ld",NM[a],v?"one-shot output":"squeezeblocks",NB[c],l,d); for(int i=0;i<16;i++) if(o[l][m+i]!=0x3c) mc_fail("%s %zu blocks: instance %d wrote behind its output",NM[a],NB[c],l); } mc_trans(1); } for(int l=0;l<4;l++) free(o[l]); free(w); }
  else { size_t n=NI[c-16]; uint8_t *in[4]; for(int l=0;l<4;l++){ in[l]=malloc(n); mc_fill(in[l],n,c*4+l); } for(int v=0;v<2;v++){ memset(OUT,0x3c,sizeof OUT); if(v==0) ONE[a](OUT[0],OUT[1],OUT[2],OUT[3],300,in[0],in[1],in[2],in[3],n); else { xst s; memset(&s,0xa7,sizeof s); ABS[a](s.s,in[0],in[1],in[2],in[3],n); memset(OUT,0x3c,sizeof OUT); SQB[a](OUT[0],OUT[1],OUT[2],OUT[3],2,s.s); } size_t m=v?2*RATE[a]:300; for(int l=0;l<4;l++) (a?spec_shake256:spec_shake128)(EXP[l],m,in[l],n); chk(a,n,m,v?"absorb_once":"one-shot"); mc_trans(1); } for(int l=0;l<4;l++) free(in[l]); }
  mc_trace(1); mc_state(mc_hash2(u,0xc119)); }
/* inputs, outputs and the state gigabytes apart, in every order; regions crossing 2^31 and 2^32 boundaries of the address space */
static void u_far(long u){ int a=u&1; long c=u>>1; static uint8_t *B[8]; static int nb; if(!nb){ uint64_t at[]={0x20000000,0x7fffe000,0xffffe000,0x17fffe000,0x1ffffe000,0x100000000000,0x10007fffe000,0x7e00ffffe000}; for(int i=0;i<8;i++){ uint8_t*m=mmap((void*)at[i],16384,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_FIXED_NOREPLACE,-1,0); if(m==MAP_FAILED||m!=(uint8_t*)at[i]){ if(m!=MAP_FAILED) munmap(m,16384); m=mmap(NULL,16384,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); } B[nb++]=m+8192-200; } }
  int q[4]; long t=c; for(int l=0;l<4;l++){ q[l]=t%8; t/=8; } for(int n=150;n<=350;n+=200){ uint8_t *ip[4],*op[4]; content(0,c,n); for(int l=0;l<4;l++){ int r=0; for(int k=0;k<l;k++) if(q[k]==q[l]) r++; ip[l]=B[q[l]]-1200+r*520+l; memcpy(ip[l],IN[l],n); op[l]=B[7-q[l]]+1000+r*420+l; memset(op[l],0x3c,400); } expect(a,ST,n,380); ONE[a](op[0],op[1],op[2],op[3],380,ip[0],ip[1],ip[2],ip[3],n); for(int l=0;l<4;l++){ long d=first_diff(op[l],EXP[l],380); if(d>=0) mc_fail("%s, inputs at %p %p %p %p, outputs at %p %p %p %p, length %d: instance %d differs from SHAKE at byte %ld",NM[a],ip[0],ip[1],ip[2],ip[3],op[0],op[1],op[2],op[3],n,l,d); if(op[l][380]!=0x3c) mc_fail("%s instance %d wrote behind its output",NM[a],l); }
    for(int l=0;l<4;l++) memset(op[l],0x3c,400); xst *s=(void*)(((uintptr_t)B[c%8]-0x1800+0x200+63)&~63ul); ABS[a](s->s,ip[0],ip[1],ip[2],ip[3],n); SQB[a](op[0],op[1],op[2],op[3],2,s->s); for(int l=0;l<4;l++){ long d=first_diff(op[l],EXP[l],2*RATE[a]); if(d>=0) mc_fail("%s, absorb_once and squeezeblocks, inputs at %p %p %p %p, outputs at %p %p %p %p, length %d: instance %d differs from SHAKE at byte %ld",NM[a],ip[0],ip[1],ip[2],ip[3],op[0],op[1],op[2],op[3],n,l,d); } mc_trans(3); } mc_trace(1); mc_state(mc_hash2(u,0xc11a)); }
/* more than 2^32 bytes per instance */
#define AW ((size_t)(16<<20)+3*4096)
static void big_ref(int a,const uint8_t*in,size_t n,size_t L,uint8_t*ring,uint8_t*e){ char b[64]; uint8_t st[512] __attribute__((aligned(64))); void (*i_)(void*),(*ab)(void*,const uint8_t*,size_t),(*fi)(void*),(*sq)(uint8_t*,size_t,void*); 
#define Q(v,x) snprintf(b,64,"shake%d_" x,a?256:128); *(void**)&v=fsym(1,b);
  Q(i_,"init") Q(ab,"absorb") Q(fi,"finalize") Q(sq,"squeeze") i_(st); for(size_t p=0;p<n;){ size_t k=65003; if(k>n-p) k=n-p; ab(st,in+p,k); p+=k; } fi(st); for(size_t p=0;p<L;){ size_t k=65000; if(k>L-p) k=L-p; if(ring){ if(k>AW-p%AW) k=AW-p%AW; sq(ring+p%AW,k,st); } else sq(e+p,k,st); p+=k; } if(ring) sq(e,300,st); }
static void u_huge(long u){ mc_limit(150); int a=u&1,what=u>>1; size_t t[4]; if(what<2){ size_t nb=(1ull<<32)/RATE[a]+5,L=nb*RATE[a]+(what?7:0); uint8_t*w[4],*r=malloc(AW),e[300],ee[4][300]; content(0,1,100); for(int l=0;l<4;l++){ w[l]=alias_map(L+AW,AW,&t[l]); if(!w[l]){ mc_note("large mapping refused: very long outputs skipped"); return; } }
    if(what) ONE[a](w[0],w[1],w[2],w[3],L,IN[0],IN[1],IN[2],IN[3],100); else { xst s; ABS[a](s.s,IN[0],IN[1],IN[2],IN[3],100); SQB[a](w[0],w[1],w[2],w[3],nb,s.s); SQB[a](ee[0],ee[1],ee[2],ee[3],1,s.s); }
    for(int l=0;l<4;l+=3){ big_ref(a,IN[l],100,L,r,e); if(memcmp(r,w[l],AW)) mc_fail("%s: %zu bytes of output per instance (%s): instance %d wrong",NM[a],L,what?"one-shot":"squeezeblocks",l); if(!what&&memcmp(ee[l],e,RATE[a])) mc_fail("%s: the stream after %zu blocks continues wrongly in instance %d",NM[a],nb,l); } for(int l=0;l<4;l++) munmap(w[l],t[l]); free(r); mc_count("outputs longer than 2^32 bytes",1); }
  else { size_t n=(1ull<<32)+77; uint8_t*w=alias_map(n+8,AW,&t[0]); if(!w){ mc_note("large mapping refused: very long inputs skipped"); return; } for(size_t i=0;i<AW;i++) w[i]=(uint8_t)(i*7+(i>>8)*3+(i>>16)*11); memset(OUT,0x3c,sizeof OUT); if(what==2) ONE[a](OUT[0],OUT[1],OUT[2],OUT[3],300,w,w+1,w+2,w+3,n); else { xst s; ABS[a](s.s,w,w+1,w+2,w+3,n); SQB[a](OUT[0],OUT[1],OUT[2],OUT[3],2,s.s); } size_t m=what==2?300:2*RATE[a]; for(int l=0;l<4;l+=3){ big_ref(a,w+l,n,m,NULL,EXP[l]); if(memcmp(OUT[l],EXP[l],m)) mc_fail("%s of %zu input bytes (%s): instance %d wrong",NM[a],n,what==2?"one-shot":"absorb_once",l); } munmap(w,t[0]); mc_count("inputs longer than 2^32 bytes",1); }
  mc_trans(1); mc_trace(1); mc_state(mc_hash2(u,0xc11b)); }
int main(int argc,char **argv){ mc_init(argc,argv,"C11"); if(libs_load()) return 2; load();
  mc_units("huge",u_huge,8); mc_units("long",u_lng,64); mc_units("far-apart",u_far,2*4096); mc_units("input-lengths",u_in,mc_thorough?1100:700); mc_units("output-lengths",u_out,mc_thorough?150:85); mc_units("instance-differences",u_lane,345); mc_units("block-compositions",u_comp,2*175); mc_units("byte-operations",u_bytes,4*201); mc_units("lane-operations",u_lanes,26*5*9); mc_units("permutations",u_perm,100); mc_units("absorb-loops",u_fast,25); mc_units("operation-sequences",u_opseq,8);
  return mc_run(); }
