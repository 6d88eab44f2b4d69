/* C16: stateless exploration of thread interleavings of the real libraries.
 * Worker threads are real pthreads that run one at a time.  Scheduling points:
 * every entry into the hash layer, every access to writable library memory or
 * to memory the libraries allocate (those pages are inaccessible, so each
 * access faults and is executed by a single step once the scheduler lets it),
 * and, in the grid groups, chosen instruction counts.  Shared inputs live in
 * read-only pages: a write to them, even a temporary one, is a violation. */
#define _GNU_SOURCE
#include "libs.h"
#include "util.h"
#include "oracle.h"
#include "snap.h"
#include <pthread.h>
#include <signal.h>
#include <ucontext.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <unistd.h>
#include <dlfcn.h>
#include <time.h>
#define NT 3
/* ---- protected memory ---- */
static struct { uint8_t *p; size_t n; uint8_t *save; } R[96]; static int nR; static int prot_on; static long segacc;
#define ARENA (1u<<20)
static uint8_t *arena; static size_t arena_top; static __thread int in_op;
static void addr_(uint8_t*p,size_t n){ uintptr_t a=(uintptr_t)p&~4095ul,e=((uintptr_t)p+n+4095)&~4095ul; if(e<=a) return; R[nR].p=(uint8_t*)a; R[nR].n=e-a; R[nR].save=malloc(e-a); memcpy(R[nR].save,R[nR].p,e-a); nR++; }
static void prot(int on){ if(on==prot_on) return; int f=on?PROT_NONE:PROT_READ|PROT_WRITE; for(int i=0;i<nR;i++) mprotect(R[i].p,R[i].n,f); mprotect(arena,ARENA,f); prot_on=on; }
static int openR=-1; /* region opened for one access: index, nR for the arena */
static int regof(const uint8_t*a){ if(a>=arena&&a<arena+ARENA) return nR; for(int i=0;i<nR;i++) if(a>=R[i].p&&a<R[i].p+R[i].n) return i; return -1; }
static void prot1(int r,int on){ int f=on?PROT_NONE:PROT_READ|PROT_WRITE; if(r==nR) mprotect(arena,ARENA,f); else mprotect(R[r].p,R[r].n,f); }
static int guarded(const uint8_t*a){ if(a>=arena&&a<arena+ARENA) return 1; for(int i=0;i<nR;i++) if(a>=R[i].p&&a<R[i].p+R[i].n) return 1; return 0; }
static long restored=-1; static void restore(void){ if(segacc==restored&&!arena_top) return; restored=segacc; prot(0); for(int i=0;i<nR;i++) if(memcmp(R[i].p,R[i].save,R[i].n)) memcpy(R[i].p,R[i].save,R[i].n); if(arena_top){ memset(arena,0,arena_top); arena_top=0; } }
extern void *__libc_malloc(size_t); extern void __libc_free(void*); extern void *__libc_calloc(size_t,size_t); extern void *__libc_realloc(void*,size_t); extern void *__libc_memalign(size_t,size_t);
static void *ar(size_t n,size_t al){ size_t t=(__atomic_load_n(&arena_top,__ATOMIC_RELAXED)+al-1)&~(al-1); if(t+n>ARENA) return NULL; arena_top=t+((n+15)&~15ul); return arena+t; }
void *malloc(size_t n){ return in_op?ar(n,64):__libc_malloc(n); }
void free(void*p){ if(arena&&(uint8_t*)p>=arena&&(uint8_t*)p<arena+ARENA) return; __libc_free(p); }
void *calloc(size_t a,size_t b){ return in_op?ar(a*b,64):__libc_calloc(a,b); }
void *realloc(void*p,size_t n){ if(arena&&(uint8_t*)p>=arena&&(uint8_t*)p<arena+ARENA){ void*q=ar(n,64); if(q) memcpy(q,p,n); return q; } return in_op&&!p?ar(n,64):__libc_realloc(p,n); }
void *aligned_alloc(size_t al,size_t n){ return in_op?ar(n,al<64?64:al):__libc_memalign(al,n); }
void *memalign(size_t al,size_t n){ return aligned_alloc(al,n); }
int posix_memalign(void**p,size_t al,size_t n){ *p=aligned_alloc(al,n); return *p?0:12; }
/* ---- shared inputs (read-only) ---- */
typedef struct { uint8_t co[2][64],pk[2][1568],sk[2][3168],ct[3][1568],msg[2][512]; } inputs;
static inputs *IN[5];   /* by K */
static uint8_t *inbase; static size_t inlen;
/* ---- operations ---- */
enum { KP, ENC, DEC, DECR, KPR, ENCR, NAPI, H256=NAPI, H512, S128, S256, X128, X256, INC, NOPK };
static const char *ON[NOPK]={"keypair_derand","enc_derand","dec","dec (rejecting)","keypair","enc","sha3_256","sha3_512","shake128","shake256","shake128x4","shake256x4","incremental shake256"};
typedef struct { kyber *k; int kind,v; uint8_t want[4800]; size_t on; } op;
static __thread const uint8_t *myrnd; static __thread size_t rndp; static __thread int me=-1;
static void point(void);
static void rnd(uint8_t*o,size_t n){ point(); for(size_t i=0;i<n;i++) o[i]=myrnd[rndp++&63]; }
typedef void (*fH)(uint8_t*,const uint8_t*,size_t); typedef void (*fS)(uint8_t*,size_t,const uint8_t*,size_t); typedef void (*fX)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t);
static struct { fH h256,h512; fS s128,s256; fX x128,x256; void (*init)(void*),(*ab)(void*,const uint8_t*,size_t),(*fin)(void*),(*sq)(uint8_t*,size_t,void*); } F[2];
static void doop(op*o,uint8_t*out){ kyber*k=o->k; inputs*I=IN[k->K]; int v=o->v; switch(o->kind){
  case KP: k->keypair_derand(out,out+k->pkb,I->co[v]); break; case KPR: myrnd=I->co[v]; rndp=0; k->keypair(out,out+k->pkb); break;
  case ENC: k->enc_derand(out,out+k->ctb,I->pk[v],I->co[v]); break; case ENCR: myrnd=I->co[v]; rndp=0; k->enc(out,out+k->ctb,I->pk[v]); break;
  case DEC: k->dec(out,I->ct[v],I->sk[v]); break; case DECR: k->dec(out,I->ct[2],I->sk[v]); break;
  case H256: F[k->avx].h256(out,I->msg[v],400); break; case H512: F[k->avx].h512(out,I->msg[v],100); break; case S128: F[k->avx].s128(out,400,I->msg[v],200); break; case S256: F[k->avx].s256(out,300,I->msg[v],300); break;
  case X128: F[1].x128(out,out+400,out+800,out+1200,400,I->msg[v],I->msg[v]+1,I->msg[v]+2,I->msg[!v],200); break; case X256: F[1].x256(out,out+400,out+800,out+1200,400,I->msg[v],I->msg[v]+1,I->msg[v]+2,I->msg[!v],150); break;
  case INC: { uint8_t st[512] __attribute__((aligned(64))); F[k->avx].init(st); F[k->avx].ab(st,I->msg[v],130); F[k->avx].ab(st,I->msg[v]+130,70); F[k->avx].fin(st); F[k->avx].sq(out,100,st); F[k->avx].sq(out+100,100,st); break; } } }
static void mkop(op*o,kyber*k,int kind,int v){ inputs*I=IN[k->K]; o->k=k; o->kind=kind; o->v=v; switch(kind){
  case KP: case KPR: spec_keypair(k->K,I->co[v],o->want,o->want+k->pkb); o->on=k->pkb+k->skb; break; case ENC: case ENCR: spec_enc(k->K,I->pk[v],I->co[v],o->want,o->want+k->ctb); o->on=k->ctb+32; break;
  case DEC: spec_dec(k->K,I->sk[v],I->ct[v],o->want); o->on=32; break; case DECR: spec_dec(k->K,I->sk[v],I->ct[2],o->want); o->on=32; break;
  case H256: spec_sha3_256(o->want,I->msg[v],400); o->on=32; break; case H512: spec_sha3_512(o->want,I->msg[v],100); o->on=64; break; case S128: spec_shake128(o->want,400,I->msg[v],200); o->on=400; break; case S256: spec_shake256(o->want,300,I->msg[v],300); o->on=300; break;
  case X128: case X256: { o->on=1600; const uint8_t*m[4]={I->msg[v],I->msg[v]+1,I->msg[v]+2,I->msg[!v]}; for(int j=0;j<4;j++) (kind==X128?spec_shake128:spec_shake256)(o->want+400*j,400,m[j],kind==X128?200:150); break; }
  case INC: spec_shake256(o->want,200,I->msg[v],200); o->on=200; break; } }
/* ---- scheduler ---- */
#define MAXP 40000
static struct { op *o; uint8_t out[4800]; volatile int done; sem_t go; pthread_t th; volatile int job; } T[NT]; static int nt;
static volatile int cur; static sem_t mainsem; static char failmsg[600];
static struct { long at; int to; } pre[8]; static int npre; static volatile long npt; static int ipre; static long lastforce; static uint8_t enb[MAXP]; static uint8_t curat[MAXP], isw[MAXP]; static int wr; static double t_start; static long perrun;
static volatile long grid_target=-1,grid_cnt; static volatile int stepping; static volatile int gridding;
static void park(void){ for(;;) pause(); }
static void wfail(const char*m){ if(!failmsg[0]) snprintf(failmsg,sizeof failmsg,"%s",m); sem_post(&mainsem); park(); }
static void give(int to){ int self=me; cur=to; sem_post(&T[to].go); if(self>=0){ while(sem_wait(&T[self].go)); } }
static void point(void){ if(me<0||!in_op) return; long p=npt++; int m=0; for(int i=0;i<nt;i++) if(!T[i].done) m|=1<<i; if(p<MAXP){ enb[p]=(uint8_t)m; curat[p]=(uint8_t)me; isw[p]=(uint8_t)wr; } wr=0;
  int s=in_op; int to=-1; if(ipre<npre&&pre[ipre].at==p){ to=pre[ipre].to; ipre++; if(T[to].done) to=-1; } else if(p-lastforce>30000){ lastforce=p; for(int i=1;i<nt;i++) if(!T[(me+i)%nt].done){ to=(me+i)%nt; break; } if(p>2000000) wfail("no progress: two calls block each other (more than 2000000 accesses to shared library memory)"); }
  if(to>=0&&to!=me){ in_op=0; give(to); in_op=s; } }
static void onsegv(int sig,siginfo_t*si,void*uc_){ ucontext_t*uc=uc_; (void)sig; uint8_t*a=si->si_addr; int sv=in_op; 
  if(prot_on&&stepping&&me>=0&&guarded(a)){ openR=-1; prot(0); return; }
  if(prot_on&&me>=0&&guarded(a)){ in_op=1; wr=(uc->uc_mcontext.gregs[REG_ERR]&2)?1:0; point(); in_op=sv; segacc++; openR=regof(a); prot1(openR,0); stepping=1; uc->uc_mcontext.gregs[REG_EFL]|=0x100; return; }
  if(me>=0&&a>=inbase&&a<inbase+inlen&&(uc->uc_mcontext.gregs[REG_ERR]&2)){ char b[300]; snprintf(b,300,"%s %s writes to one of its inputs (shared, read-only) at offset %ld",T[me].o->k->name,ON[T[me].o->kind],(long)(a-inbase)); in_op=0; wfail(b); }
  if(me>=0){ char b[300]; snprintf(b,300,"%s %s crashes at address %p",T[me].o->k->name,ON[T[me].o->kind],(void*)a); in_op=0; wfail(b); }
  signal(SIGSEGV,SIG_DFL); }
static void ontrap(int sig,siginfo_t*si,void*uc_){ ucontext_t*uc=uc_; (void)sig; (void)si; if(stepping){ stepping=0; if(openR>=0){ prot1(openR,1); openR=-1; } else prot(1); }
  if(gridding&&me==0){ grid_cnt++; if(grid_cnt==grid_target){ gridding=0; uc->uc_mcontext.gregs[REG_EFL]&=~0x100ul; int s=in_op; in_op=0; if(!T[1].done) give(1); in_op=s; } } else uc->uc_mcontext.gregs[REG_EFL]&=~0x100ul; }
static void *worker(void*a){ me=(int)(long)a; for(;;){ while(sem_wait(&T[me].go)); 
    if(me==0&&grid_target>0){ gridding=1; grid_cnt=0; in_op=1; __asm__ volatile("pushfq; orq $0x100,(%%rsp); popfq":::"memory","cc"); doop(T[me].o,T[me].out); __asm__ volatile("pushfq; andq $~0x100,(%%rsp); popfq":::"memory","cc"); gridding=0; in_op=0; }
    else { in_op=1; doop(T[me].o,T[me].out); in_op=0; }
    T[me].done=1; int nx=-1; for(int i=0;i<nt;i++) if(!T[i].done){ nx=i; break; } if(nx>=0){ cur=nx; sem_post(&T[nx].go); } else sem_post(&mainsem); } return NULL; }
static int started;
static void threads(void){ if(started) return; started=1; struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsegv; sa.sa_flags=SA_SIGINFO|SA_NODEFER; sigaction(SIGSEGV,&sa,NULL); sigaction(SIGBUS,&sa,NULL); sa.sa_sigaction=ontrap; sigaction(SIGTRAP,&sa,NULL); sem_init(&mainsem,0,0); for(int i=0;i<NT;i++){ sem_init(&T[i].go,0,0); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,1<<20); pthread_create(&T[i].th,&at,worker,(void*)(long)i); } }
static const char *schedstr(void){ static char b[300]; b[0]=0; for(int i=0;i<npre;i++) snprintf(b+strlen(b),300-strlen(b)," at point %ld to thread %d;",pre[i].at,pre[i].to); return b; }
static long run1(int first){ npt=0; ipre=0; lastforce=0; failmsg[0]=0; restore(); for(int i=0;i<nt;i++){ T[i].done=0; memset(T[i].out,0x5b,sizeof T[i].out); } prot(1); cur=first; sem_post(&T[first].go); while(sem_wait(&mainsem)); if(failmsg[0]) prot(0);
  char w[400]=""; for(int i=0;i<nt;i++) snprintf(w+strlen(w),400-strlen(w),"%s%s %s",i?" || ":"",T[i].o->k->name,ON[T[i].o->kind]);
  if(failmsg[0]) mc_fail("%s; threads: %s; starting with thread %d, preemptions:%s grid %ld",failmsg,w,first,schedstr(),grid_target);
  for(int i=0;i<nt;i++) if(memcmp(T[i].out,T[i].o->want,T[i].o->on)){ long d=first_diff(T[i].out,T[i].o->want,T[i].o->on); mc_fail("threads %s: under the schedule starting with thread %d, preemptions:%s grid %ld, thread %d (%s) returns a result different from the same call alone, first at byte %ld",w,first,schedstr(),grid_target,i,ON[T[i].o->kind],d); }
  mc_trans(nt); mc_trace(1); mc_count("schedules explored",1); return npt<MAXP?npt:MAXP; }
/* all schedules with at most b preemptions, capped per level by a fixed stride.  When the calls access shared library memory
 * (each access is a point and costs two signals) the cap follows from a budget of accesses per unit; half of it goes to the
 * points at and right after writes. */
static double clk(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void explore(int first,int b,long cap){ long a0=segacc; long n=run1(first); if(!npre){ perrun=segacc-a0; if(perrun>50){ long S=(mc_thorough?3000000:30000)/perrun; if(S<24) S=24; cap= b>1?S/4:S; mc_count("units explored within an access budget",1); } } mc_state(mc_hash2(mc_hash2(first,npre?pre[npre-1].at:-1),mc_hash2(npre?pre[npre-1].to:-1,mc_hash(T[0].o,16)^mc_hash(T[1].o,16)*3))); if(!b) return; if(!mc_thorough&&clk()-t_start>400){ mc_count("explorations cut by the time limit",1); return; }
  uint8_t*e=__libc_malloc(n?n:1),*c=__libc_malloc(n?n:1),*w=__libc_malloc(n?n:1); memcpy(e,enb,n); memcpy(c,curat,n); long from=npre?pre[npre-1].at+1:0; long st=1,nw=0; if(n-from>cap){ mc_count("exploration nodes with strided points",1); for(long p=from;p<n;p++){ w[p]=(isw[p]||(p>from&&isw[p-1])); nw+=w[p]; } st= nw? ((n-from)*2+cap-1)/cap : (n-from)/cap; } long wst= nw? (nw*2+cap-1)/cap : 0; long iw=0; int sub= st>1? (perrun>50?3:(int)(cap/8+1)) : (int)cap;
  for(long p=from;p<n;p++){ int sel= st<=1||(p-from)%st==0; if(wst&&w[p]&&iw++%wst==0) sel=1; if(sel) for(int t=0;t<nt;t++) if((e[p]>>t&1)&&t!=c[p]){ pre[npre].at=p; pre[npre].to=t; npre++; explore(first,b-1,sub); npre--; } } __libc_free(e); __libc_free(c); __libc_free(w); }
static op OP[NT];
static void go(int n,int bound){ nt=n; threads(); grid_target=-1; npre=0; segacc=0; restored=-1; for(int i=0;i<n;i++) T[i].o=&OP[i]; for(int f=0;f<n;f++) explore(f,bound,mc_thorough?1500:300); prot(0); if(segacc) mc_count("scheduled accesses to shared library memory",segacc); }
/* every ordered pair of API operations of one library, shared and distinct inputs */
static void u_same(long u){ kyber*k=&KY[u%6]; long c=u/6; int a=c%NAPI,b=c/NAPI%NAPI,sh=c/(NAPI*NAPI); mkop(&OP[0],k,a,0); mkop(&OP[1],k,b,sh?0:1); go(2,mc_thorough?2:a==b&&sh==0?2:1); }
/* pairs across libraries */
static void u_cross(long u){ int i=u%6,j=u/6%6; long c=u/36; int a=c%NAPI,b=c/NAPI; if(i==j||(!mc_thorough&&(a+b+i+j)%3)) return; mkop(&OP[0],&KY[i],a,0); mkop(&OP[1],&KY[j],b,1); go(2,1); }
/* three threads */
static void u_three(long u){ kyber*k=&KY[u%6]; long c=u/6; static const int tr[][3]={{KP,ENC,DEC},{DEC,DEC,DECR},{KP,KP,KP},{ENC,ENC,ENC},{KPR,ENCR,DEC},{S256,ENC,H256}}; for(int i=0;i<3;i++) mkop(&OP[i],k,tr[c][i],i&1); go(3,1+(mc_thorough!=0)); }
/* preemption at instruction counts: operation a is stopped after n instructions, b runs completely, a continues */
static long icount(void){ grid_target=1L<<40; npre=0; run1(0); long n=grid_cnt; return n; }
static void grid(int cells,int sub,int nsub){ nt=2; threads(); T[0].o=&OP[0]; T[1].o=&OP[1]; npre=0; long n=icount(); mc_count("instructions single-stepped",n); for(long q=sub;q<cells;q+=nsub){ grid_target=1+q*n/cells; mc_ctx("grid %ld of %ld",grid_target,n); run1(0); mc_count("schedules preempting at an instruction count",1); mc_state(mc_hash2(mc_hash2(grid_target,OP[0].kind),mc_hash2(OP[1].kind,(uintptr_t)(OP[0].k-KY)))); } grid_target=-1; prot(0); }
static void u_hash(long u){ int im=u%2; long c=u/2; int nk=im?NOPK-NAPI:NOPK-NAPI-2; int ks[]={H256,H512,S128,S256,INC,X128,X256}; int a=c%7,b=c/7%7; if(a>=nk||b>=nk) return; kyber*k=KYI(im,2); mkop(&OP[0],k,ks[a],0); mkop(&OP[1],k,ks[b],1); grid(mc_thorough?400:40,0,1); }
static void u_grid(long u){ kyber*k=&KY[u%6]; long c=u/6; int a=c%4,b=c/4%4; if(!mc_thorough&&b!=(a+u)%4) return; mkop(&OP[0],k,a,0); mkop(&OP[1],k,b,1); grid(mc_thorough?120:3,0,1); }
int main(int argc,char **argv){ mc_init(argc,argv,"C16"); if(libs_load()) return 2; orc_init(); orc_call=point; rnd_hook=rnd; t_start=clk(); mc_set_timeout(800);
  for(int a=0;a<2;a++){ 
#define G(f,n) *(void**)&F[a].f=fsym(a,n); if(!F[a].f){ fprintf(stderr,"missing %s\n",n); return 2; }
    G(h256,"sha3_256") G(h512,"sha3_512") G(s128,"shake128") G(s256,"shake256") G(init,"shake256_init") G(ab,"shake256_absorb") G(fin,"shake256_finalize") G(sq,"shake256_squeeze") }
  *(void**)&F[1].x128=xsym("shake128x4"); *(void**)&F[1].x256=xsym("shake256x4"); if(!F[1].x128||!F[1].x256) return 2;
  inlen=(3*sizeof(inputs)+4095)&~4095ul; inbase=mmap(0,inlen,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0); for(int K=2;K<=4;K++){ inputs*I=IN[K]=(inputs*)inbase+(K-2); for(int v=0;v<2;v++){ kset h; honest(K,v+3,&h); memcpy(I->pk[v],h.pk,1568); memcpy(I->sk[v],h.sk,3168); memcpy(I->ct[v],h.ct,1568); mc_fill(I->co[v],64,v+50); mc_fill(I->msg[v],512,v+60); memcpy(I->ct[2],h.ct,1568); I->ct[2][7]^=1; } } mprotect(inbase,inlen,PROT_READ);
  arena=mmap(0,ARENA,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
  void *hs[9]={H_fips_ref,H_fips_avx,H_x4}; for(int i=0;i<6;i++) hs[3+i]=KY[i].h; size_t tot=0; for(int i=0;i<9;i++){ segs s; if(!snap_segs(hs[i],&s)) for(int j=0;j<s.n;j++){ addr_(s.s[j].p,s.s[j].n); tot+=s.s[j].n; } } mc_count("bytes of writable library memory under access control",tot);
  mc_units("grid",u_grid,6*16); mc_units("hash-grid",u_hash,2*49); mc_units("same-library",u_same,6*NAPI*NAPI*2); mc_units("cross-library",u_cross,36*NAPI*NAPI); mc_units("three-threads",u_three,6*6);
  return mc_run(); }
