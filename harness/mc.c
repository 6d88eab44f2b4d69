#define _GNU_SOURCE
#include "mc.h"
#include <stdarg.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <errno.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>

int mc_thorough; uint64_t mc_seed = 1; const char *mc_libdir; const char *mc_arg = ""; int mc_jobs = 8;
static const char *g_prop = "?", *g_out, *g_replaydir, *g_only;
static int g_timeout = 60;

#define MAXG 256
static struct { char name[64]; mc_fn fn; long n; } G[MAXG];
static int ng;
static long total;

#define MAXU (1L<<22)
#define NSLOT (1L<<22)
#define MAXW 64
#define MAXF 8
#define MAXC 192
#define MAXN 48
struct shared {
  volatile long next; volatile int stop;
  volatile long trans, traces, states, setfull, slow_ms, slow_unit;
  struct { volatile long unit; volatile long done; char ctx[600]; } w[MAXW];
  volatile int nfail;
  struct { long unit; int worker; long pos; char txt[16384]; } f[MAXF];
  volatile int ncnt; struct { char name[64]; volatile long v; } c[MAXC];
  volatile int nnote; char note[MAXN][400];
  volatile int nsamp; char samp[24][1200];
  volatile int nfind; struct { char key[128]; char txt[1200]; } find[64];
  volatile int lock;
};
static struct shared *S;
static uint64_t *HS;
static int *UL;          /* unit lists per worker: MAXW x (total) would be big: one array of (worker) per unit order */
static volatile long *ULn;
static int my_w = 0;
static jmp_buf unit_jb;
static int in_unit;

static void lock(void){ while(__sync_lock_test_and_set(&S->lock,1)) usleep(10); }
static void unlock(void){ __sync_lock_release(&S->lock); }
static double now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }

uint64_t mc_hash2(uint64_t a, uint64_t b){
  uint64_t x = a*0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a<<6) + (a>>2));
  x ^= x>>30; x*=0xBF58476D1CE4E5B9ull; x^=x>>27; x*=0x94D049BB133111EBull; x^=x>>31; return x;
}
uint64_t mc_hash(const void *p, size_t n){
  const uint8_t *b=p; uint64_t h=n*0x9E3779B97F4A7C15ull;
  while(n>=8){ uint64_t v; memcpy(&v,b,8); h=mc_hash2(h,v); b+=8; n-=8; }
  uint64_t v=0; memcpy(&v,b,n); return mc_hash2(h,v);
}
uint64_t mc_rand(uint64_t *s){ uint64_t z=(*s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
void mc_fill(void *p, size_t n, uint64_t tag){ uint8_t *b=p; uint64_t s=mc_hash2(tag,0x1234567); while(n){ uint64_t v=mc_rand(&s); size_t k=n<8?n:8; memcpy(b,&v,k); b+=k; n-=k; } }
void mc_hex(char *d, const void *p, size_t n){ const uint8_t *b=p; for(size_t i=0;i<n;i++) sprintf(d+2*i,"%02x",b[i]); d[2*n]=0; }
char *mc_hexs(const void *p, size_t n){ static char buf[8][8200]; static int k; char *d=buf[k++&7]; if(n>4096) n=4096; mc_hex(d,p,n); return d; }

void mc_init(int argc, char **argv, const char *prop){
  g_prop=prop; setvbuf(stdout,NULL,_IOLBF,0);
  const char *t=getenv("VERIF_TIER"); mc_thorough = t && !strcmp(t,"thorough");
  t=getenv("VERIF_SEED"); if(t) mc_seed=strtoull(t,0,10);
  for(int i=1;i<argc;i++){
    if(!strcmp(argv[i],"--lib")) mc_libdir=argv[++i];
    else if(!strcmp(argv[i],"--out")) g_out=argv[++i];
    else if(!strcmp(argv[i],"--replaydir")) g_replaydir=argv[++i];
    else if(!strcmp(argv[i],"--only")) g_only=argv[++i];
    else if(!strcmp(argv[i],"--arg")) mc_arg=argv[++i];
    else if(!strcmp(argv[i],"--jobs")) mc_jobs=atoi(argv[++i]);
    else if(!strcmp(argv[i],"--thorough")) mc_thorough=1;
    else { fprintf(stderr,"bad arg %s\n",argv[i]); exit(2); }
  }
  if(mc_jobs>MAXW) mc_jobs=MAXW;
  S=mmap(0,sizeof *S,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  HS=mmap(0,NSLOT*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  UL=mmap(0,(size_t)MAXU*8,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
  ULn=mmap(0,4096,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
}
void mc_set_timeout(int s){ g_timeout=s; }
void mc_units(const char *name, mc_fn fn, long n){
  if(ng>=MAXG){ fprintf(stderr,"too many unit groups\n"); exit(2);} 
  if(n<=0) return;
  snprintf(G[ng].name,64,"%s",name); G[ng].fn=fn; G[ng].n=n; ng++; total+=n;
}
void mc_trans(long n){ __sync_fetch_and_add(&S->trans,n); }
void mc_trace(long n){ __sync_fetch_and_add(&S->traces,n); }
int mc_state(uint64_t h){
  if(!h) h=1;
  if(S->states > NSLOT-NSLOT/8){ S->setfull=1; return 0; }
  uint64_t i=h&(NSLOT-1);
  for(;;){ uint64_t v=__atomic_load_n(&HS[i],__ATOMIC_RELAXED);
    if(v==h) return 0;
    if(!v){ uint64_t e=0; if(__atomic_compare_exchange_n(&HS[i],&e,h,0,__ATOMIC_RELAXED,__ATOMIC_RELAXED)){ __sync_fetch_and_add(&S->states,1); return 1; } if(e==h) return 0; }
    i=(i+1)&(NSLOT-1);
  }
}
void mc_count(const char *name, long n){
  int k=S->ncnt; for(int i=0;i<k;i++) if(!strcmp(S->c[i].name,name)){ __sync_fetch_and_add(&S->c[i].v,n); return; }
  lock(); int i; for(i=0;i<S->ncnt;i++) if(!strcmp(S->c[i].name,name)) break;
  if(i==S->ncnt && i<MAXC){ snprintf(S->c[i].name,64,"%s",name); S->c[i].v=0; S->ncnt=i+1; }
  if(i<MAXC) __sync_fetch_and_add(&S->c[i].v,n);
  unlock();
}
void mc_note(const char *fmt, ...){ char b[400]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  lock(); int i; for(i=0;i<S->nnote;i++) if(!strcmp(S->note[i],b)) break; if(i==S->nnote && i<MAXN){ strcpy(S->note[i],b); S->nnote++; } unlock(); }
void mc_sample(const char *fmt, ...){ if(S->nsamp>=24) return; char b[1200]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  lock(); if(S->nsamp<24){ strcpy(S->samp[S->nsamp],b); S->nsamp++; } unlock(); }
void mc_finding(const char *key, const char *fmt, ...){ char b[1200]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  lock(); int i; for(i=0;i<S->nfind;i++) if(!strcmp(S->find[i].key,key)) break; if(i==S->nfind && i<64){ snprintf(S->find[i].key,128,"%s",key); strcpy(S->find[i].txt,b); S->nfind++; } unlock(); }

static void rec_fail(long unit,const char *txt){
  lock(); int i=S->nfail; if(i<MAXF){ S->f[i].unit=unit; S->f[i].worker=my_w; S->f[i].pos=ULn[my_w]; snprintf(S->f[i].txt,sizeof S->f[i].txt,"%s",txt); S->nfail=i+1; } S->stop=1; unlock();
}
void mc_ctx(const char *fmt, ...){ va_list ap; va_start(ap,fmt); vsnprintf(S->w[my_w].ctx,sizeof S->w[my_w].ctx,fmt,ap); va_end(ap); }
void mc_fail(const char *fmt, ...){
  static char b[16384]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
  if(!in_unit){ fprintf(stderr,"harness failure outside unit: %s\n",b); exit(2); }
  rec_fail(S->w[my_w].unit,b); longjmp(unit_jb,1);
}
static void unit_name(long u,char *d){ for(int g=0;g<ng;g++){ if(u<G[g].n){ sprintf(d,"%s:%ld",G[g].name,u); return; } u-=G[g].n; } strcpy(d,"?"); }
/* a unit may use t seconds of processor time and, for the case that it blocks, a multiple of wall-clock time */
void mc_limit(int t){ struct itimerval it; memset(&it,0,sizeof it); if(mc_thorough) t*=10; it.it_value.tv_sec=t; setitimer(ITIMER_PROF,&it,NULL); t*=4; alarm(!mc_thorough&&t>850?850:t); }
static void run_unit(long u){
  long v=u; for(int g=0;g<ng;g++){ if(v<G[g].n){ S->w[my_w].unit=u; S->w[my_w].ctx[0]=0; mc_limit(g_timeout); double t1=now(); in_unit=1; if(!setjmp(unit_jb)) G[g].fn(v); in_unit=0; mc_limit(0); long ms=(long)((now()-t1)*1000); if(ms>S->slow_ms){ S->slow_ms=ms; S->slow_unit=u; } if(v==G[g].n/2) mc_sample("%s:%ld explored without a difference%s%s",G[g].name,v,S->w[my_w].ctx[0]?"; its last operation: ":"",S->w[my_w].ctx); S->w[my_w].unit=-1; return; } v-=G[g].n; }
}
static void child_setup(void){ prctl(PR_SET_PDEATHSIG,SIGKILL); signal(SIGALRM,SIG_DFL); signal(SIGPROF,SIG_DFL); }
static void worker(int w){
  my_w=w; child_setup();
  for(;;){ if(S->stop) break; long u=__sync_fetch_and_add(&S->next,1); if(u>=total) break;
    if(u<MAXU){ UL[u]=w; } ULn[w]=u; run_unit(u); }
  fflush(stdout); _exit(0);
}
/* run the given units in one fresh process; 1 if it fails again */
static int replay(const long *us,long n,int to){
  int nf=S->nfail; (void)nf; S->nfail=0; S->stop=0; int old=g_timeout; g_timeout=to;
  pid_t p=fork(); if(p==0){ my_w=MAXW-1; child_setup(); for(long i=0;i<n && !S->nfail;i++) run_unit(us[i]); fflush(stdout); _exit(0); }
  int st; while(waitpid(p,&st,0)<0 && errno==EINTR); g_timeout=old;
  int bad = S->nfail>0 || (WIFSIGNALED(st)) || (WIFEXITED(st)&&WEXITSTATUS(st)!=0); return bad;
}
static void jstr(FILE *f,const char *s){ fputc('"',f); for(;*s;s++){ unsigned char c=*s; if(c=='"'||c=='\\') fprintf(f,"\\%c",c); else if(c=='\n') fputs("\\n",f); else if(c<32||c>126) fprintf(f,"\\u%04x",c); else fputc(c,f);} fputc('"',f); }

int mc_run(void){
  double t0=now();
  if(total>=MAXU){ fprintf(stderr,"too many units\n"); return 2; }
  static struct { long unit; int worker; char txt[16384]; int sig; } F[MAXF]; int nF=0;
  if(g_only){
    char b[128]; long u; int found=0;
    for(u=0;u<total;u++){ unit_name(u,b); if(!strcmp(b,g_only)){ found=1; break; } }
    if(!found){ fprintf(stderr,"no unit %s\n",g_only); return 2; }
    int r=replay(&u,1,g_timeout*4);
    if(r){ printf("REPLAY FAILS unit=%s: %s\n",g_only,S->nfail?S->f[0].txt:"crash/timeout"); return 1; }
    printf("REPLAY OK unit=%s\n",g_only); return 0;
  }
  pid_t pid[MAXW]; int nw=mc_jobs<total?mc_jobs:(int)total; fflush(stdout);
  for(int w=0;w<nw;w++){ S->w[w].unit=-1; pid[w]=fork(); if(pid[w]==0) worker(w); }
  for(int left=nw;left>0;){ int st; pid_t p=wait(&st); if(p<0){ if(errno==EINTR) continue; break; }
    int w; for(w=0;w<nw;w++) if(pid[w]==p) break; if(w==nw) continue; left--;
    if(WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st)!=0)){
      long u=S->w[w].unit; char nm[128]="(between units)"; if(u>=0) unit_name(u,nm);
      my_w=w; char b[1200];
      if(WIFSIGNALED(st)){ snprintf(b,sizeof b,"unit %s died with signal %d (%s)%s",nm,WTERMSIG(st),strsignal(WTERMSIG(st)),WTERMSIG(st)==SIGALRM||WTERMSIG(st)==SIGPROF?" - did not terminate in time":""); if(S->w[w].ctx[0]){ size_t q=strlen(b); snprintf(b+q,sizeof b-q,"; last operation started: %s",S->w[w].ctx); } }
      else snprintf(b,sizeof b,"unit %s exited unexpectedly with status %d",nm,WEXITSTATUS(st));
      if(u>=0) rec_fail(u,b); else { fprintf(stderr,"worker problem: %s\n",b); return 2; }
    }
  }
  nF=S->nfail; for(int i=0;i<nF;i++){ F[i].unit=S->f[i].unit; F[i].worker=S->f[i].worker; strcpy(F[i].txt,S->f[i].txt); }
  int confirmed=0, unrep=0; char names[MAXF][128]; char rpath[MAXF][512]; int okf[MAXF]={0};
  for(int i=0;i<nF && i<3 && !confirmed;i++){
    unit_name(F[i].unit,names[i]); int how=0; long n=0;
    if(replay(&F[i].unit,1,g_timeout*3)) how=1;
    else { long *l=malloc(sizeof(long)*(F[i].unit+1)); for(long u=0;u<=F[i].unit;u++) if(UL[u]==F[i].worker || u==F[i].unit) l[n++]=u; if(replay(l,n,g_timeout*3)) how=2; free(l); }
    if(!how){ unrep++; fprintf(stderr,"NOT REPRODUCED: unit %s: %s\n",names[i],F[i].txt); continue; }
    okf[i]=how; confirmed++;
    snprintf(rpath[i],512,"%s/%s-%s.txt",g_replaydir?g_replaydir:"/tmp",g_prop,names[i]); for(char *c=strrchr(rpath[i],'/')+1;*c;c++) if(*c==':'||*c==' ') *c='_';
    FILE *f=fopen(rpath[i],"w"); if(f){ fprintf(f,"property: %s\nunit: %s\nreplay: python3 check.py %s --only '%s'   (in /verif)\n%stier: %s\nwhat: %s\n",g_prop,names[i],g_prop,names[i],how==2?"note: fails only after the preceding units of its worker ran in the same process (history-dependent)\n":"",mc_thorough?"thorough":"quick",F[i].txt); fclose(f);} 
    printf("FAIL %s: %.3000s\n",names[i],F[i].txt);
    printf("VIOLATION property=%s replay=%s\n",g_prop,rpath[i]);
  }
  double wall=now()-t0;
  if(g_out){ FILE *f=fopen(g_out,"w"); if(!f){ perror(g_out); return 2; }
    char snm[128]; unit_name(S->slow_unit,snm);
    fprintf(f,"{\"states\":%ld,\"transitions\":%ld,\"traces\":%ld,\"units\":%ld,\"units_total\":%ld,\"setfull\":%ld,\"violations\":%d,\"wall\":%.2f,\"slow_ms\":%ld,\"slow_unit\":\"%s\",\"counters\":{",S->states,S->trans,S->traces,S->next>total?total:S->next,total,S->setfull,confirmed,wall,S->slow_ms,snm); 
    for(int i=0;i<S->ncnt;i++){ if(i) fputc(',',f); jstr(f,S->c[i].name); fprintf(f,":%ld",S->c[i].v);} fprintf(f,"},\"notes\":[");
    for(int i=0;i<S->nnote;i++){ if(i) fputc(',',f); jstr(f,S->note[i]); } fprintf(f,"],\"samples\":[");
    for(int i=0;i<S->nsamp;i++){ if(i) fputc(',',f); jstr(f,S->samp[i]); } fprintf(f,"],\"groups\":{");
    for(int i=0;i<ng;i++){ if(i) fputc(',',f); jstr(f,G[i].name); fprintf(f,":%ld",G[i].n);} fprintf(f,"},\"findings\":{");
    for(int i=0;i<S->nfind;i++){ if(i) fputc(',',f); jstr(f,S->find[i].key); fputc(':',f); jstr(f,S->find[i].txt);} fprintf(f,"},\"failtxt\":[");
    int k=0; for(int i=0;i<nF;i++) if(okf[i]){ if(k++) fputc(',',f); jstr(f,F[i].txt); } fprintf(f,"]}\n"); fclose(f); }
  if(confirmed) return 1;
  if(unrep) return 3;
  return 0;
}
