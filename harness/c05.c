/* C05: randombytes() of every platform variant under every enumerated
 * sequence of operating-system answers. */
#define _GNU_SOURCE
#include "mc.h"
#include "snap.h"
#include <dlfcn.h>
#include <errno.h>
#include <setjmp.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/syscall.h>
enum { V_SYS, V_GETRANDOM, V_URANDOM, V_WIN };
static struct { char name[48]; int kind; void (*rb)(uint8_t*,size_t); segs sg; uint8_t *save[8]; } V[16]; static int nV;
/* ---- choice sequence ---- */
static int pre[64],npre,cho[64],lim[64],nch; static int devs,bound; static int diverged;
static int choose(int n){ int i=nch; int c; if(i>=60) return 0; if(i<npre){ c=pre[i]; if(c>=n){ diverged=1; c=0; } } else c=0; cho[i]=c; lim[i]=(devs>=bound)?1:n; if(i<npre && c) {} nch++; if(c) devs++; return c; }
static char log_[4096]; static size_t ll; static void lg(const char *f,...){ va_list a; va_start(a,f); if(ll<sizeof log_-80) ll+=vsnprintf(log_+ll,80,f,a); va_end(a); }
/* ---- environment ---- */
static jmp_buf out; static int ended; static long ncalls; static uint8_t *given; static size_t ngiven,capgiven; static int perm, openfd; static int fd_now=-1;
static uint8_t stream(size_t i){ return (uint8_t)(0x5b+i*73+(i>>8)*31+(i>>16)*7); }
static void stopp(int how){ ended=how; longjmp(out,1); }
static void horizon(void){ if(++ncalls>400) stopp(3); }   /* 400 calls in a row that deliver nothing */
/* requests too large to hold: the buffer is a window mapped over and over; direct answers are tracked by address */
static uint8_t *hb; static size_t hL,hdone; static int herr; static long hcap; static char hmsg[200];
#define HW ((size_t)1<<26)
static uint8_t *HP; 
static void hdeliver(uint8_t*b,size_t n){ if(n) ncalls=0; if(hdone+n>hL){ snprintf(hmsg,200,"asked the source for more than was requested (%zu bytes at progress %zu)",n,hdone); stopp(4); }
  if(b>=hb&&b<hb+hL){ if(b!=hb+hdone){ snprintf(hmsg,200,"asked for bytes at offset %zu although %zu were filled",(size_t)(b-hb),hdone); stopp(4); } hdone+=n; return; }
  if(n>1<<20){ snprintf(hmsg,200,"asked the source for %zu bytes outside the buffer",n); stopp(4); }
  for(size_t i=0;i<n;i++) b[i]=HP[(hdone+i)%1048583]; hdone+=n; }
static size_t asked; static void deliver(void *b,size_t n){ if(hb){ hdeliver(b,n); return; } if(n) ncalls=0; if(ngiven+n>4*asked+8192) stopp(5); for(size_t i=0;i<n;i++) ((uint8_t*)b)[i]=stream(ngiven+i); if(ngiven+n>capgiven){ capgiven=(ngiven+n)*2+64; given=realloc(given,capgiven); } for(size_t i=0;i<n;i++) given[ngiven+i]=stream(ngiven+i); ngiven+=n; }
static int fine;   /* enumerate all short counts */
/* long runs: k interruptions before the first byte, before every byte, or k one-byte answers */
static long runk,runi; static int runm;
static int nonblock; static long answer(const char *w,void *b,size_t n){
  if(runk){ if(runi<runk){ runi++; if(runm==2){ ncalls=0; deliver(b,n?1:0); lg(runi<8?"1 ":""); return n?1:0; } errno=EINTR; lg(runi<8?"EINTR ":""); return -1; } if(runm==1&&n>1){ runi=0; deliver(b,1); return 1; } deliver(b,n); lg("%s(%zu)=all ",w,n); return (long)n; }
  horizon(); if(hb){ if((long)n>hcap) n=hcap; deliver(b,n); return (long)n; } if(perm){ errno=perm; lg("%s(%zu)=errno%d ",w,n,perm); return -1; }
  if(n==0) return 0;
  static const int pe[]={EIO,EINVAL,ENOSYS,EFAULT,EPERM};
  /* 0 full, 1 EINTR, 2.. short counts, then permanent errors, transient oddities */
  size_t sh[512]; int ns=0; if(n>1){ if(fine && n<=480) for(size_t s=1;s<n;s++) sh[ns++]=s; else { size_t t[]={1,2,n/2,n-1,n-2,7,8,16,31,32,255,256}; for(unsigned i=0;i<sizeof t/sizeof*t;i++){ int dup=0; for(int j=0;j<ns;j++) if(sh[j]==t[i]) dup=1; if(t[i]>=1&&t[i]<n&&!dup) sh[ns++]=t[i]; } } }
  int c=choose(2+ns+5+2+(nonblock?1:0)); if(c==2+ns+5+2){ errno=EAGAIN; lg("%s(%zu)=EAGAIN ",w,n); return -1; }
  if(c==0){ deliver(b,n); lg("%s(%zu)=all ",w,n); return (long)n; }
  if(c==1){ errno=EINTR; lg("%s(%zu)=EINTR ",w,n); return -1; }
  c-=2; if(c<ns){ deliver(b,sh[c]); lg("%s(%zu)=%zu ",w,n,sh[c]); return (long)sh[c]; } c-=ns;
  if(c<5){ perm=pe[c]; errno=perm; lg("%s(%zu)=errno%d ",w,n,perm); return -1; } c-=5;
  if(c==0){ lg("%s(%zu)=0 ",w,n); return 0; }
  /* partial fill of the buffer then interrupted: the bytes do not count */
  ((uint8_t*)b)[0]=0xEE; if(n>1) ((uint8_t*)b)[n-1]=0xEE; errno=EINTR; lg("%s(%zu)=EINTR(scribbled) ",w,n); return -1;
}
ssize_t mk_getrandom(void *b,size_t n,unsigned f){ if(f&~7u||(f&6)==6){ errno=EINVAL; perm=EINVAL; return -1; } if(f&4) mc_fail("asks the operating system for bytes from an uninitialised pool (flags %u)",f); nonblock=f&1; long r=answer("getrandom",b,n); nonblock=0; return r; }
long mk_syscall(long nr,...){ va_list a; va_start(a,nr); void *b=va_arg(a,void*); size_t n=va_arg(a,size_t); unsigned f=va_arg(a,unsigned); va_end(a); if(nr!=SYS_getrandom){ errno=ENOSYS; return -1; } return mk_getrandom(b,n,f); }
int mk_getentropy(void *b,size_t n){ if(n>256){ errno=EIO; perm=EIO; return -1; } long r=answer("getentropy",b,n); if(r<0) return -1; if((size_t)r<n){ errno=EIO; return -1; } return 0; }
static long openi; int mk_open(const char *p,int fl,...){ (void)fl; if(runk&&openi<runk){ openi++; errno=EINTR; return -1; } horizon(); if(perm){ errno=perm; return -1; } if(strcmp(p,"/dev/urandom")&&strcmp(p,"/dev/random")){ errno=ENOENT; return -1; } int c=choose(5); if(c==0){ openfd++; fd_now=3+openfd; lg("open=%d ",fd_now); return fd_now; } if(c==1){ errno=EINTR; lg("open=EINTR "); return -1; } if(c==2){ openfd++; fd_now=0; lg("open=0 "); return 0; } perm=c==3?ENOENT:EMFILE; errno=perm; lg("open=errno%d ",perm); return -1; }
int mk_openat(int d,const char *p,int fl,...){ (void)d; return mk_open(p,fl); }
ssize_t mk_read(int fd,void *b,size_t n){ if(fd!=fd_now||fd_now<0){ lg("read(bad fd %d) ",fd); errno=EBADF; horizon(); return -1; } return answer("read",b,n); }
int mk_close(int fd){ if(fd==fd_now) fd_now=-1; return 0; }
void mk_abort(void){ stopp(2); }
void mk_exit(int c){ (void)c; stopp(2); }
void mk__exit(int c){ (void)c; stopp(2); }
int mk_open64(const char *p,int fl,...){ return mk_open(p,fl); }
int mk_openat64(int d,const char *p,int fl,...){ (void)d; return mk_open(p,fl); }
int mk_CryptAcquireContext(unsigned long *p,const char *c,const char *n,unsigned t,unsigned f){ (void)c;(void)n;(void)t;(void)f; horizon(); if(choose(2)){ perm=1; lg("acquire=FALSE "); return 0; } *p=77; lg("acquire "); return 1; }
int mk_CryptGenRandom(unsigned long p,unsigned n,uint8_t *b){ horizon(); if(p!=77){ lg("gen(bad ctx) "); return 0; } if(perm||choose(2)){ perm=1; lg("gen(%u)=FALSE ",n); return 0; } deliver(b,n); lg("gen(%u) ",n); return 1; }
int mk_CryptReleaseContext(unsigned long p,unsigned f){ horizon(); if(p!=77||f) return 0; /* the flags argument is reserved */ if(choose(2)){ lg("release=FALSE "); return 0; } return 1; }
/* ---- one execution: a sequence of calls with lengths len[0..nl) ---- */
static int err0; static void execute(int v,const size_t *len,int nl){
  static uint8_t *buf; static size_t cap; for(int i=0;i<V[v].sg.n;i++) memcpy(V[v].sg.s[i].p,V[v].save[i],V[v].sg.s[i].n);
  nch=0; devs=0; ll=0; log_[0]=0; perm=0; openfd=0; fd_now=-1; diverged=0;
  for(int c=0;c<nl;c++){
    size_t L=len[c]; if(L+256>cap){ cap=L+256; buf=realloc(buf,cap); } memset(buf,0xC3,L+256); ended=0; ncalls=0; ngiven=0; asked=L; lg("randombytes(%zu): ",L);
    errno=err0; if(!setjmp(out)) V[v].rb(buf+128,L); mc_trans(1);
    if(ended==3) mc_fail("%s: no termination under: %s",V[v].name,log_);
    if(ended==5) mc_fail("%s: keeps taking bytes (%zu so far for a request of %zu), errno before the call %d, under: %s",V[v].name,ngiven,L,err0,log_);
    for(int i=0;i<128;i++) if(buf[i]!=0xC3||buf[128+L+i]!=0xC3) mc_fail("%s: wrote outside the buffer under: %s",V[v].name,log_);
    if(ended==2){ if(!perm && !strstr(log_,"FALSE")) mc_fail("%s: aborted although no permanent failure was reported: %s",V[v].name,log_); mc_count("executions ending in abort",1); break; }
    if(perm) mc_fail("%s: returned although the source reported a permanent failure: %s",V[v].name,log_);
    if(ngiven<L) mc_fail("%s: returned with %zu of %zu bytes filled under: %s",V[v].name,ngiven,L,log_);
    if(ngiven==L){ for(size_t i=0;i<L;i++) if(buf[128+i]!=given[i]) mc_fail("%s: byte %zu of %zu is not the byte the source delivered (%02x for %02x) under: %s",V[v].name,i,L,buf[128+i],given[i],log_); }
    else { size_t j=0; for(size_t i=0;i<L;i++){ while(j<ngiven&&given[j]!=buf[128+i]) j++; if(j++>=ngiven) mc_fail("%s: byte %zu of %zu does not come from the source under: %s",V[v].name,i,L,log_); } }
  }
  if(diverged) mc_fail("%s: environment diverged while replaying a prefix",V[v].name);
  mc_state(mc_hash(log_,ll)^v); mc_trace(1);
}
static void dfs(int v,const size_t *len,int nl,int b){
  bound=b; npre=0; int stack[64]; (void)stack; long n=0;
  for(;;){ execute(v,len,nl); n++; int k=nch-1; /* advance to the next choice vector */
    int c[64],l[64]; int m=nch; memcpy(c,cho,sizeof c); memcpy(l,lim,sizeof l); while(m>0 && c[m-1]+1>=l[m-1]) m--; (void)k; if(m==0) break; memcpy(pre,c,sizeof c); pre[m-1]++; npre=m; }
  mc_count("executions",n); }
/* request-length vectors */
static const size_t LS[]={0,1,2,3,4,5,6,7,8,12,15,16,17,24,31,32,33,48,63,64,65,127,128,129,255,256,257,300,512,1024};
#define NLS 30
static const int E0[]={0,EINTR,EIO};
static void u_one(long u){ err0=E0[u%3]; u/=3; int v=u%nV; size_t L=LS[u/nV]; int b=L<=4?6:L<=8?4:3; fine=1; if(L>=48) b=2; if(L>300){ fine=0; b=3; } if(mc_thorough) b+=1; dfs(v,&L,1,b); if(L==2) mc_sample("%s L=2 last execution: %s",V[v].name,log_); }
static void u_seq(long u){ err0=E0[u%3]; u/=3; int v=u%nV; u/=nV; static const size_t A[]={0,1,3,32,64}; size_t l[3]={A[u%5],A[u/5%5],A[u/25%5]}; fine=0; dfs(v,l,3,mc_thorough?3:2); }
static const size_t BL[]={4096,65536,65537,1048575,1048576,1048577,2097152,2097157,3145729};
static void u_big(long u){ int v=u%nV; size_t L=BL[u/nV]; fine=0; dfs(v,&L,1,1); }
static const size_t HL[]={(1ull<<31)-1,(1ull<<31),(1ull<<31)+5,(1ull<<32)-1,1ull<<32,(1ull<<32)+7,(1ull<<32)+(1ull<<31)+1,(1ull<<33)+(1ull<<20)+3};
static void u_huge(long u){ int v=u%nV; u/=nV; size_t L=HL[u%8]; hcap=u/8==0?0x7ffff000L:u/8==1?33554431L:1048576L; size_t tot=(L+2*HW)/HW*HW; int fd=memfd_create("w",0); if(fd<0||ftruncate(fd,HW)){ mc_note("no memory file: huge requests skipped"); return; }
  uint8_t*m=mmap(NULL,tot,PROT_NONE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(m==MAP_FAILED){ mc_note("address space refused: huge requests skipped"); return; } for(size_t o=0;o<tot;o+=HW) if(mmap(m+o,HW,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_FIXED,fd,0)==MAP_FAILED){ mc_note("address space refused: huge requests skipped"); munmap(m,tot); close(fd); return; } close(fd);
  if(!HP){ HP=malloc(1048583); for(size_t i=0;i<1048583;i++) HP[i]=stream(i); }
  for(int i=0;i<V[v].sg.n;i++) memcpy(V[v].sg.s[i].p,V[v].save[i],V[v].sg.s[i].n);
  nch=npre=0; devs=0; bound=0; ll=0; perm=0; openfd=0; fd_now=-1; ended=0; ncalls=0; hb=m; hL=L; hdone=0; errno=0; int direct;
  if(!setjmp(out)) V[v].rb(m,L); hb=NULL; mc_trans(1);
  if(ended==4) mc_fail("%s: request of %zu bytes, answers of at most %ld: %s",V[v].name,L,hcap,hmsg); if(ended) mc_fail("%s: request of %zu bytes %s although the source always answers (progress %zu)",V[v].name,L,ended==2?"aborted":"did not end",hdone); if(hdone!=L) mc_fail("%s: request of %zu bytes returned with %zu filled",V[v].name,L,hdone);
  (void)direct; munmap(m,tot); mc_trace(1); mc_state(mc_hash2(u*16+v,0xc054)); }
static void u_run(long u){ int v=u%nV; u/=nV; static const long KS[]={70,100,127,128,129,150,199,200,201,255,256,257,299,300,301,500,511,512,513,999,1000,1001,1023,1024,1025,2048,4096,9999,10000,10001,32767,32768,65535,65536,65537,100001,1000001};
  static const size_t A[]={1,2,31,32,64,300}; fine=0; bound=0; npre=0; size_t L=A[u%6]; int m=u/6%3; int nk=u/18; for(int z=0;z<(nk?37:69);z++){ runk=nk?KS[z]:z+1; if(runk*L>3000000&&m==1) continue; runm=m; runi=openi=0; execute(v,&L,1); if(ended==2) mc_fail("%s: a request of %zu bytes aborted under a run of %ld %s although no permanent failure was reported",V[v].name,L,runk,m==2?"one-byte answers":"interruptions"); } runk=0; }
/* very many calls in one process: all answered in full / every first answer an interruption / split in two */
static void u_many(long u){ int v=u%nV; int m=u/nV; static uint8_t b[96]; for(int i=0;i<V[v].sg.n;i++) memcpy(V[v].sg.s[i].p,V[v].save[i],V[v].sg.s[i].n); perm=0; openfd=0; fd_now=-1; openi=0; nch=npre=0; bound=0; long N= mc_thorough?20000003:140003;
  for(long i=0;i<N;i++){ size_t L= m==2?i%65:32; nch=npre=devs=0; ll=0; log_[0]=0; ended=0; ncalls=0; ngiven=0; asked=L; errno=i%3==0?0:i%3==1?EINTR:EIO; memset(b,0xC3,96); runk= m==1?1:0; runm=0; runi=openi=0; if(!setjmp(out)) V[v].rb(b+8,L); mc_trans(1);
    if(ended) mc_fail("%s: call number %ld for %zu bytes %s although the source always answers",V[v].name,i+1,L,ended==2?"aborted":"did not end"); if(ngiven<L) mc_fail("%s: call number %ld returned with %zu of %zu bytes",V[v].name,i+1,ngiven,L); if(ngiven==L) for(size_t j=0;j<L;j++) if(b[8+j]!=given[j]) mc_fail("%s: call number %ld: byte %zu of %zu is not the one the source delivered",V[v].name,i+1,j,L); for(int j=0;j<8;j++) if(b[j]!=0xC3||b[8+L+j]!=0xC3) mc_fail("%s: call number %ld wrote outside the buffer",V[v].name,i+1); }
  runk=0; mc_trace(1); mc_state(mc_hash2(u,0xc055)); }
int main(int argc,char **argv){
  mc_init(argc,argv,"C05"); char spec[4096]; snprintf(spec,sizeof spec,"%s",mc_arg); /* name:kind:path,... */
  for(char *t=strtok(spec,",");t;t=strtok(NULL,",")){ char p[1024]; if(sscanf(t,"%47[^:]:%d:%1023s",V[nV].name,&V[nV].kind,p)!=3) return 2; void *h=dlopen(p,RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"%s\n",dlerror()); return 2; } *(void**)&V[nV].rb=dlsym(h,"randombytes"); if(!V[nV].rb) return 2; if(snap_segs(h,&V[nV].sg)) return 2; for(int i=0;i<V[nV].sg.n;i++){ V[nV].save[i]=malloc(V[nV].sg.s[i].n); memcpy(V[nV].save[i],V[nV].sg.s[i].p,V[nV].sg.s[i].n);} nV++; }
  mc_units("many-calls",u_many,nV*3); mc_units("huge",u_huge,nV*24); mc_units("run",u_run,nV*36); mc_units("big",u_big,nV*9); mc_units("sequence",u_seq,nV*375); mc_units("single",u_one,nV*NLS*3);
  return mc_run();
}
