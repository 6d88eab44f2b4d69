/* C17 (dynamic part): every explored load configuration of the nine built
 * libraries, in the global scope, in a process of its own. */
#define _GNU_SOURCE
#include "mc.h"
#include "spec.h"
#include <dlfcn.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#define NL 9
static char path[NL][1024]; static const char *nm[NL]={"kyber512_ref","kyber768_ref","kyber1024_ref","kyber512_avx2","kyber768_avx2","kyber1024_avx2","fips202_ref (ref)","fips202_ref (avx2)","fips202x4_avx2"};
enum { FR=6,FA=7,X4=8 };
void randombytes(uint8_t*o,size_t n); static const uint8_t *rsrc; void randombytes(uint8_t*o,size_t n){ memcpy(o,rsrc,n); rsrc+=n; }
static struct { uint8_t co[64],pk[1568],sk[3168],m[32],ct[1568],ss[32],bad[1568],ssr[32]; } V[5]; static uint8_t MSG[800],h1[32],h2[64],h3[500],h4[500],hx[8][500];
static void expect(void){ for(int K=2;K<=4;K++){ mc_fill(V[K].co,64,K); mc_fill(V[K].m,32,K+10); spec_keypair(K,V[K].co,V[K].pk,V[K].sk); spec_enc(K,V[K].pk,V[K].m,V[K].ct,V[K].ss); memcpy(V[K].bad,V[K].ct,1568); V[K].bad[17]^=4; spec_dec(K,V[K].sk,V[K].bad,V[K].ssr); }
  mc_fill(MSG,800,77); spec_sha3_256(h1,MSG,300); spec_sha3_512(h2,MSG,150); spec_shake128(h3,500,MSG,400); spec_shake256(h4,500,MSG,137); for(int i=0;i<4;i++){ spec_shake128(hx[i],500,MSG+i,200); spec_shake256(hx[4+i],500,MSG+7*i,200); } }
static char err[900]; static void *H[NL];
#define BAD(...) do{ snprintf(err,sizeof err,__VA_ARGS__); return 1; }while(0)
static int kem(int l){ int K=l%3+2,n=K==2?512:K==3?768:1024; const char*im=l<3?"ref":"avx2"; size_t pb=spec_pkbytes(K),sb=spec_skbytes(K),cb=spec_ctbytes(K); static uint8_t pk[1600],sk[3200],ct[1600],ss[40]; char b[128]; void*f; int r;
#define SYM(x) do{ snprintf(b,128,"pqcrystals_kyber%d_%s_%s",n,im,x); f=dlsym(RTLD_DEFAULT,b); if(!f) f=dlsym(H[l],b); if(!f) BAD("%s not found",b); if(dlsym(H[l],b)!=f) BAD("%s resolves to another library",b); memset(pk,0x11,sizeof pk); memset(sk,0x11,sizeof sk); memset(ct,0x11,sizeof ct); memset(ss,0x11,sizeof ss); }while(0)
  SYM("keypair_derand"); r=((int(*)(uint8_t*,uint8_t*,const uint8_t*))f)(pk,sk,V[K].co); if(r||memcmp(pk,V[K].pk,pb)||memcmp(sk,V[K].sk,sb)||pk[pb]!=0x11||sk[sb]!=0x11) BAD("%s gives a wrong result",b);
  SYM("enc_derand"); r=((int(*)(uint8_t*,uint8_t*,const uint8_t*,const uint8_t*))f)(ct,ss,V[K].pk,V[K].m); if(r||memcmp(ct,V[K].ct,cb)||memcmp(ss,V[K].ss,32)||ct[cb]!=0x11) BAD("%s gives a wrong result",b);
  SYM("dec"); r=((int(*)(uint8_t*,const uint8_t*,const uint8_t*))f)(ss,V[K].ct,V[K].sk); if(r||memcmp(ss,V[K].ss,32)) BAD("%s gives a wrong result",b);
  SYM("dec"); r=((int(*)(uint8_t*,const uint8_t*,const uint8_t*))f)(ss,V[K].bad,V[K].sk); if(r||memcmp(ss,V[K].ssr,32)) BAD("%s (rejecting) gives a wrong result",b);
  SYM("keypair"); rsrc=V[K].co; r=((int(*)(uint8_t*,uint8_t*))f)(pk,sk); if(r||memcmp(pk,V[K].pk,pb)||memcmp(sk,V[K].sk,sb)) BAD("%s gives a wrong result",b);
  SYM("enc"); rsrc=V[K].m; r=((int(*)(uint8_t*,uint8_t*,const uint8_t*))f)(ct,ss,V[K].pk); if(r||memcmp(ct,V[K].ct,cb)||memcmp(ss,V[K].ss,32)) BAD("%s gives a wrong result",b);
  return 0; }
static int hash(int l){ char b[128]; void*f; static uint8_t o[4][512]; const char*im=l==FR?"ref":"avx2";
#define HS(x) do{ snprintf(b,128,l==X4?"pqcrystals_kyber_fips202x4_avx2_%s":"pqcrystals_kyber_fips202_%s_%s",l==X4?x:im,x); f=dlsym(RTLD_DEFAULT,b); if(!f) BAD("%s not found",b); if(dlsym(H[l],b)!=f) BAD("%s resolves to another library",b); }while(0)
  if(l!=X4){ HS("sha3_256"); ((void(*)(uint8_t*,const uint8_t*,size_t))f)(o[0],MSG,300); if(memcmp(o[0],h1,32)) BAD("%s gives a wrong result",b); HS("sha3_512"); ((void(*)(uint8_t*,const uint8_t*,size_t))f)(o[0],MSG,150); if(memcmp(o[0],h2,64)) BAD("%s gives a wrong result",b);
    HS("shake128"); ((void(*)(uint8_t*,size_t,const uint8_t*,size_t))f)(o[0],500,MSG,400); if(memcmp(o[0],h3,500)) BAD("%s gives a wrong result",b); HS("shake256"); ((void(*)(uint8_t*,size_t,const uint8_t*,size_t))f)(o[0],500,MSG,137); if(memcmp(o[0],h4,500)) BAD("%s gives a wrong result",b); return 0; }
  typedef void (*X)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t);
  HS("shake128x4"); ((X)f)(o[0],o[1],o[2],o[3],500,MSG,MSG+1,MSG+2,MSG+3,200); for(int i=0;i<4;i++) if(memcmp(o[i],hx[i],500)) BAD("%s gives a wrong result",b);
  HS("shake256x4"); ((X)f)(o[0],o[1],o[2],o[3],500,MSG,MSG+7,MSG+14,MSG+21,200); for(int i=0;i<4;i++) if(memcmp(o[i],hx[4+i],500)) BAD("%s gives a wrong result",b); return 0; }
static int use(int l){ return l<6?kem(l):hash(l); }
/* load the libraries of ord[0..n) in that order, then exercise them all (in use order uo); close one and exercise the others */
static int config(const int*ord,int n,int flag,int rev,int closed,int reload){ for(int i=0;i<n;i++){ H[ord[i]]=dlopen(path[ord[i]],flag|RTLD_GLOBAL); if(!H[ord[i]]) BAD("%s does not load: %.600s",nm[ord[i]],dlerror()); }
  for(int p=0;p<2;p++) for(int i=0;i<n;i++) if(use(ord[(p^rev)?n-1-i:i])) return 1;
  if(closed>=0){ dlclose(H[closed]); for(int i=0;i<n;i++) if(ord[i]!=closed&&use(ord[i])) return 1; if(reload){ H[closed]=dlopen(path[closed],flag|RTLD_GLOBAL); if(!H[closed]) BAD("%s does not load again",nm[closed]); for(int i=0;i<n;i++) if(use(ord[i])) return 1; } } return 0; }
static const char *ordstr(const int*o,int n){ static char b[400]; b[0]=0; for(int i=0;i<n;i++) snprintf(b+strlen(b),400-strlen(b),"%s%s",i?", ":"",nm[o[i]]); return b; }
static void child(const int*ord,int n,int flag,int rev,int closed,int reload){ int p[2]; if(pipe(p)) mc_fail("pipe"); fflush(stdout); pid_t c=fork(); if(!c){ close(p[0]); alarm(60); err[0]=0; int r=config(ord,n,flag,rev,closed,reload); if(r){ ssize_t w=write(p[1],err,strlen(err)); (void)w; } _exit(r?7:0); }
  close(p[1]); char b[900]; ssize_t k=0,g; while((g=read(p[0],b+k,sizeof b-1-k))>0) k+=g; b[k>0?k:0]=0; close(p[0]); int st; waitpid(c,&st,0); uint64_t h=flag+rev*8+(closed+1)*64+reload*1024; for(int i=0;i<n;i++) h=mc_hash2(h,ord[i]); mc_state(h); mc_trace(1); mc_trans(n*2); mc_count("load configurations executed",1);
  if(st) mc_fail("loading %s with %s binding%s%s%s: %s",ordstr(ord,n),flag==RTLD_NOW?"immediate":"lazy",closed>=0?", then closing ":"",closed>=0?nm[closed]:"",reload?" and loading it again":"",k?b:WIFSIGNALED(st)?strsignal(WTERMSIG(st)):"failed"); }
static void perm(long x,int n,int*o){ int a[NL]; for(int i=0;i<n;i++) a[i]=i; for(int i=0;i<n;i++){ int r=x%(n-i); x/=n-i; o[i]=a[r]; memmove(a+r,a+r+1,(n-i-r-1)*sizeof(int)); } }
/* all orders of the six KEM libraries, hash libraries first / last (lazy) / interleaved */
static void u_kem(long u){ long x=u/3; int m=u%3,k[6],h[3],o[9]; perm(x,6,k); perm(x%6,3,h); for(int i=0;i<3;i++) h[i]+=6; int n=0; if(m==0) for(int i=0;i<3;i++) o[n++]=h[i]; for(int i=0;i<6;i++){ o[n++]=k[i]; if(m==2&&i%2==0) o[n++]=h[i/2]; } if(m==1) for(int i=0;i<3;i++) o[n++]=h[i]; child(o,9,m?RTLD_LAZY:RTLD_NOW,x&1,-1,0); }
/* all 9! orders */
static void u_all(long u){ for(long i=0;i<72;i++){ int o[9]; perm(u*72+i,9,o); child(o,9,RTLD_LAZY,i&1,-1,0); } }
/* every subset, with exactly the hash libraries of its implementations, immediate binding */
static void u_sub(long u){ int m=u%64,o[9],n=0; int hv=u/64; if(!m) return; int h[3],nh=0; if(m&7) h[nh++]=FR; if(m>>3){ h[nh++]=FA; h[nh++]=X4; } if(hv>=nh) return; for(int i=0;i<nh;i++) o[n++]=h[(i+hv)%nh]; for(int i=0;i<6;i++) if(m>>i&1) o[n++]=i; child(o,n,RTLD_NOW,0,-1,0); }
/* close one KEM library, optionally load it again */
static void u_close(long u){ int cl=u%6,re=u/6%2; long x=(u/12)*119; int k[6],o[9]; perm(x,6,k); o[0]=FR; o[1]=FA; o[2]=X4; memcpy(o+3,k,sizeof k); child(o,9,u&1?RTLD_NOW:RTLD_LAZY,0,cl,re); }
int main(int argc,char**argv){ mc_init(argc,argv,"C17"); if(spec_selftest()) return 2; mc_set_timeout(300); expect();
  for(int i=0;i<6;i++) snprintf(path[i],1024,"%s/%slibpqcrystals_%s.so",mc_libdir,i<3?"ref/lib/":"avx2/",nm[i]); snprintf(path[FR],1024,"%s/ref/lib/libpqcrystals_fips202_ref.so",mc_libdir); snprintf(path[FA],1024,"%s/avx2/libpqcrystals_fips202_ref.so",mc_libdir); snprintf(path[X4],1024,"%s/avx2/libpqcrystals_fips202x4_avx2.so",mc_libdir);
  mc_units("subsets",u_sub,64*3); mc_units("close-and-reload",u_close,12*6); mc_units("orders of the KEM libraries",u_kem,720*3); if(mc_thorough) mc_units("all 9! orders",u_all,5040); return mc_run(); }
