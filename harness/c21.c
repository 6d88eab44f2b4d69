/* C21: the randomised API. */
#define _GNU_SOURCE
#include "libs.h"
#include "util.h"
#include <dlfcn.h>
#include <stdarg.h>
#include <errno.h>
#include <sys/syscall.h>
#include <unistd.h>
/* recorded draws */
static uint8_t DR[4096]; static size_t nd; static int ncall; static uint8_t SRC[4096]; static size_t want_chunk;
static void draw(uint8_t*o,size_t n){ if(nd+n>sizeof DR) mc_fail("unexpectedly many random bytes drawn"); memcpy(o,SRC+nd,n); memcpy(DR+nd,o,n); nd+=n; ncall++; }
static void src(int c,uint64_t t,size_t n){ for(size_t i=0;i<n;i++) SRC[i]= c==0?0:c==1?0xff:c==2?(uint8_t)i:c==3?0x55: c==4?(i<32?0:0xff): c==5?(i<32?0xff:0) : (uint8_t)mc_hash2(t*64+c,i); }
static void kp(kyber*k,const uint8_t coins[64],const char*w){ uint8_t pk[1568],sk[3168],p2[1568],s2[3168]; memset(pk,0x11,sizeof pk); memset(sk,0x22,sizeof sk); memset(p2,0x33,sizeof p2); memset(s2,0x44,sizeof s2); nd=0; ncall=0; memcpy(SRC,coins,64); int r=k->keypair(pk,sk); if(r) mc_fail("%s keypair returns %d (%s)",k->name,r,w); if(nd!=64) mc_fail("%s keypair draws %zu random bytes instead of 64 (%s)",k->name,nd,w); size_t n0=nd; k->keypair_derand(p2,s2,coins); if(nd!=n0) mc_fail("%s keypair_derand draws random bytes",k->name); cmpb("randomised key pair: public key (against keypair_derand)",k,pk,p2,k->pkb,w); cmpb("randomised key pair: secret key (against keypair_derand)",k,sk,s2,k->skb,w); spec_keypair(k->K,coins,p2,s2); cmpb("randomised key pair: public key",k,pk,p2,k->pkb,w); cmpb("randomised key pair: secret key",k,sk,s2,k->skb,w); mc_trans(2); }
static void en(kyber*k,const uint8_t*pkey,const uint8_t coins[32],const char*w){ uint8_t ct[1568],ss[32],c2[1568],s2[32]; memset(ct,0x11,sizeof ct); memset(ss,0x22,32); memset(c2,0x33,sizeof c2); nd=0; ncall=0; memcpy(SRC,coins,32); int r=k->enc(ct,ss,pkey); if(r) mc_fail("%s enc returns %d (%s)",k->name,r,w); if(nd!=32) mc_fail("%s enc draws %zu random bytes instead of 32 (%s)",k->name,nd,w); k->enc_derand(c2,s2,pkey,coins); if(nd!=32) mc_fail("%s enc_derand draws random bytes",k->name); cmpb("randomised encapsulation: ciphertext (against enc_derand)",k,ct,c2,k->ctb,w); cmpb("randomised encapsulation: secret (against enc_derand)",k,ss,s2,32,w); spec_enc(k->K,pkey,coins,c2,s2); cmpb("randomised encapsulation: ciphertext",k,ct,c2,k->ctb,w); cmpb("randomised encapsulation: secret",k,ss,s2,32,w); mc_trans(2); }
static char W[200];
#define WHY(...) (snprintf(W,sizeof W,__VA_ARGS__),W)
static void u_cont(long u){ kyber*k=&KY[u%6]; int c=u/6; rnd_hook=draw; kset h; honest(k->K,c,&h); uint8_t b[64]; src(c,u,64); memcpy(b,SRC,64); kp(k,b,WHY("content %d",c)); en(k,h.pk,b,WHY("content %d",c)); uint8_t pk[1568]; for(int f=0;f<4;f++){ memset(pk,f==0?0:f==1?0xff:f==2?0x5a:0,sizeof pk); if(f==3) mc_fill(pk,sizeof pk,u); en(k,pk,b,WHY("content %d, public key family %d",c,f)); } rnd_hook=NULL; mc_trace(1); mc_state(mc_hash2(u,0xc211)); }
/* every bit of the drawn bytes */
static void u_bit(long u){ kyber*k=&KY[u%6]; int bit=u/6; rnd_hook=draw; uint8_t b[64],pk[1568],sk[3168],p2[1568],s2[3168]; for(int base=0;base<3;base++){ if(base<2) memset(b,base?0xff:0,64); else mc_fill(b,64,77); nd=0; memcpy(SRC,b,64); k->keypair(pk,sk); b[bit>>3]^=1<<(bit&7); nd=0; memcpy(SRC,b,64); k->keypair(p2,s2); if(!memcmp(sk,s2,k->skb)) mc_fail("%s keypair ignores random bit %d",k->name,bit); kp(k,b,WHY("bit %d flipped",bit)); if(bit<256){ uint8_t c1[1568],q1[32],c2[1568],q2[32]; kset h; honest(k->K,base,&h); nd=0; memcpy(SRC,b,32); k->enc(c1,q1,h.pk); b[bit>>3]^=1<<(bit&7); nd=0; memcpy(SRC,b,32); k->enc(c2,q2,h.pk); if(!memcmp(c1,c2,k->ctb)||!memcmp(q1,q2,32)) mc_fail("%s enc ignores random bit %d",k->name,bit); en(k,h.pk,b,WHY("bit %d",bit)); } mc_trans(4); } rnd_hook=NULL; mc_trace(1); mc_state(mc_hash2(u,0xc212)); }
/* all sequences of randomised and deterministic calls up to a depth: the stream is consumed in order, every call sees fresh bytes */
static void u_seq(long u){ kyber*k=&KY[u%6]; int D=mc_thorough?6:5; long code=u/6; long q=code; rnd_hook=draw; kset h; honest(k->K,5,&h); uint8_t stream[6*64]; mc_fill(stream,sizeof stream,31+(code&1)); memcpy(SRC,stream,sizeof stream); nd=0; size_t at=0; uint8_t pk[1568],sk[3168],ct[1568],ss[32],p2[1568],s2[3168],c2[1568],z2[32]; uint8_t cpk[1568],csk[3168],cct[1568]; memcpy(cpk,h.pk,1568); memcpy(csk,h.sk,3168); memcpy(cct,h.ct,1568);
  for(int d=0;d<D;d++,q/=5){ int op=q%5; switch(op){ case 0: k->keypair(pk,sk); if(nd!=at+64) mc_fail("%s call %d of sequence %ld: keypair drew %zu bytes",k->name,d,code,nd-at); spec_keypair(k->K,stream+at,p2,s2); at+=64; cmpb("key pair in a call sequence: public key",k,pk,p2,k->pkb,WHY("call %d of sequence %ld",d,code)); cmpb("key pair in a call sequence: secret key",k,sk,s2,k->skb,WHY("call %d of sequence %ld",d,code)); memcpy(cpk,pk,1568); memcpy(csk,sk,3168); break;
    case 1: k->enc(ct,ss,cpk); if(nd!=at+32) mc_fail("%s call %d of sequence %ld: enc drew %zu bytes",k->name,d,code,nd-at); spec_enc(k->K,cpk,stream+at,c2,z2); at+=32; cmpb("encapsulation in a call sequence: ciphertext",k,ct,c2,k->ctb,WHY("call %d of sequence %ld",d,code)); cmpb("encapsulation in a call sequence: secret",k,ss,z2,32,WHY("call %d of sequence %ld",d,code)); memcpy(cct,ct,1568); break;
    case 2: k->dec(ss,cct,csk); if(nd!=at) mc_fail("%s dec draws random bytes",k->name); spec_dec(k->K,csk,cct,z2); cmpb("decapsulation in a call sequence",k,ss,z2,32,WHY("call %d of sequence %ld",d,code)); break;
    case 3: k->enc_derand(ct,ss,cpk,stream); if(nd!=at) mc_fail("%s enc_derand draws random bytes",k->name); spec_enc(k->K,cpk,stream,c2,z2); cmpb("deterministic encapsulation in a call sequence",k,ct,c2,k->ctb,WHY("call %d of sequence %ld",d,code)); break;
    default: k->keypair_derand(pk,sk,stream); if(nd!=at) mc_fail("%s keypair_derand draws random bytes",k->name); spec_keypair(k->K,stream,p2,s2); cmpb("deterministic key pair in a call sequence",k,sk,s2,k->skb,WHY("call %d of sequence %ld",d,code)); } mc_trans(1); } rnd_hook=NULL; mc_trace(1); mc_state(mc_hash2(u,0xc213)); }
/* the same through the tree's own random-byte routine on an interposed kernel: consumption of the OS stream is consecutive, short answers included */
static uint8_t OS[8192]; static size_t ospos; static int plan[64],npl,ip,osact;
static long os_answer(void*p,size_t n){ int a= ip<npl?plan[ip++]:0; if(a<0){ errno=EINTR; return -1; } size_t m= a>0&&(size_t)a<n?(size_t)a:n; if(ospos+m>sizeof OS) mc_fail("operating system asked for too many bytes"); memcpy(p,OS+ospos,m); ospos+=m; return (long)m; }
long syscall(long nr,...){ va_list ap; va_start(ap,nr); long a=va_arg(ap,long),b=va_arg(ap,long),c=va_arg(ap,long); va_end(ap); if(osact&&nr==SYS_getrandom) return os_answer((void*)a,(size_t)b); long r; __asm__ volatile("syscall":"=a"(r):"a"(nr),"D"(a),"S"(b),"d"(c):"rcx","r11","memory"); if(r<0){ errno=-r; return -1; } return r; }
ssize_t getrandom(void*p,size_t n,unsigned f){ if(osact) return os_answer(p,n); return syscall(SYS_getrandom,p,n,f); }
static void (*tree_rnd)(uint8_t*,size_t);
static void u_os(long u){ kyber*k=&KY[u%6]; long c=u/6; char b[600]; snprintf(b,600,"%s/librnd-%s.so",mc_arg,k->impl); void*h=dlopen(b,RTLD_NOW|RTLD_LOCAL); (void)h; if(!h){ mc_note("%s",dlerror()); return; } tree_rnd=dlsym(h,"randombytes"); if(!tree_rnd){ mc_note("randombytes not found"); return; } rnd_hook=tree_rnd; static const int AL[]={0,1,-1,31,63}; for(int r=0;r<4;r++){ mc_fill(OS,sizeof OS,c*4+r); ospos=0; ip=0; npl=6; long q=c; for(int i=0;i<6;i++){ plan[i]=AL[q%5]; q/=5; } npl=5; osact=1; uint8_t pk[1568],sk[3168],p2[1568],s2[3168],ct[1568],ss[32],c2[1568],z2[32]; k->keypair(pk,sk); size_t p1=ospos; k->enc(ct,ss,pk); size_t e1=ospos; k->keypair(p2,s2); osact=0; if(ospos==0){ mc_note("the random-byte routine does not ask getrandom here: section skipped"); break; } if(p1!=64||e1!=96||ospos!=160) mc_fail("%s keypair, enc, keypair consumed %zu, %zu, %zu bytes of the operating system's stream",k->name,p1,e1-p1,ospos-e1); uint8_t x[1568],y[3168]; spec_keypair(k->K,OS,x,y); cmpb("key pair from the operating system's stream",k,sk,y,k->skb,"first"); spec_enc(k->K,pk,OS+64,c2,z2); cmpb("encapsulation from the operating system's stream",k,ct,c2,k->ctb,"second"); spec_keypair(k->K,OS+96,x,y); cmpb("second key pair from the operating system's stream",k,s2,y,k->skb,"third"); mc_trans(3); } rnd_hook=NULL; mc_trace(1); mc_state(mc_hash2(u,0xc214)); }
int main(int argc,char **argv){ mc_init(argc,argv,"C21"); if(libs_load()) return 2; long ns=1; for(int i=0;i<(mc_thorough?6:5);i++) ns*=5;
  mc_units("contents",u_cont,6*64); mc_units("bits",u_bit,6*512); mc_units("sequences",u_seq,6*ns); mc_units("os-stream",u_os,6*(mc_thorough?3125:250));
  return mc_run(); }
