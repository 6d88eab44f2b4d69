/* C13: comparison and conditional copy. */
#include "libs.h"
#include "util.h"
#include <sys/mman.h>
#include <unistd.h>
static uint8_t A[8192] __attribute__((aligned(4096))),B[8192] __attribute__((aligned(4096)));
#define LMAX 1700
static void v(kyber*k,const uint8_t*a,const uint8_t*b,size_t n,int want,const char *what,long p,long q){ int r=k->verify(a,b,n); if(r!=want) mc_fail("%s verify returns %d instead of %d for length %zu: %s (positions %ld, %ld)",k->name,r,want,n,what,p,q); }
static void bg(int f,uint8_t*a,uint8_t*b,size_t n){ for(size_t i=0;i<n+64;i++) a[i]=b[i]= f==0?0: f==1?0xff: f==2?(uint8_t)(i*37+(i>>7)): (uint8_t)mc_hash2(77,i); }
/* every length, every position; bytes behind the length differ */
static void u_len(long u){ int im=u%6; kyber*k=&KY[im]; if(!k->verify){ mc_note("%s verify not exported",k->name); return; } size_t n0=(u/6)*4; for(size_t n=n0;n<n0+4&&n<=LMAX;n++) for(int al=0;al<3;al++){ uint8_t *a=A+(al==0?0:al==1?1:33),*b=B+(al==0?0:al==1?16:7); bg(al+1,a,b,n); for(int j=0;j<64;j++) b[n+j]=~a[n+j]; v(k,a,b,n,0,"equal (bytes behind the end differ)",-1,-1); for(int j=0;j<48&&a-1-j>=A&&b-1-j>=B;j++) b[-1-j]=~a[-1-j]; v(k,a,b,n,0,"equal (bytes before the start differ)",-1,-1);
      for(size_t p=0;p<n;p++){ uint8_t o=b[p]; uint8_t d= al==0?(uint8_t)(1<<(p&7)):al==1?(uint8_t)(1<<((p*5+n)&7)):0xff; b[p]=o^d; v(k,a,b,n,1,"single difference",p,-1); b[p]=o; mc_trans(1); }
      /* differences in every byte; in a prefix; in a suffix */
      for(size_t p=0;p<n;p++) b[p]^=1; if(n) v(k,a,b,n,1,"all bytes differ by 1",0,n-1); for(size_t p=0;p<n;p++) b[p]^=0x81; if(n) v(k,a,b,n,1,"all bytes differ by 0x80",0,n-1); for(size_t p=0;p<n;p++) b[p]^=0x7f; if(n) v(k,a,b,n,1,"all bytes differ by 0xff",0,n-1); mc_trans(5); mc_state(mc_hash2(n*8+al,im)); } mc_trace(1); }
/* every byte value pair at every position of each parameter set's ciphertext length */
static void u_val(long u){ int im=u%6; kyber*k=&KY[im]; if(!k->verify) return; size_t n=k->ctb; long p=u/6; if(p>=(long)n) return; for(int f=0;f<4;f++){ bg(f,A,B,n); uint8_t o=A[p]; for(int d=0;d<256;d++){ B[p]=o^d; v(k,A,B,n,d!=0,"byte difference",p,d); if(d){ v(k,B,A,n,1,"byte difference (arguments swapped)",p,d); } mc_trans(2); } B[p]=o; } mc_trace(1); mc_state(mc_hash2(u,0xc131)); }
/* every pair of positions with equal, opposite and complementary differences */
static void u_pair(long u){ int im=u%6; kyber*k=&KY[im]; if(!k->verify) return; size_t n=mc_thorough?k->ctb:k->ctb; size_t p=u/6; if(p>=n) return; bg(3,A,B,n); static const uint8_t D[][2]={{1,1},{0x80,0x80},{0xff,0xff},{0x55,0xaa},{0xff,1},{0x10,0x10}}; int nd=mc_thorough?6:2; for(int d=0;d<nd;d++){ int e=mc_thorough?d:(d*2+(int)(p%2)); uint8_t o=B[p]; B[p]=o^D[e][0]; for(size_t q=p+1;q<n;q++){ uint8_t o2=B[q]; B[q]=o2^D[e][1]; int r=k->verify(A,B,n); B[q]=o2; if(r!=1) mc_fail("%s verify returns %d for two differences %02x,%02x at %zu and %zu of %zu",k->name,r,D[e][0],D[e][1],p,q,n); } B[p]=A[p]+1; if(p+1<n){ /* arithmetic cancellation */ for(size_t q=p+1;q<n;q+=1+(q-p)/8){ uint8_t o2=B[q]; B[q]=o2-1; v(k,A,B,n,1,"+1/-1 differences",p,q); B[q]=o2; } } B[p]=o; mc_trans(n-p); } mc_trace(1); mc_state(mc_hash2(u,0xc132)); }
/* number of differences: every count up to the length, three placements; and difference patterns with period 1..64 */
static void u_cnt(long u){ int im=u%6; kyber*k=&KY[im]; if(!k->verify) return; size_t c=u/6; for(int w=0;w<4;w++){ size_t n= w==3?LMAX:k->ctb; if(c>n||c==0) continue; bg(w,A,B,n); if(w==0) for(size_t i=0;i<c;i++) B[i]^=1; else if(w==1) for(size_t i=0;i<c;i++) B[n-1-i]^=0x80; else if(w==2) for(size_t i=0;i<c;i++) B[i*n/c]^=(uint8_t)(1<<(i&7)); else for(size_t i=0;i<c;i++) B[i]^=0xff; v(k,A,B,n,1,"number of differing bytes",c,w); mc_trans(1); }
  if(c>=1&&c<=128){ size_t n=k->ctb; for(int len=2;len<=9;len++) for(size_t s=0;s<c&&s<64;s++) for(int d=0;d<2;d++){ bg(2,A,B,n); int m=0; for(size_t i=s;i<n&&m<len;i+=c,m++) B[i]^= d?0xff:1; v(k,A,B,n,1,"periodic differences",c,s); mc_trans(1); } } mc_trace(1); mc_state(mc_hash2(u,0xc133)); }
/* conditional copy */
static void u_cmov(long u){ int im=u%6; kyber*k=&KY[im]; if(!k->cmov){ mc_note("%s cmov not exported",k->name); return; } size_t n=u/6; static uint8_t r[LMAX+256],x[LMAX+256],w[LMAX+256],xs[LMAX+256]; for(int al=0;al<(n<200?16:3);al++) for(int f=0;f<3;f++) for(int b=0;b<2;b++){ for(size_t i=0;i<sizeof r;i++){ r[i]= f==0?0xff:(uint8_t)mc_hash2(3,i); x[i]= f==0?0:f==1?(uint8_t)~r[i]:(uint8_t)mc_hash2(4,i); } memcpy(w,r,sizeof r); memcpy(xs,x,sizeof x); size_t ro=64+al,xo=64+(al*5+1)%16; if(b) memcpy(w+ro,x+xo,n); k->cmov(r+ro,x+xo,n,b); if(memcmp(r,w,sizeof r)) mc_fail("%s cmov(length %zu, flag %d) wrong at byte %ld of the destination (alignments %zu/%zu)",k->name,n,b,first_diff(r,w,sizeof r)-(long)ro,ro%32,xo%32); if(memcmp(x,xs,sizeof x)) mc_fail("%s cmov writes to its source",k->name); /* onto itself */ k->cmov(r+ro,r+ro,n,b); if(memcmp(r,w,sizeof r)) mc_fail("%s cmov onto itself (length %zu flag %d) changes it",k->name,n,b); mc_trans(2); } mc_trace(1); mc_state(mc_hash2(u,0xc134)); }
/* all byte values through cmov */
static void u_cmv(long u){ int im=u%6; kyber*k=&KY[im]; if(!k->cmov) return; int a=u/6; for(int b=0;b<256;b++) for(int f=0;f<2;f++){ uint8_t r[66],x[66]; memset(r,a,66); memset(x,b,66); k->cmov(r+1,x+1,64,f); for(int i=0;i<66;i++) if(r[i]!=(f&&i>=1&&i<65?b:a)) mc_fail("%s cmov of %02x over %02x with flag %d gives %02x at %d",k->name,b,a,f,r[i],i-1); mc_trans(1); } mc_trace(1); mc_state(mc_hash2(u,0xc135)); }
static void u_c16(long u){ int im=u%6; kyber*k=&KY[im]; if(!k->cmov_int16){ mc_note("%s cmov_int16 not exported",k->name); return; } int hi=u/6; static const int V[]={0,1,-1,1664,1665,3328,-32768,32767,0x5555,-0x5556}; for(int lo=0;lo<256;lo++) for(int z=0;z<10;z++) for(int b=0;b<2;b++) for(int sw=0;sw<2;sw++){ int16_t q[3]={7,0,9}; int16_t a=(int16_t)(hi<<8|lo),c=(int16_t)V[z]; if(sw){ int16_t t=a; a=c; c=t; } q[1]=a; k->cmov_int16(&q[1],c,b); if(q[1]!=(b?c:a)||q[0]!=7||q[2]!=9) mc_fail("%s cmov_int16(%d <- %d, flag %d) gives %d",k->name,a,c,b,q[1]); mc_trans(1); } mc_trace(1); mc_state(mc_hash2(u,0xc136)); }
/* lengths beyond 2^16 and 2^32 */
static void u_big(long u){ mc_limit(90); kyber*k=&KY[u%6]; if(!k->verify) return; int w=u/6; size_t n= w==0?(1u<<16)+5: w==1? (1u<<24)+77 : (1ull<<32)+100; uint8_t*a=mmap(0,n+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0),*b=mmap(0,n+8192,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0); if(a==MAP_FAILED||b==MAP_FAILED){ mc_note("big mapping refused"); return; } madvise(a,n,MADV_NOHUGEPAGE); madvise(b,n,MADV_NOHUGEPAGE); size_t P[]={n-1,n-70,65535<n?65535:0,65536<n?65536:0,0}; for(int i=0;i<(w==2?2:5);i++){ b[P[i]]=1; int r=k->verify(a,b,n); b[P[i]]=0; if(r!=1) mc_fail("%s verify misses a difference at %zu of %zu",k->name,P[i],n); mc_trans(1); } b[n]=1; if(w<2) v(k,a,b,n,0,"equal",-1,-1); munmap(a,n+8192); munmap(b,n+8192); mc_trace(1); mc_count("lengths beyond 2^16",1); }
int main(int argc,char **argv){ mc_init(argc,argv,"C13"); if(libs_load()) return 2;
  mc_units("big",u_big,6*3); mc_units("lengths",u_len,6*((LMAX+3)/4));
  mc_units("byte-values",u_val,6*1568); mc_units("position-pairs",u_pair,6*1568); mc_units("difference-counts",u_cnt,6*1700); mc_units("cmov",u_cmov,6*(LMAX+1)); mc_units("cmov-values",u_cmv,6*256); mc_units("cmov16",u_c16,6*256);
  return mc_run(); }
