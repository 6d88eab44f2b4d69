/* C02: every altered ciphertext decapsulates to SHAKE256(z || ct)[0..32). */
#include "util.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
/* fast path: expected rejection value; on mismatch consult the full model
 * (a changed ciphertext could in principle still be a valid one) */
static void rej(kyber *k,const uint8_t *sk,const uint8_t *ct,const char *fmt,long a,long b,long c){
  uint8_t ss[32],w[32]; memset(ss,0xEE,32); int r=k->dec(ss,ct,sk); mc_trans(1);
  if(r!=0){ snprintf(C,sizeof C,fmt,a,b,c); mc_fail("%s dec returned %d for a modified ciphertext: %s",k->name,r,C); }
  spec_reject(k->K,sk,ct,w);
  if(memcmp(ss,w,32)){ uint8_t f[32]; spec_dec(k->K,sk,ct,f); snprintf(C,sizeof C,fmt,a,b,c); if(memcmp(ss,f,32)) mc_fail("%s: modified ciphertext (%s) decapsulates to %s, must be the rejection value %s; ct=%s",k->name,C,mc_hexs(ss,32),mc_hexs(f,32),mc_hexs(ct,k->ctb)); }
  mc_trace(1);
}
static kset HS[3][4]; static uint8_t HT[3][4];
static kset *hon(int K,int t){ if(!HT[K-2][t]){ honest(K,100+t,&HS[K-2][t]); HT[K-2][t]=1; } return &HS[K-2][t]; }
static void acc(kyber *k,kset *s){ uint8_t ss[32]; int r=k->dec(ss,s->ct,s->sk); EQ(r==0&&!memcmp(ss,s->ss,32),"%s: honest ciphertext not accepted (returned %d)",k->name,r); mc_trans(1); mc_trace(1); }

/* every byte x deltas */
static const uint8_t D1[]={1,2,4,8,16,32,64,128,0xff,0x81,0x55,0xaa,3,0x18,0xc0,0x7f};
static void u_byte(long u){ kyber *k=&KY[u%6]; long p=u/6; if(p>=(long)k->ctb) return; kset *s=hon(k->K,0); uint8_t ct[1568]; memcpy(ct,s->ct,k->ctb);
  int n=mc_thorough?255:16; for(int i=0;i<n;i++){ uint8_t d=mc_thorough?i+1:D1[i]; ct[p]=s->ct[p]^d; rej(k,s->sk,ct,"byte %ld ^= %02lx",p,d,0); if(mc_thorough||i<9) mc_state(mc_hash2(p*256+d,k->K*2+k->avx)); } ct[p]=s->ct[p];
  /* other base ciphertexts: all single bits */
  for(int t=1;t<(mc_thorough?4:2);t++){ s=hon(k->K,t); memcpy(ct,s->ct,k->ctb); for(int b=0;b<8;b++){ ct[p]=s->ct[p]^(1<<b); rej(k,s->sk,ct,"base %ld bit %ld of byte %ld",t,b,p); } ct[p]=s->ct[p]; }
  acc(k,hon(k->K,0)); if(p==0) mc_sample("%s byte 0 ^= 01 -> rejection value, honest ciphertext still accepted",k->name); }
/* all pairs i<j with the same XOR difference (and, in a second variant, +d / -d) */
static void u_pair(long u){ kyber *k=&KY[u%6]; long i=u/6; if(i>=(long)k->ctb-1) return; kset *s=hon(k->K,2); uint8_t ct[1568]; memcpy(ct,s->ct,k->ctb);
  int full = mc_thorough || k->K==2 || k->avx;
  for(long j=i+1;j<(long)k->ctb;j++){ long g=j-i; if(!full && !(g<=8||g%8==0)) continue; uint8_t d=1<<((i+j)&7);
    ct[i]=s->ct[i]^d; ct[j]=s->ct[j]^d; rej(k,s->sk,ct,"bytes %ld and %ld ^= %02lx",i,j,d);
    if(mc_thorough || (k->K==2 && (j%8==i%8||g<=4))){ ct[i]=s->ct[i]+d; ct[j]=s->ct[j]-d; rej(k,s->sk,ct,"byte %ld += %3$ld, byte %2$ld -= %3$ld",i,j,d); ct[i]=~s->ct[i]; ct[j]=~s->ct[j]; rej(k,s->sk,ct,"bytes %ld and %ld inverted",i,j,0); }
    ct[j]=s->ct[j]; } }
/* runs, prefixes and suffixes of every length, strided sets */
static void u_run(long u){ kyber *k=&KY[u%6]; long n=u/6+1; if(n>(long)k->ctb) return; kset *s=hon(k->K,3); uint8_t ct[1568]; static const uint8_t d[]={1,0xff,0x80,0x40};
  for(int x=0;x<(mc_thorough?4:2);x++){ memcpy(ct,s->ct,k->ctb); for(long i=0;i<n;i++) ct[i]^=d[x]; rej(k,s->sk,ct,"first %ld bytes ^= %02lx",n,d[x],0);
    memcpy(ct,s->ct,k->ctb); for(long i=0;i<n;i++) ct[k->ctb-1-i]^=d[x]; rej(k,s->sk,ct,"last %ld bytes ^= %02lx",n,d[x],0);
    memcpy(ct,s->ct,k->ctb); for(long i=0;i<(long)k->ctb;i+=n) ct[i]^=d[x]; rej(k,s->sk,ct,"every %ld-th byte ^= %02lx",n,d[x],0); }
  memcpy(ct,s->ct,k->ctb); memset(ct,0,n); if(memcmp(ct,s->ct,k->ctb)) rej(k,s->sk,ct,"first %ld bytes zero",n,0,0);
  memcpy(ct,s->ct,k->ctb); memset(ct+k->ctb-n,0xff,n); if(memcmp(ct,s->ct,k->ctb)) rej(k,s->sk,ct,"last %ld bytes ff",n,0,0);
  /* bytes moved around: rotation by n; exchange with the neighbour at distance n */
  if(n<(long)k->ctb){ memcpy(ct,s->ct+n,k->ctb-n); memcpy(ct+k->ctb-n,s->ct,n); if(memcmp(ct,s->ct,k->ctb)) rej(k,s->sk,ct,"rotated by %ld bytes",n,0,0);
    for(long i=0;i+n<(long)k->ctb;i+=(mc_thorough?1:37)){ memcpy(ct,s->ct,k->ctb); if(ct[i]==ct[i+n]) continue; uint8_t t=ct[i]; ct[i]=ct[i+n]; ct[i+n]=t; rej(k,s->sk,ct,"bytes %ld and %ld exchanged",i,i+n,0); } }
  if(n<=32){ int bl=(int)n*2; for(long a=0;a+2*bl<=(long)k->ctb;a+=bl){ memcpy(ct,s->ct,k->ctb); memcpy(ct+a,s->ct+a+bl,bl); memcpy(ct+a+bl,s->ct+a,bl); if(memcmp(ct,s->ct,k->ctb)) rej(k,s->sk,ct,"adjacent %ld-byte blocks at %ld exchanged",bl,a,0); } }
}
/* same delta at every position of a residue class: word-folding comparisons cancel */
static void u_fold(long u){ kyber *k=&KY[u%6]; long r=u/6; static const int W[]={2,4,8,16,32,64,128,256}; int w=W[r%8]; r/=8; int off=(int)r; if(off>=w) return; kset *s=hon(k->K,1); uint8_t ct[1568];
  for(int cnt=2;cnt<=8;cnt*=2) for(int b=0;b<8;b++){ memcpy(ct,s->ct,k->ctb); int c=0; for(long i=off;i<(long)k->ctb&&c<cnt;i+=w,c++) ct[i]^=1<<b; rej(k,s->sk,ct,"offset %ld stride %ld count/bit %ld",off,w,cnt*10+b); }
  memcpy(ct,s->ct,k->ctb); for(long i=off;i<(long)k->ctb;i+=w) ct[i]^=0xff; rej(k,s->sk,ct,"offset %ld stride %ld all inverted %ld",off,w,0);
  acc(k,s); }
/* z: only rejected results depend on it, and on every bit of it */
static void u_z(long u){ kyber *k=&KY[u%6]; int b=(int)(u/6); kset s=*hon(k->K,1); uint8_t ct[1568],ss[32],s0[32]; memcpy(ct,s.ct,k->ctb); ct[b*3]^=1; spec_reject(k->K,s.sk,ct,s0);
  s.sk[k->skb-32+(b>>3)]^=1<<(b&7); acc(k,&s); rej(k,s.sk,ct,"z bit %ld flipped, ct byte %ld flipped",b,b*3,0); k->dec(ss,ct,s.sk); EQ(memcmp(ss,s0,32),"%s: rejection value does not depend on bit %d of z",k->name,b); }
/* arbitrary ciphertexts and corrupted secret keys against the full model */
static void u_any(long u){ kyber *k=&KY[u%6]; long t=u/6; kset *s=hon(k->K,t&3); uint8_t ct[1568],ss[32],w[32]; if(t<256) memset(ct,(int)t,k->ctb); else mc_fill(ct,k->ctb,t); spec_dec(k->K,s->sk,ct,w); int r=k->dec(ss,ct,s->sk); EQ(r==0,"%s dec returned %d",k->name,r); cmpb("decapsulated secret",k,ss,w,32,CTX("arbitrary ciphertext %ld",t)); mc_trans(1); mc_trace(1);
  /* ciphertext of the same message under other coins / other key: must be rejected */
  if(t<64){ uint8_t m[32],cc[32],pk[1568]; memcpy(pk,s->sk+384*k->K,k->pkb); mc_fill(m,32,t); mc_fill(cc,32,t+9); spec_cpa_enc(k->K,m,pk,cc,ct); rej(k,s->sk,ct,"valid encryption with coins not derived from the message, %ld",t,0,0);
    kset *o=hon(k->K,(t+1)&3); rej(k,s->sk,o->ct,"honest ciphertext of another key, %ld",t,0,0);
    rej(k,s->sk,ct,"repeat %ld",t,0,0); acc(k,s); } }
static void u_sk(long u){ kyber *k=&KY[u%6]; long p=u/6*8; kset s=*hon(k->K,3); uint8_t ss[32],w[32]; for(int j=0;j<8&&p<(long)k->skb;j++,p++){ s.sk[p]^=1<<(p&7); spec_dec(k->K,s.sk,s.ct,w); int r=k->dec(ss,s.ct,s.sk); EQ(r==0,"%s dec returned %d",k->name,r); cmpb("decapsulated secret",k,ss,w,32,CTX("honest ct, secret key byte %ld damaged",p)); s.sk[p]^=1<<(p&7); mc_trans(1); mc_trace(1);} }
int main(int argc,char **argv){
  mc_init(argc,argv,"C02"); int r=libs_load(); if(r) return r; for(int K=2;K<=4;K++) for(int t=0;t<4;t++) hon(K,t);
  mc_units("byte",u_byte,6*1568); mc_units("z",u_z,6*256); mc_units("fold",u_fold,6*8*256); mc_units("run",u_run,6*1568); mc_units("any",u_any,6*(mc_thorough?4000:320)); mc_units("sk",u_sk,6*396); mc_units("pair",u_pair,6*1568);
  return mc_run();
}
