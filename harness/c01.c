/* C01: honest decapsulation recovers the encapsulated secret. */
#include "fakes.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
static void roundtrip(kyber *k,const uint8_t *coins,const uint8_t *m,const char *ctx){
  uint8_t pk[1568],sk[3168],ct[1568],s1[32],s2[32]; memset(s1,1,32); memset(s2,2,32);
  int r=k->keypair_derand(pk,sk,coins); EQ(r==0,"%s keypair_derand returned %d: %s",k->name,r,ctx);
  r=k->enc_derand(ct,s1,pk,m); EQ(r==0,"%s enc_derand returned %d: %s",k->name,r,ctx);
  r=k->dec(s2,ct,sk); EQ(r==0,"%s dec returned %d: %s",k->name,r,ctx);
  EQ(!memcmp(s1,s2,32),"%s: decapsulation of an honest ciphertext returned %s, encapsulation %s; %s",k->name,mc_hexs(s2,32),mc_hexs(s1,32),ctx);
  mc_trans(3); mc_state(mc_hash(s1,32)); mc_trace(1);
}
/* real hash layer: structured and enumerated coins */
static void mk64(uint8_t *c,long i){ static const uint8_t f[]={0,0xff,1,0x80,0x55,0xaa,0x0f,0xf0,0x7f,0xfe}; if(i<10) memset(c,f[i],64); else if(i<522){ memset(c,0,64); c[(i-10)>>3]=1<<((i-10)&7);} else { memset(c,0xff,64); c[(i-522)>>3]^=1<<((i-522)&7);} }
static void u_struct(long u){ fake_off(); kyber *k=&KY[u%6]; long i=u/6; uint8_t c[64],m[64]; mk64(c,i); mk64(m,(i*7+3)%778); roundtrip(k,c,m,CTX("coins=%s m=%s",mc_hexs(c,64),mc_hexs(m,32))); uint8_t z[64]; mc_fill(z,64,9); roundtrip(k,z,c,CTX("coins=fill9 m=%s",mc_hexs(c,32))); mc_fill(m,32,10); roundtrip(k,c,m,CTX("coins=%s m=fill10",mc_hexs(c,64))); }
static void u_enum(long u){ fake_off(); kyber *k=&KY[u%6]; for(long j=0;j<16;j++){ long i=u/6*16+j; uint8_t c[64],m[32]; mc_fill(c,64,0x0c010000+i); mc_fill(m,32,0x0c018000+i); roundtrip(k,c,m,CTX("coins=%s m=%s",mc_hexs(c,64),mc_hexs(m,32))); if(i==0) mc_sample("%s coins=%s m=%s: secrets agree",k->name,mc_hexs(c,64),mc_hexs(m,32)); } }
/* counters: seeds that differ in one 16-bit field only */
static void u_cnt(long u){ fake_off(); kyber *k=&KY[u%6]; for(long j=0;j<32;j++){ long i=u/6*32+j; uint8_t c[64]={0},m[32]={0}; c[0]=i; c[1]=i>>8; m[31]=i; m[30]=i>>8; c[40]=i*3; roundtrip(k,c,m,CTX("counter coins %ld",i)); } }

/* chosen hash answers: the model decides whether the accumulated noise is
 * below the threshold; below it the secrets must agree, above it the library
 * must still do what the model does */
static long ok_below;
static void chosen(kyber *k,const uint8_t *m,const char *ctx){
  uint8_t coins[64],pk[1568],sk[3168],ct[1568],s1[32],s2[32],wpk[1568],wsk[3168],wct[1568],w1[32],w2[32]; mc_fill(coins,64,4242);
  F_phase=0; spec_keypair(k->K,coins,wpk,wsk); int r=k->keypair_derand(pk,sk,coins); EQ(r==0,"%s keypair_derand returned %d: %s",k->name,r,ctx);
  F_phase=1; spec_enc(k->K,wpk,m,wct,w1); r=k->enc_derand(ct,s1,pk,m); EQ(r==0,"%s enc_derand returned %d: %s",k->name,r,ctx);
  spec_dec(k->K,wsk,wct,w2); memset(s2,9,32); r=k->dec(s2,ct,sk); EQ(r==0,"%s dec returned %d: %s",k->name,r,ctx);
  int below=!memcmp(w1,w2,32); mc_trans(3);
  if(below) EQ(!memcmp(s1,s2,32),"%s: noise is below the decoding threshold but decapsulation does not recover the secret; %s",k->name,ctx);
  cmpb("public key",k,pk,wpk,k->pkb,ctx); cmpb("secret key",k,sk,wsk,k->skb,ctx); cmpb("ciphertext",k,ct,wct,k->ctb,ctx); cmpb("encapsulated secret",k,s1,w1,32,ctx); cmpb("decapsulated secret",k,s2,w2,32,ctx);
  mc_state(mc_hash(wct,k->ctb)); mc_trace(1); mc_count(below?"chosen-noise cases below threshold":"chosen-noise cases above threshold",1);
}
static const uint8_t MB[]={0x00,0xff,0x55,0xaa};
/* one group per (matrix pattern, noise pattern for s,e / y / e1,e2) */
static void u_chosen(long u){ kyber *k=&KY[u%6]; long r=u/6; int mp=r%NMP; r/=NMP; int np=r%NNP; r/=NNP; int yp=r%NNP;
  f_reset(k->K); for(int x=0;x<k->K;x++) for(int y=0;y<k->K;y++) f_matpat(F_A[x][y],mp,u*16+x*4+y);
  int K=k->K; for(int i=0;i<2*K;i++) f_noisepat(F_N[0][i],i<K?np:(np+yp)%NNP,spec_eta1(K),u+i); for(int i=0;i<=2*K;i++) f_noisepat(F_N[1][i],i<K?yp:(np*5+yp)%NNP,i<K?spec_eta1(K):2,u+100+i);
  uint8_t m[32]; memset(m,MB[u/6%4],32); F_var=(np+yp)%4; F_rej=(mp&1)?3:0; chosen(k,m,CTX("matrix pattern %d, noise patterns %d/%d, encoding %d",mp,np,yp,F_var)); fake_off(); }
/* sweep the decryption noise through the threshold: n coefficients of s,e at
 * +-eta against y=all +-eta: noise grows linearly with n */
static void u_sweep(long u){ kyber *k=&KY[u%6]; long r=u/6; int sgn=r&1?-1:1; r>>=1; int mi=r&3; r>>=2; int K=k->K, eta=spec_eta1(K); int n=(int)r;
  if(n>256*K) return; f_reset(K); int e2max=2;
  for(int x=0;x<K;x++) for(int y=0;y<K;y++) f_matpat(F_A[x][y],13,1000+x*4+y);
  for(int i=0;i<n;i++){ int p=(i*97)%(256*K); F_N[0][K+p/256][p%256]=eta; }
  for(int i=0;i<K;i++) for(int j=0;j<256;j++) F_N[1][i][j]=(int8_t)(sgn*eta);
  for(int j=0;j<256;j++) F_N[1][2*K][j]=(int8_t)(sgn*e2max);
  uint8_t m[32]; memset(m,MB[mi],32); F_var=n%4; chosen(k,m,CTX("%d error coefficients at +%d, y at %d, message %02x",n,eta,sgn*eta,MB[mi])); fake_off(); }
/* single spikes: s or e has one nonzero coefficient at p, y one at q */
static void u_spike(long u){ kyber *k=&KY[u%6]; long r=u/6; int p=(int)(r%256); r/=256; int q=(int)((p*31+r*17)&255); int K=k->K, eta=spec_eta1(K); f_reset(K); for(int x=0;x<K;x++) for(int y=0;y<K;y++) f_matpat(F_A[x][y],(int)(r%NMP),x*4+y);
  F_N[0][(int)(r%(2*K))][p]=(int8_t)(r&1?-eta:eta); F_N[1][r%K][q]=(int8_t)(r&2?-eta:eta); F_N[1][2*K][p]=-2; uint8_t m[32]; mc_fill(m,32,u); chosen(k,m,CTX("spike at %d (poly %ld) and %d",p,r%(2*K),q)); fake_off(); }
int main(int argc,char **argv){
  mc_init(argc,argv,"C01"); int r=libs_load(); if(r) return r; orc_init(); (void)ok_below;
  mc_units("struct",u_struct,6*1034); mc_units("enum",u_enum,6*(mc_thorough?12500:600)); mc_units("counter",u_cnt,6*(mc_thorough?2048:120));
  mc_units("chosen",u_chosen,6L*NMP*NNP*NNP); mc_units("sweep",u_sweep,6L*8*(mc_thorough?1025:340)); mc_units("spike",u_spike,6L*256*(mc_thorough?56:6));
  return mc_run();
}
