/* C04: ref and avx2 libraries of a parameter set compute the same function;
 * roles can be mixed freely. */
#include "fakes.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
static void diff(const char *what,int K,const uint8_t *a,const uint8_t *b,size_t n,const char *ctx){ if(memcmp(a,b,n)){ long d=first_diff(a,b,n); mc_fail("kyber%d: %s of ref and avx2 differ at byte %ld (%02x / %02x); %s",K==2?512:K==3?768:1024,what,d,a[d],b[d],ctx);} }
static void kp(int K,const uint8_t *c,const char *ctx){ uint8_t p[2][1568],s[2][3168]; kyber *a=KYI(0,K),*b=KYI(1,K); int r=a->keypair_derand(p[0],s[0],c),q=b->keypair_derand(p[1],s[1],c); EQ(r==q,"keypair return values %d/%d; %s",r,q,ctx); diff("public keys",K,p[0],p[1],a->pkb,ctx); diff("secret keys",K,s[0],s[1],a->skb,ctx); mc_trans(2); mc_trace(1); mc_state(mc_hash(p[0],a->pkb)); }
static void en(int K,const uint8_t *pk,const uint8_t *m,const char *ctx){ uint8_t c[2][1568],s[2][32]; kyber *a=KYI(0,K),*b=KYI(1,K); int r=a->enc_derand(c[0],s[0],pk,m),q=b->enc_derand(c[1],s[1],pk,m); EQ(r==q,"enc return values %d/%d; %s",r,q,ctx); diff("ciphertexts",K,c[0],c[1],a->ctb,ctx); diff("encapsulated secrets",K,s[0],s[1],32,ctx); mc_trans(2); mc_trace(1); mc_state(mc_hash(c[0],a->ctb)); }
static void de(int K,const uint8_t *sk,const uint8_t *ct,const char *ctx){ uint8_t s[2][32],m[2][32]; kyber *a=KYI(0,K),*b=KYI(1,K); int r=a->dec(s[0],ct,sk),q=b->dec(s[1],ct,sk); EQ(r==q,"dec return values %d/%d; %s",r,q,ctx); diff("decapsulated secrets",K,s[0],s[1],32,ctx); if(a->cpa_dec&&b->cpa_dec){ a->cpa_dec(m[0],ct,sk); b->cpa_dec(m[1],ct,sk); diff("decrypted messages",K,m[0],m[1],32,ctx); mc_state(mc_hash(m[0],32)); } mc_trans(4); mc_trace(1); }
#define KK(u) ((int)((u)%3)+2)
/* all eight role assignments for structured and enumerated coins */
static void u_roles(long u){ fake_off(); int K=KK(u); for(long i=u/3*16;i<u/3*16+16;i++){ uint8_t c[64],m[32]; if(i<512){ memset(c,0,64); c[i>>3]=1<<(i&7); memset(m,0,32); m[i>>4]^=1<<(i&7);} else if(i<1024){ memset(c,0xff,64); c[(i-512)>>3]^=1<<(i&7); memset(m,0xff,32); m[(i-512)>>4]^=1<<(i&7);} else { mc_fill(c,64,i); mc_fill(m,32,i+50000000); }
  kp(K,c,CTX("coins=%s",mc_hexs(c,64)));
  for(int g=0;g<2;g++){ uint8_t pk[1568],sk[3168]; KYI(g,K)->keypair_derand(pk,sk,c); for(int e=0;e<2;e++){ uint8_t ct[1568],ss[32]; KYI(e,K)->enc_derand(ct,ss,pk,m); for(int d=0;d<2;d++){ uint8_t s2[32]; KYI(d,K)->dec(s2,ct,sk); EQ(!memcmp(ss,s2,32),"kyber K=%d keygen by %s, encapsulation by %s, decapsulation by %s: secrets differ; coins=%s m=%s",K,g?"avx2":"ref",e?"avx2":"ref",d?"avx2":"ref",mc_hexs(c,64),mc_hexs(m,32)); mc_trans(1); }
      ct[i%KYI(0,K)->ctb]^=1+(i%255); de(K,sk,ct,CTX("modified ct, coins=%s",mc_hexs(c,64))); mc_trans(1);} mc_trans(1);} mc_trace(8); } if(u<3) mc_sample("K=%d: all 8 role assignments agree for %s",K,C); }
/* forced public key / secret key / ciphertext coefficients */
static const unsigned EV[]={0,1,2,831,832,833,1664,1665,2496,2497,3328,3329,3330,3332,4094,4095};
static void u_pk(long u){ fake_off(); int K=KK(u),pos=(int)(u/3); if(pos>=256*K) return; kset s; honest(K,20,&s); uint8_t m[32]; mc_fill(m,32,pos); for(int e=0;e<16;e++){ set12(s.pk,pos,EV[e]); en(K,s.pk,m,CTX("honest pk with t[%d]=%u",pos,EV[e])); } }
static void u_sk(long u){ fake_off(); int K=KK(u),pos=(int)(u/3); if(pos>=256*K) return; kset s; honest(K,21,&s); for(int e=0;e<16;e++){ set12(s.sk,pos,EV[e]); de(K,s.sk,s.ct,CTX("honest sk with s[%d]=%u",pos,EV[e])); } }
static void u_ct(long u){ fake_off(); int K=KK(u),pos=(int)(u/3); int n=256*K,du=spec_du(K),dv=spec_dv(K); if(pos>=n+256) return; kset s; honest(K,22,&s); uint8_t *b=pos<n?s.ct:s.ct+32*du*K; int d=pos<n?du:dv,i=pos<n?pos:pos-n; unsigned M=1u<<d, st=M>64&&!mc_thorough?M/32:1; for(unsigned v=0;v<M;v+=st){ setd(b,i,d,v); de(K,s.sk,s.ct,CTX("honest ct with field %d=%u",pos,v)); setd(b,i,d,v+st-1); de(K,s.sk,s.ct,CTX("honest ct with field %d=%u",pos,v+st-1)); } }
/* pattern keys and ciphertexts: two values, block period, three levels */
static void u_pat(long u){ fake_off(); int K=KK(u); long r=u/3; unsigned a=EV[r&15],b=EV[(r>>4)&15]; int per=1<<((r>>8)&7); kset s; honest(K,23,&s); int du=spec_du(K),dv=spec_dv(K); uint8_t m[32]; mc_fill(m,32,r);
  for(int i=0;i<256*K;i++){ set12(s.pk,i,((i/per)&1)?b:a); set12(s.sk,i,((i/per)&1)?a:b); setd(s.ct,i,du,(((i/per)&1)?b:a)&((1<<du)-1)); } for(int i=0;i<256;i++) setd(s.ct+32*du*K,i,dv,i*3);
  en(K,s.pk,m,CTX("pk pattern %u/%u period %d",a,b,per)); de(K,s.sk,s.ct,CTX("sk/ct pattern %u/%u period %d",a,b,per)); memcpy(s.sk+384*K,s.pk,spec_pkbytes(K)-32); de(K,s.sk,s.ct,CTX("sk/pk/ct pattern %u/%u period %d",a,b,per)); }
static void u_arb(long u){ fake_off(); int K=KK(u); long t=u/3; uint8_t pk[1568],sk[3168],ct[1568],m[32]; if(t<256){ memset(pk,t,1568); memset(sk,t,3168); memset(ct,t,1568); memset(m,t,32);} else { mc_fill(pk,1568,t); mc_fill(sk,3168,t+1000000); mc_fill(ct,1568,t+2000000); mc_fill(m,32,t+3000000);} en(K,pk,m,CTX("arbitrary pk %ld",t)); de(K,sk,ct,CTX("arbitrary sk, ct %ld",t)); }
/* chosen hash answers: noise and matrix patterns, rejection patterns */
static void u_fake(long u){ int K=KK(u); long r=u/3; int mp=r%NMP; r/=NMP; int np=r%NNP; r/=NNP; int yp=r%NNP; r/=NNP; f_reset(K); for(int x=0;x<K;x++) for(int y=0;y<K;y++) f_matpat(F_A[x][y],mp,u+x*4+y);
  for(int i=0;i<2*K;i++) f_noisepat(F_N[0][i],(i<K?np:yp),spec_eta1(K),u+i); for(int i=0;i<=2*K;i++) f_noisepat(F_N[1][i],i<K?yp:(np+i)%NNP,i<K?spec_eta1(K):2,u+i+50); F_var=(int)(u%4); F_rej=(int)(u%7);
  uint8_t c[64],m[32]; mc_fill(c,64,u); mc_fill(m,32,u+1); F_phase=0; kp(K,c,CTX("matrix pattern %d noise %d/%d",mp,np,yp)); kset s; KYI(0,K)->keypair_derand(s.pk,s.sk,c); F_phase=1; en(K,s.pk,m,CTX("matrix pattern %d noise %d/%d",mp,np,yp)); KYI(1,K)->enc_derand(s.ct,s.ss,s.pk,m); de(K,s.sk,s.ct,CTX("matrix pattern %d noise %d/%d",mp,np,yp));
  /* unreduced public key together with extremal matrix */
  for(int i=0;i<256*K;i++) set12(s.pk,i,EV[(i+u)&15]); en(K,s.pk,m,CTX("edge pk, matrix pattern %d noise %d/%d",mp,np,yp)); fake_off(); }
/* enumerated acceptance patterns: raw stream bytes chosen directly */
static int A_mode; static long A_par;
static void a_xof(const uint8_t *s,uint8_t *out,size_t n,size_t off){ for(size_t i=0;i<n;i++){ size_t p=off+i; size_t c=p/3*2; int w=(int)(p%3); unsigned v[2]; for(int k=0;k<2;k++){ size_t q=c+k; unsigned acc; switch(A_mode){ case 0: acc=(long)q>=A_par; break; case 1: acc=(q%(A_par+2))!=0; break; case 2: acc=(q%(A_par+1))==0; break; case 3: acc=((q/(A_par+1))&1); break; default: acc=(mc_hash2(A_par,q)%100)<(A_par%2?81u:60u); } v[k]= acc? (unsigned)((q*37+s[32]*5+s[33])%3329) : 3329+(unsigned)(q%767); } out[i]= w==0? v[0] : w==1? (v[0]>>8)|(v[1]<<4) : v[1]>>4; } }
static void u_acc(long u){ int K=KK(u); long r=u/3; f_reset(K); A_mode=(int)(r%5); A_par=r/5; fake_xof=a_xof; uint8_t c[64],m[32]; mc_fill(c,64,u); mc_fill(m,32,u); F_N[0][0][3]=1; F_N[1][0][7]=-1; F_N[1][1][200]=1; F_phase=0; kp(K,c,CTX("acceptance mode %d parameter %ld",A_mode,A_par)); kset s; KYI(0,K)->keypair_derand(s.pk,s.sk,c); F_phase=1; en(K,s.pk,m,CTX("acceptance mode %d parameter %ld",A_mode,A_par)); fake_off(); }
/* dense matrix of seeds with the real stream */
static void u_seed(long u){ fake_off(); int K=KK(u); for(long i=u/3*32;i<u/3*32+32;i++){ uint8_t c[64]={0}; c[0]=i; c[1]=i>>8; c[2]=i>>16; kp(K,c,CTX("counter seed %ld",i)); } }
int main(int argc,char **argv){
  mc_init(argc,argv,"C04"); int r=libs_load(); if(r) return r; orc_init();
  mc_units("roles",u_roles,3*(mc_thorough?2000:128)); mc_units("pk",u_pk,3*1024); mc_units("sk",u_sk,3*1024); mc_units("ct",u_ct,3*1280); mc_units("pattern",u_pat,3*(mc_thorough?2048:1024)); mc_units("arbitrary",u_arb,3*(mc_thorough?40000:2000));
  mc_units("fake",u_fake,3L*NMP*NNP*NNP); mc_units("accept",u_acc,3L*5*(mc_thorough?600:340)); mc_units("seed",u_seed,3*(mc_thorough?3000:150));
  return mc_run();
}
