/* C03: keypair_derand / enc_derand / dec are byte-exact specification functions
 * on every enumerated input, well-formed or not. */
#include "util.h"
static void do_keypair(kyber *k,const uint8_t coins[64],const char *ctx){
  uint8_t pk[1568+64],sk[3168+64],pk2[1568+64],sk2[3168+64],wp[1568],ws[3168];
  memset(pk,0x00,sizeof pk); memset(sk,0x00,sizeof sk); memset(pk2,0xff,sizeof pk2); memset(sk2,0xff,sizeof sk2);
  spec_keypair(k->K,coins,wp,ws);
  int r=k->keypair_derand(pk,sk,coins); EQ(r==0,"%s keypair_derand returned %d; %s",k->name,r,ctx);
  r=k->keypair_derand(pk2,sk2,coins); EQ(r==0,"%s keypair_derand returned %d; %s",k->name,r,ctx);
  cmpb("public key",k,pk,wp,k->pkb,ctx); cmpb("secret key",k,sk,ws,k->skb,ctx); cmpb("public key (prefilled output)",k,pk2,wp,k->pkb,ctx); cmpb("secret key (prefilled output)",k,sk2,ws,k->skb,ctx);
  for(size_t i=k->pkb;i<k->pkb+64;i++) EQ(pk[i]==0&&pk2[i]==0xff,"%s keypair writes beyond the public key length; %s",k->name,ctx);
  for(size_t i=k->skb;i<k->skb+64;i++) EQ(sk[i]==0&&sk2[i]==0xff,"%s keypair writes beyond the secret key length; %s",k->name,ctx);
  mc_state(mc_hash(wp,k->pkb)); mc_trans(2); mc_trace(1);
}
static void do_enc(kyber *k,const uint8_t *pk,const uint8_t *m,const char *ctx){
  uint8_t ct[1568+64],ss[32+32],wc[1568],ws[32]; memset(ct,0xA5,sizeof ct); memset(ss,0x5A,sizeof ss);
  spec_enc(k->K,pk,m,wc,ws); int r=k->enc_derand(ct,ss,pk,m); EQ(r==0,"%s enc_derand returned %d; %s",k->name,r,ctx);
  cmpb("ciphertext",k,ct,wc,k->ctb,ctx); cmpb("shared secret",k,ss,ws,32,ctx);
  for(size_t i=k->ctb;i<k->ctb+64;i++) EQ(ct[i]==0xA5,"%s enc writes beyond the ciphertext length; %s",k->name,ctx);
  for(size_t i=32;i<64;i++) EQ(ss[i]==0x5A,"%s enc writes beyond the shared secret; %s",k->name,ctx);
  mc_state(mc_hash(wc,k->ctb)); mc_trans(1); mc_trace(1);
}
static void do_dec(kyber *k,const uint8_t *sk,const uint8_t *ct,const char *ctx){
  uint8_t ss[64],ws[32]; memset(ss,0x77,64); spec_dec(k->K,sk,ct,ws); int r=k->dec(ss,ct,sk); EQ(r==0,"%s dec returned %d; %s",k->name,r,ctx);
  cmpb("decapsulated secret",k,ss,ws,32,ctx); for(int i=32;i<64;i++) EQ(ss[i]==0x77,"%s dec writes beyond the shared secret; %s",k->name,ctx);
  mc_state(mc_hash(ws,32)); mc_trans(1); mc_trace(1);
  if(k->cpa_dec){ uint8_t m[32],wm[32]; spec_cpa_dec(k->K,sk,ct,wm); k->cpa_dec(m,ct,sk); cmpb("decrypted message",k,m,wm,32,ctx); mc_state(mc_hash(wm,32)^5); mc_trans(1); mc_trace(1); }
}
static char C[9000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)

/* --- coins: structured alphabet --- */
static const uint8_t fills[]={0x00,0xff,0x01,0x80,0x55,0xaa,0x0f,0xf0,0x7f,0xfe};
static long n_coins(void){ return 10+64*8+64*3; }
static void mk_coins(uint8_t *c,long i){
  if(i<10){ memset(c,fills[i],64); return; } i-=10;
  if(i<512){ memset(c,0,64); c[i>>3]|=1<<(i&7); return; } i-=512;
  memset(c,0xff,64); c[i%64]= i/64==0?0x00:i/64==1?0x7f:0xfe; }
static void u_coins(long u){ kyber *k=&KY[u%6]; uint8_t c[64]; mk_coins(c,u/6); do_keypair(k,c,CTX("keypair coins=%s",mc_hexs(c,64))); 
  if(u/6<10+256+96){ kset s; honest(k->K,1,&s); do_enc(k,s.pk,c,CTX("enc coins=%s to honest key tag 1",mc_hexs(c,32))); } }
static void u_honest(long u){ kyber *k=&KY[u%6]; long t=u/6+1; uint8_t c[64],m[32]; kset s; mc_fill(c,64,t*2+1000003*k->K); mc_fill(m,32,t*2+1+1000003*k->K);
  honest(k->K,t,&s); do_keypair(k,c,CTX("keypair coins=%s",mc_hexs(c,64))); do_enc(k,s.pk,m,CTX("enc m=%s pk=%s",mc_hexs(m,32),mc_hexs(s.pk,k->pkb)));
  do_dec(k,s.sk,s.ct,CTX("dec of honest ct, tag %ld",t)); uint8_t ct[1568]; mc_fill(ct,k->ctb,t+777777); do_dec(k,s.sk,ct,CTX("dec of pseudo-random ct, tag %ld",t));
  if(t<=2) mc_sample("%s coins=%s... -> pk=%s...",k->name,mc_hexs(c,16),mc_hexs(s.pk,16)); }
/* --- public keys with one coefficient forced, all positions --- */
static const unsigned EV[]={0,1,1664,1665,2047,3328,3329,3330,4094,4095};
#define NEV 10
static void u_pkpos(long u){ kyber *k=&KY[u%6]; int pos=(int)(u/6); if(pos>=256*k->K) return; kset s; honest(k->K,2,&s); uint8_t m[32]; mc_fill(m,32,55); unsigned old=get12(s.pk,pos);
  int nev = mc_thorough?NEV:NEV; for(int e=0;e<nev;e++){ set12(s.pk,pos,EV[e]); do_enc(k,s.pk,m,CTX("honest pk tag 2 with t[%d]=%u",pos,EV[e])); } 
  if(old+SQ<4096){ set12(s.pk,pos,old+SQ); do_enc(k,s.pk,m,CTX("honest pk tag 2 with t[%d]+=q",pos)); } }
/* all 4096 values at selected positions */
static const int SP[]={0,1,15,16,17,31,63,127,128,254,255};
static void u_pkval(long u){ kyber *k=&KY[u%6]; long r=u/6; int pos=SP[r%11]+256*(int)((r/11)%k->K); long blk=r/11; kset s; honest(k->K,2,&s); uint8_t m[32]; mc_fill(m,32,56);
  for(unsigned v=(unsigned)blk*64;v<blk*64+64;v++){ set12(s.pk,pos,v); do_enc(k,s.pk,m,CTX("honest pk tag 2 with t[%d]=%u",pos,v)); } }
static void u_pkfill(long u){ kyber *k=&KY[u%6]; long r=u/6; kset s; honest(k->K,2,&s); uint8_t m[32]; mc_fill(m,32,r);
  /* constant, alternating and block patterns of extreme values */
  int a=EV[r%NEV], b=EV[(r/NEV)%NEV], per=1<<(r/(NEV*NEV)); for(int i=0;i<256*k->K;i++) set12(s.pk,i,(i/per)&1?b:a); do_enc(k,s.pk,m,CTX("pk coefficients alternate %d/%d with period %d",a,b,per)); 
  memcpy(s.sk+384*k->K,s.pk,k->pkb); do_dec(k,s.sk,s.ct,CTX("sk whose embedded pk alternates %d/%d period %d",a,b,per));
  for(int i=0;i<256*k->K;i++) set12(s.sk,i,(i/per)&1?b:a); do_dec(k,s.sk,s.ct,CTX("sk coefficients alternate %d/%d period %d",a,b,per));
  uint8_t ct[1568]; int du=spec_du(k->K),dv=spec_dv(k->K); for(int i=0;i<256*k->K;i++) setd(ct,i,du,((i/per)&1?b:a)&((1<<du)-1)); for(int i=0;i<256;i++) setd(ct+32*du*k->K,i,dv,((i/per)&1?b:a)&((1<<dv)-1)); do_dec(k,s.sk,ct,CTX("ct and sk coefficients alternate %d/%d period %d",a,b,per)); }
/* --- secret keys: unreduced representatives must act as their residues --- */
static void u_skrep(long u){ kyber *k=&KY[u%6]; long r=u/6; int pos=(int)r; kset s; honest(k->K,3,&s); kset t=s;
  if(pos<256*k->K){ unsigned v=get12(s.sk,pos); if(v+SQ<4096){ set12(t.sk,pos,v+SQ); do_dec(k,t.sk,s.ct,CTX("honest sk tag 3 with s[%d]+=q",pos)); mc_count("unreduced secret coefficients accepted",1);} 
    for(int e=0;e<NEV;e++){ t=s; set12(t.sk,pos,EV[e]); do_dec(k,t.sk,s.ct,CTX("honest sk tag 3 with s[%d]=%u",pos,EV[e])); }
    unsigned w=get12(s.pk,pos); if(w+SQ<4096){ t=s; set12(t.sk+384*k->K,pos,w+SQ); do_dec(k,t.sk,s.ct,CTX("honest sk tag 3 with embedded t[%d]+=q",pos)); } }
  else { int n=pos-256*k->K; if(n>=8) return; for(int i=0;i<256*k->K;i++){ if((n&1)&&get12(t.sk,i)+SQ<4096) set12(t.sk,i,get12(t.sk,i)+SQ); if((n&2)&&get12(t.sk+384*k->K,i)+SQ<4096) set12(t.sk+384*k->K,i,get12(t.sk+384*k->K,i)+SQ); } do_dec(k,t.sk,s.ct,CTX("honest sk tag 3, all representatives unreduced, variant %d",n)); }
}
/* --- each byte of the secret key altered --- */
static void u_skbyte(long u){ kyber *k=&KY[u%6]; long pos=u/6; if(pos>=(long)k->skb) return; kset s; honest(k->K,4,&s); static const uint8_t d[]={1,0x80,0xff}; for(int i=0;i<(mc_thorough?3:1);i++){ int j=mc_thorough?i:(int)((pos)%3); s.sk[pos]^=d[j]; do_dec(k,s.sk,s.ct,CTX("honest sk tag 4, byte %ld ^= %02x",pos,d[j])); s.sk[pos]^=d[j]; } }
/* --- ciphertext fields: every position x edge values; all values at edge positions --- */
static void u_ctpos(long u){ kyber *k=&KY[u%6]; int pos=(int)(u/6); int du=spec_du(k->K),dv=spec_dv(k->K),n=256*k->K; if(pos>=n+256) return; kset s; honest(k->K,5,&s); int d=pos<n?du:dv; uint8_t *b=pos<n?s.ct:s.ct+32*du*k->K; int i=pos<n?pos:pos-n; unsigned old=getd(b,i,d), M=1u<<d;
  unsigned vals[]={0,1,M/4,M/2,M/2-1,M-1,M-2,old^1,old^(M/2)}; for(int e=0;e<9;e++){ setd(b,i,d,vals[e]); do_dec(k,s.sk,s.ct,CTX("honest ct tag 5, field %d := %u",pos,vals[e])); } 
  if(mc_thorough && (pos%16==0 || pos%16==15)) for(unsigned v=0;v<M;v++){ setd(b,i,d,v); do_dec(k,s.sk,s.ct,CTX("honest ct tag 5, field %d := %u",pos,v)); } }
static void u_ctfill(long u){ kyber *k=&KY[u%6]; long r=u/6; kset s; honest(k->K,6,&s); memset(s.ct,(int)r,k->ctb); do_dec(k,s.sk,s.ct,CTX("ct all bytes %02lx, honest sk tag 6",r)); memset(s.sk,(int)r,k->skb); do_dec(k,s.sk,s.ct,CTX("ct and sk all bytes %02lx",r)); uint8_t m[32]; memset(m,(int)r,32); memset(s.pk,(int)r,k->pkb); do_enc(k,s.pk,m,CTX("pk and coins all bytes %02lx",r)); }
int main(int argc,char **argv){
  mc_init(argc,argv,"C03"); int r=libs_load(); if(r) return r;
  mc_units("coins",u_coins,6*n_coins()); mc_units("honest",u_honest,6*(mc_thorough?20000:300));
  mc_units("pkpos",u_pkpos,6*1024); mc_units("pkval",u_pkval,6*(mc_thorough?11*64:64)); mc_units("pkfill",u_pkfill,6*(NEV*NEV*(mc_thorough?9:3)));
  mc_units("skrep",u_skrep,6*(1024+8)); mc_units("skbyte",u_skbyte,6*3168); mc_units("ctpos",u_ctpos,6*(1024+256)); mc_units("ctfill",u_ctfill,6*256);
  return mc_run();
}
