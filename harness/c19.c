/* C19: one build configuration of the tree against the specification. */
#include "fakes.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
static void kp(kyber*k,const uint8_t*c,const char*x){ uint8_t p[1568],s[3168],wp[1568],ws[3168]; spec_keypair(k->K,c,wp,ws); EQ(!k->keypair_derand(p,s,c),"%s keypair_derand fails; %s",k->name,x); cmpb("public key",k,p,wp,k->pkb,x); cmpb("secret key",k,s,ws,k->skb,x); mc_trans(1); mc_trace(1); mc_state(mc_hash(wp,k->pkb)); }
static void en(kyber*k,const uint8_t*pk,const uint8_t*m,const char*x){ uint8_t c[1568],s[32],wc[1568],ws[32]; spec_enc(k->K,pk,m,wc,ws); EQ(!k->enc_derand(c,s,pk,m),"%s enc_derand fails; %s",k->name,x); cmpb("ciphertext",k,c,wc,k->ctb,x); cmpb("secret",k,s,ws,32,x); mc_trans(1); mc_trace(1); mc_state(mc_hash(wc,k->ctb)); }
static void de(kyber*k,const uint8_t*sk,const uint8_t*ct,const char*x){ uint8_t s[32],ws[32]; spec_dec(k->K,sk,ct,ws); EQ(!k->dec(s,ct,sk),"%s dec fails; %s",k->name,x); cmpb("decapsulated secret",k,s,ws,32,x); mc_trans(1); mc_trace(1); mc_state(mc_hash(ws,32)); }
static const unsigned EV[]={0,1,832,833,1664,1665,2496,2497,3328,3329,3330,4095};
#define NEV 12
static void u_real(long u){ fake_off(); kyber*k=&KY[u%6]; long t=u/6; int K=k->K; uint8_t c[64],m[32]; if(t<8){ static const uint8_t f[]={0,255,1,128,0x55,0xaa,0x7f,0xfe}; memset(c,f[t],64); memset(m,f[t],32);} else { mc_fill(c,64,t); mc_fill(m,32,t+900); } kset s; spec_keypair(K,c,s.pk,s.sk); kp(k,c,CTX("coins %s",mc_hexs(c,64))); en(k,s.pk,m,CTX("coins %s message %s",mc_hexs(c,64),mc_hexs(m,32))); spec_enc(K,s.pk,m,s.ct,s.ss); de(k,s.sk,s.ct,C); s.ct[(t*61)%k->ctb]^=1<<(t&7); de(k,s.sk,s.ct,CTX("modified ciphertext, coins %s",mc_hexs(c,64)));
  rnd_hook=NULL; memset(c,0,64); uint8_t p[1568],q[3168],wp[1568],wq[3168]; if(t==0){ EQ(!k->keypair(p,q),"%s keypair fails",k->name); spec_keypair(K,c,wp,wq); cmpb("public key of keypair()",k,p,wp,k->pkb,"random bytes all zero"); cmpb("secret key of keypair()",k,q,wq,k->skb,"random bytes all zero"); } }
static void u_pat(long u){ fake_off(); kyber*k=&KY[u%6]; long r=u/6; int K=k->K; unsigned a=EV[r%NEV],b=EV[(r/NEV)%NEV]; int per=1<<(r/NEV/NEV*3); kset s; honest(K,9,&s); int du=spec_du(K),dv=spec_dv(K); uint8_t m[32]; mc_fill(m,32,r); for(int i=0;i<256*K;i++){ set12(s.pk,i,((i/per)&1)?b:a); set12(s.sk,i,((i/per)&1)?a:b); setd(s.ct,i,du,(((i/per)&1)?b:a)&((1<<du)-1)); } for(int i=0;i<256;i++) setd(s.ct+32*du*K,i,dv,i*3+r); en(k,s.pk,m,CTX("public key pattern %u/%u period %d",a,b,per)); de(k,s.sk,s.ct,CTX("secret key and ciphertext pattern %u/%u period %d",a,b,per)); }
static void u_fake(long u){ kyber*k=&KY[u%6]; int K=k->K; long r=u/6; int mp=r%NMP,np=(r/NMP)%NNP,yp=(mp*5+np*7)%NNP; f_reset(K); for(int x=0;x<K;x++) for(int y=0;y<K;y++) f_matpat(F_A[x][y],mp,u+x*4+y); for(int i=0;i<2*K;i++) f_noisepat(F_N[0][i],i<K?np:yp,spec_eta1(K),u+i); for(int i=0;i<=2*K;i++) f_noisepat(F_N[1][i],i<K?yp:(np+i)%NNP,i<K?spec_eta1(K):2,u+i+50); F_var=r%4; F_rej=r%7; uint8_t c[64],m[32]; mc_fill(c,64,u); mc_fill(m,32,u+1); F_phase=0; kp(k,c,CTX("matrix pattern %d noise %d/%d",mp,np,yp)); kset s; spec_keypair(K,c,s.pk,s.sk); F_phase=1; en(k,s.pk,m,C); spec_enc(K,s.pk,m,s.ct,s.ss); de(k,s.sk,s.ct,C); for(int i=0;i<256*K;i++) set12(s.pk,i,EV[(i+u)%NEV]); en(k,s.pk,m,CTX("edge public key, matrix pattern %d noise %d/%d",mp,np,yp)); fake_off(); }
/* acceptance patterns of the matrix stream */
static int A_mode; static long A_par;
static void a_xof(const uint8_t *s,uint8_t *out,size_t n,size_t off){ long var=A_mode==5?A_par*8+s[32]*4+s[33]:A_par; for(size_t i=0;i<n;i++){ size_t p=off+i; size_t c=p/3*2; int w=(int)(p%3); unsigned v[2]; for(int j=0;j<2;j++){ size_t q=c+j; unsigned acc; switch(A_mode){ case 0: acc=(long)q>=var; break; case 1: acc=(q%(var+2))!=0; break; case 2: acc=(q%(var+1))==0; break; case 3: acc=((q/(var+1))&1); break; case 4: acc=(mc_hash2(var,q)%100)<(var%2?81u:60u); break; default: { /* an 8-candidate mask in group g, everything else accepted */ int g=(var>>8)%32; acc= (int)(q/8)%32==g ? (var>>(q%8))&1 : 1; } } v[j]= acc? (unsigned)((q*37+s[32]*5+s[33])%3329) : (q%5==0?4095u:3329+(unsigned)(q%767)); } out[i]= w==0? v[0] : w==1? (v[0]>>8)|(v[1]<<4) : v[1]>>4; } }
static void u_acc(long u){ kyber*k=&KY[u%6]; int K=k->K; long r=u/6; f_reset(K); A_mode=r%6; A_par=r/6; fake_xof=a_xof; uint8_t c[64]; mc_fill(c,64,u); F_N[0][0][3]=1; F_N[0][K-1][200]=-1; F_phase=0; kp(k,c,CTX("acceptance mode %d parameter %ld",A_mode,A_par)); fake_off(); mc_count("acceptance patterns",1); }
/* hash functions of the configuration */
typedef void (*fH)(uint8_t*,const uint8_t*,size_t); typedef void (*fS)(uint8_t*,size_t,const uint8_t*,size_t); typedef void (*fX)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t);
static void u_hash(long u){ int a=u%2; long n=u/2; static uint8_t in[1024],o[4][700],w[700]; mc_fill(in,1024,4); fH h; fS s; size_t on=(n*7)%600; 
#define CH(c,len,name) if(memcmp(o[0],w,len)) mc_fail("%s %s differs for %ld input bytes at byte %ld",a?"avx2":"ref",name,n,first_diff(o[0],w,len))
  h=(fH)fsym(a,"sha3_256"); h(o[0],in,n); spec_sha3_256(w,in,n); CH(0,32,"sha3_256"); h=(fH)fsym(a,"sha3_512"); h(o[0],in,n); spec_sha3_512(w,in,n); CH(0,64,"sha3_512"); s=(fS)fsym(a,"shake128"); s(o[0],on,in,n); spec_shake128(w,on,in,n); CH(0,on,"shake128"); s=(fS)fsym(a,"shake256"); s(o[0],on,in,n); spec_shake256(w,on,in,n); CH(0,on,"shake256"); mc_trans(4);
  if(a) for(int v=0;v<2;v++){ fX x=(fX)xsym(v?"shake256x4":"shake128x4"); x(o[0],o[1],o[2],o[3],on,in,in+1,in+5,in+400,n); const uint8_t*m[4]={in,in+1,in+5,in+400}; for(int j=0;j<4;j++){ (v?spec_shake256:spec_shake128)(w,on,m[j],n); if(memcmp(o[j],w,on)) mc_fail("avx2 %s lane %d differs for %ld input bytes at byte %ld",v?"shake256x4":"shake128x4",j,n,first_diff(o[j],w,on)); } mc_trans(1); } mc_trace(1); mc_state(mc_hash2(u,77)); }
int main(int argc,char**argv){ mc_init(argc,argv,"C19"); if(libs_load()) return 2; orc_init(); int full=mc_thorough||!strcmp(mc_arg,"full");
  mc_units("real",u_real,6*(mc_thorough?200:24)); mc_units("patterns",u_pat,6*NEV*NEV*(mc_thorough?3:1)); mc_units("chosen",u_fake,6*(mc_thorough?NMP*NNP:NMP*2)); mc_units("acceptance",u_acc,6*(full?6*400:6*40)); mc_units("hash",u_hash,2*(full?601:350)); return mc_run(); }
