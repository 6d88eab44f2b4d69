/* C12: execution traces (instructions, addresses, division operands) of the
 * compiled libraries for enumerated secrets with the public data held fixed.
 * Runs under the mct Valgrind tool. */
#define _GNU_SOURCE
#include "fakes.h"
#include "mct.h"
#include <dlfcn.h>
#include <link.h>
extern char __executable_start, etext;
static int divonly,light;                     /* --arg div: only division operands (size-optimised builds) */
static char CTXB[600];
static void edge(int in){ if(in) mct_req(MCT_PAUSE,0,0); else mct_req(MCT_RESUME,0,0); }
static const char *where(unsigned long long pc){ static char b[4][300]; static int r; char *o=b[r++&3]; Dl_info i; memset(&i,0,sizeof i); if(dladdr((void*)pc,&i)&&i.dli_fname){ const char *f=strrchr(i.dli_fname,'/'); snprintf(o,300,"%s:%s+0x%llx (offset 0x%llx)",f?f+1:i.dli_fname,i.dli_sname?i.dli_sname:"?",pc-(unsigned long long)(i.dli_saddr?i.dli_saddr:i.dli_fbase),pc-(unsigned long long)i.dli_fbase); } else snprintf(o,300,"%llx",pc); return o; }
static const char *evs(unsigned long long e){ static char b[4][400]; static int r; char *o=b[r++&3]; unsigned long long a=e&0xffffffffffffull; switch(e>>60){ case 1: snprintf(o,400,"instruction at %s",where(a)); break; case 2: snprintf(o,400,"load of %d bytes at %llx",(int)(e>>48&0xff),a); break; case 3: snprintf(o,400,"store of %d bytes at %llx",(int)(e>>48&0xff),a); break; case 4: snprintf(o,400,"division with operand hash %llx",a); break; default: snprintf(o,400,"end of the call"); } return o; }
/* one sweep: prep(i) chooses the i-th secret, run() is traced */
typedef void (*prepfn)(kyber*,long); typedef void (*runfn)(kyber*);
static MctDiff DI;
static __attribute__((noinline)) void traced(runfn r,kyber*k,int cmp){ mct_req(cmp?MCT_COMPARE:MCT_RECORD,0,0); r(k); mct_req(MCT_END,&DI,0); }
static void sweep(kyber*k,const char*what,prepfn p,runfn r,long base,long lo,long hi){
  long st=light&&hi-lo>24?(hi-lo)/24:1; /* in the division-only builds the quick tier takes every st-th secret */
  p(k,base); traced(r,k,0); p(k,base); traced(r,k,0); /* the second run has every lazy binding and cache line decision behind it */
  long ev=0,tot=0; for(long i=lo;i<hi;i+=st){ p(k,i); mc_ctx("%s %s secret %ld",k?k->name:"hash",what,i); traced(r,k,1); ev+=DI.events; tot+=DI.total; mc_trans(1); mc_state(mc_hash2(mc_hash(what,strlen(what)),mc_hash2(i,(uintptr_t)(k?k-KY:9))));
    if(DI.differs){ char h[900]=""; for(int j=DI.n-1;j>=0;j--){ strncat(h,"\n    ",sizeof h-strlen(h)-1); strncat(h,evs(DI.before[j]),sizeof h-strlen(h)-1); } mc_fail("%s %s: the execution depends on the secret: secret #%ld [%s] against #%ld; event %lu: %s, before: %s; near %s; preceding events:%s",k?k->name:"hash",what,i,CTXB,base,DI.at,evs(DI.got),evs(DI.want),where(DI.pc),h); } }
  mc_count(divonly?"division-operand traces compared":"traces compared",(hi-lo+st-1)/st); mc_count("events compared",ev); mc_count("instructions executed under observation",tot); if(divonly) mc_count("divisions observed",DI.divs); mc_trace((hi-lo+st-1)/st); }
/* ---- alphabets ---- */
static void s32(uint8_t*o,long i){ if(i==0) memset(o,0,32); else if(i==1) memset(o,0xff,32); else if(i<2+256){ memset(o,(int)(i-2),32); } else if(i<258+512){ long b=i-258; memset(o,b&1?0xff:0,32); o[b>>4]^=1<<(b>>1&7); } else mc_fill(o,32,0xc12000+i); snprintf(CTXB,sizeof CTXB,"bytes %s",mc_hexs(o,32)); }
#define NS32 770
static void pickrange(long c,long n,long tot,long*lo,long*hi){ *lo=c*tot/n; *hi=(c+1)*tot/n; }
/* quick tier: a stride through large alphabets is still a fixed enumeration */
static uint8_t PK[1568],SK[3168],CT[1568],SS[32],CO[64],OPK[1568],OSK[3168],OCT[1568],SIG[64],RHO[32];
static void g_fixed(const uint8_t*in,size_t n,uint8_t*o){ (void)in; (void)n; memcpy(o,RHO,32); memcpy(o+32,SIG,32); }
static void g_enc(const uint8_t*in,size_t n,uint8_t*o){ (void)in; (void)n; memcpy(o,SIG,64); }
static uint8_t RAW[9][192]; static void raw_prf(const uint8_t*s,uint8_t*o,size_t n,size_t off){ int nn=s[32]<9?s[32]:8; for(size_t i=0;i<n;i++) o[i]=RAW[nn][(off+i)%192]; }
static int quickxof; static void x_fix(const uint8_t*s,uint8_t*o,size_t n,size_t off){ for(size_t i=0;i<n;i++){ uint64_t h=(off+i)*0x9E3779B97F4A7C15ull^(s[32]*31+s[33]*7); o[i]=(uint8_t)(h>>40); } }
static void on(void){ fake_on(); fake_xof=x_fix; fake_prf=raw_prf; (void)quickxof; }
/* A: key generation, sigma/z/d arbitrary, rho fixed, real noise derivation through the model */
static void r_kp(kyber*k){ k->keypair_derand(OPK,OSK,CO); }
static void p_kpz(kyber*k,long i){ (void)k; fake_off(); mc_fill(CO,32,7); s32(CO+32,i); }                /* everything real; only z differs */
static void p_kps(kyber*k,long i){ (void)k; fake_on(); fake_xof=x_fix; fake_prf=NULL; fake_g=g_fixed; memset(RHO,0x42,32); s32(SIG,i); s32(CO,i); s32(CO+32,i); }
static void noise(long i){ memset(RAW,0,sizeof RAW); if(i<256) memset(RAW,(int)i,sizeof RAW); else if(i<256+9*192){ long q=i-256; RAW[q/192][q%192]=(uint8_t)(1+(q*37)%255); } else mc_fill(RAW,sizeof RAW,i); snprintf(CTXB,sizeof CTXB,"noise pattern %ld",i); }
#define NNOISE (256+9*192+64)
static void p_kpn(kyber*k,long i){ (void)k; on(); fake_g=g_fixed; memset(RHO,0x42,32); noise(i); memset(CO,(int)i,64); }
static void u_kp(long u){ kyber*k=&KY[u%6]; long c=u/6,lo,hi; if(c<2){ pickrange(c,2,mc_thorough?NS32:140,&lo,&hi); sweep(k,"key generation (z)",p_kpz,r_kp,3,lo,hi); sweep(k,"key generation (seed)",p_kps,r_kp,3,lo,hi); } else { long n=mc_thorough?NNOISE:NNOISE; pickrange(c-2,6,n,&lo,&hi); sweep(k,"key generation (noise)",p_kpn,r_kp,700,lo,hi); } fake_off(); }
/* C/D: encapsulation */
static void r_enc(kyber*k){ k->enc_derand(OCT,SS,PK,CO); }
static kset HS; static int pkkind; static void setpk(kyber*k){ honest(k->K,5,&HS); memcpy(PK,HS.pk,k->pkb); if(pkkind==1) for(size_t i=0;i<384u*k->K;i++) PK[i]=0xff; }
static void p_enc(kyber*k,long i){ (void)k; fake_off(); s32(CO,i); }
static void p_encn(kyber*k,long i){ (void)k; on(); fake_g=g_enc; noise(i); if(i<256) memset(CO,(int)i,32); else { memset(CO,0,32); CO[i&31]=(uint8_t)(i>>5); } mc_fill(SIG,64,i); }
static void u_enc(long u){ kyber*k=&KY[u%6]; long c=u/6,lo,hi; pkkind=c&1; setpk(k); if(c<4){ pickrange(c/2,2,mc_thorough?NS32:mc_thorough?NS32:140,&lo,&hi); sweep(k,"encapsulation (message)",p_enc,r_enc,3,lo,hi); } else { pickrange((c-4)/2,4,NNOISE,&lo,&hi); sweep(k,"encapsulation (noise and message)",p_encn,r_enc,700,lo,hi); } fake_off(); }
/* E: decapsulation with everything real: accepting, rejecting, arbitrary secret keys */
static void r_dec(kyber*k){ k->dec(SS,CT,SK); }
static int ctkind; 
static void p_dec(kyber*k,long i){ fake_off(); int K=k->K; memcpy(SK,HS.sk,k->skb); uint8_t*z=SK+k->skb-32,*h=SK+k->skb-64; snprintf(CTXB,sizeof CTXB,"secret-key variation %ld",i); if(i==0) return; /* honest */
  if(i<100){ long f=i*7%(256*K); set12(SK,f,(get12(SK,f)+1+i*31)%3329); return; }          /* one coefficient: usually still decrypts, or rejects */
  if(i<200){ long q=i-100; for(int j=0;j<256*K;j++) set12(SK,j,(unsigned)(q<60?q*3328/59:(q*j*13+q)%3329)); return; }
  if(i<232){ h[i-200]^=1<<(i&7); return; }                                                      /* rejects: another key derivation */
  if(i<264){ z[i-232]^=1<<(i&7); return; }
  if(i<280){ for(int j=0;j<256*K;j++) set12(SK,j,(get12(SK,j)+3329-(unsigned)(i-264)*200)%3329); return; }
  if(i<290){ for(int j=0;j<384*K;j++) SK[j]=(uint8_t)(i==280?0xff:mc_hash2(i,j)); return; }
  mc_fill(SK,384*K,i); mc_fill(z,32,i+1); for(int j=0;j<256*K;j++) set12(SK,j,get12(SK,j)%3329); }
#define NDEC 320
static void u_dec(long u){ kyber*k=&KY[u%6]; long c=u/6,lo,hi; honest(k->K,5,&HS); memcpy(CT,HS.ct,k->ctb); int kind=c/3; if(kind==1) CT[c%3==0?0:c%3==1?k->ctb-1:k->ctb/2]^=4; else if(kind==2) mc_fill(CT,k->ctb,9); pickrange(c%3,3,NDEC,&lo,&hi); sweep(k,kind?"decapsulation (altered ciphertext)":"decapsulation (honest ciphertext)",p_dec,r_dec,kind==1?0:1,lo,hi); }
/* F: decapsulation with the comparison steered: the re-encryption differs in one noise coefficient, or not at all */
static void p_decf(kyber*k,long i){ on(); fake_g=g_enc; memcpy(SK,HS.sk,k->skb); memset(RAW,0,sizeof RAW); mc_fill(SIG,64,1); mc_fill(RAW,sizeof RAW,77); if(i>0){ long q=i-1; int n=64*spec_eta1(k->K); long nn=q/192%9; RAW[nn][q%192]^=(uint8_t)(1<<(q*3%8)); (void)n; } snprintf(CTXB,sizeof CTXB,i?"re-encryption noise changed in polynomial %ld byte %ld":"re-encryption equal",(i-1)/192%9,(i-1)%192); }
static void mkct(kyber*k){ on(); fake_g=g_fixed; memset(RHO,0x42,32); mc_fill(SIG,64,1); mc_fill(RAW,sizeof RAW,76); memset(CO,0x3c,64); k->keypair_derand(HS.pk,HS.sk,CO); fake_g=g_enc; mc_fill(RAW,sizeof RAW,77); k->enc_derand(CT,SS,HS.pk,CO); }
static void u_decf(long u){ kyber*k=&KY[u%6]; long c=u/6,lo,hi; mkct(k); p_decf(k,0); pickrange(c,4,1+192*9,&lo,&hi); sweep(k,"decapsulation (re-encryption comparison)",p_decf,r_dec,0,lo,hi); p_decf(k,0); k->dec(SS,CT,SK); uint8_t s0[32]; memcpy(s0,SS,32); p_decf(k,1); k->dec(SS,CT,SK); mc_count("accept/reject pairs observed",memcmp(SS,s0,32)!=0); fake_off(); }
/* I: randomised entry points */
static void hk(uint8_t*o,size_t n){ edge(1); for(size_t i=0;i<n;i++) o[i]=CO[i&63]; edge(0); }
static void r_kpr(kyber*k){ k->keypair(OPK,OSK); } static void r_encr(kyber*k){ k->enc(OCT,SS,PK); }
static void p_kpr(kyber*k,long i){ p_kps(k,i); } static void p_encr(kyber*k,long i){ fake_off(); s32(CO,i); s32(CO+32,i); (void)k; }
static void u_rnd(long u){ kyber*k=&KY[u%6]; long c=u/6,lo,hi; rnd_hook=hk; pkkind=0; setpk(k); pickrange(c,2,mc_thorough?NS32:80,&lo,&hi); sweep(k,"randomised key generation",p_kpr,r_kpr,3,lo,hi); sweep(k,"randomised encapsulation",p_encr,r_encr,3,lo,hi); fake_off(); }
/* G: internal routines over whole value ranges, where the tree exports them */
static ipoly P1,P2,P3; static ipoly PV[4]; static uint8_t B1[2048] __attribute__((aligned(64))),B2[2048] __attribute__((aligned(64))); static size_t LEN; static uint8_t FLAG; static void *FN; static uint16_t ACC16[1024] __attribute__((aligned(64)));
static void r_b_p(kyber*k){ ((void(*)(void*,void*))FN)(B1,&P1); } static void r_p_b(kyber*k){ ((void(*)(void*,void*))FN)(&P1,B1); }
static void r_p(kyber*k){ ((void(*)(void*))FN)(&P1); } static void r_ppp(kyber*k){ ((void(*)(void*,void*,void*))FN)(&P3,&P1,&P2); } static void r_b_v(kyber*k){ ((void(*)(void*,void*))FN)(B1,PV); } static void r_v(kyber*k){ ((void(*)(void*))FN)(PV); }
static void r_pvv(kyber*k){ ((void(*)(void*,void*,void*))FN)(&P3,PV,PV); }
static void p_all(kyber*k,long v){ for(int i=0;i<256;i++){ P1.c[i]=P2.c[i]=(int16_t)v; for(int j=0;j<4;j++) PV[j].c[i]=(int16_t)v; } snprintf(CTXB,sizeof CTXB,"all coefficients %ld",v); }
static void p_pos(kyber*k,long i){ p_all(k,100); P1.c[i%256]=P2.c[i%256]=PV[0].c[i%256]=(int16_t)(i/256*1664); snprintf(CTXB,sizeof CTXB,"coefficient %ld is %ld",i%256,i/256*1664); }
static void p_bytes(kyber*k,long v){ if(v<256) memset(B1,(int)v,sizeof B1); else { memset(B1,(v&1)?0xff:0,sizeof B1); long q=(v-256); B1[q/8%400]^=1<<(q%8); } memset(B1+192,0,0); snprintf(CTXB,sizeof CTXB,"byte pattern %ld",v); }
static void fnsweep(kyber*k,const char*nm,runfn r,int bytes){ FN=ksym(k,nm); if(!FN){ mc_note("%s %s not exported",k->name,nm); return; } memset(&P2,0,sizeof P2); if(bytes){ p_bytes(k,0); sweep(k,nm,p_bytes,r,0,0,256+(mc_thorough?3200:800)); } else { sweep(k,nm,p_all,r,1,0,3329); sweep(k,nm,p_pos,r,1,0,256*3); } }
static void u_fn(long u){ kyber*k=&KY[u%6]; switch(u/6){ case 0: fnsweep(k,"poly_tomsg",r_b_p,0); fnsweep(k,"poly_tobytes",r_b_p,0); break; case 1: fnsweep(k,"poly_frommsg",r_p_b,1); fnsweep(k,"poly_frombytes",r_p_b,1); break; case 2: fnsweep(k,"poly_compress",r_b_p,0); break; case 3: fnsweep(k,"polyvec_compress",r_b_v,0); fnsweep(k,"polyvec_tobytes",r_b_v,0); break; case 4: fnsweep(k,"poly_cbd_eta1",r_p_b,1); fnsweep(k,"poly_cbd_eta2",r_p_b,1); break; case 5: fnsweep(k,"poly_reduce",r_p,0); fnsweep(k,"poly_tomont",r_p,0); fnsweep(k,"poly_add",r_ppp,0); fnsweep(k,"poly_sub",r_ppp,0); break; case 6: fnsweep(k,"poly_ntt",r_p,0); break; case 7: fnsweep(k,"poly_invntt_tomont",r_p,0); break; case 8: fnsweep(k,"polyvec_ntt",r_v,0); fnsweep(k,"polyvec_reduce",r_v,0); break; case 9: fnsweep(k,"polyvec_basemul_acc_montgomery",r_pvv,0); fnsweep(k,"poly_basemul_montgomery",r_ppp,0); break; case 10: fnsweep(k,"polyvec_invntt_tomont",r_v,0); break; } }
static void r_ver(kyber*k){ volatile int q=k->verify(B1,B2,LEN); (void)q; } static void r_cm(kyber*k){ k->cmov(B1,B2,LEN,FLAG); } static void r_c16(kyber*k){ k->cmov_int16(&P1.c[0],1665,FLAG); }
static void p_ver(kyber*k,long i){ mc_fill(B1,sizeof B1,1); memcpy(B2,B1,sizeof B1); if(i>0&&i<=(long)LEN) B2[i-1]^=(uint8_t)(1+i*7%255); else if(i>(long)LEN&&i<=(long)LEN+256) for(size_t j=0;j<LEN;j++) B2[j]^=(uint8_t)(i-LEN-1); snprintf(CTXB,sizeof CTXB,"difference pattern %ld of length %zu",i,LEN); }
static void p_cm(kyber*k,long i){ mc_fill(B1,sizeof B1,1); mc_fill(B2,sizeof B2,2+i); FLAG=i&1; P1.c[0]=(int16_t)i; snprintf(CTXB,sizeof CTXB,"flag %d",FLAG); }
static void u_ver(long u){ kyber*k=&KY[u%6]; if(k->verify){ size_t ls[]={0,1,31,32,33,63,64,65,k->ctb}; for(int i=0;i<9;i++){ LEN=ls[i]; if(u/6==i%2) sweep(k,"verify",p_ver,r_ver,0,0,LEN+257); } } if(k->cmov) for(size_t l=0;l<70;l++) if((l&1)==(size_t)(u/6)){ LEN=l; sweep(k,"cmov",p_cm,r_cm,0,0,8); } if(k->cmov_int16) sweep(k,"cmov_int16",p_cm,r_c16,0,0,512); }
/* H: hash functions over secret contents */
static size_t HL,HO; static uint8_t *HI,*HQ[4]; static void *HF; static int hkind;
static void r_h(kyber*k){ (void)k; if(hkind==0) ((void(*)(uint8_t*,const uint8_t*,size_t))HF)(HQ[0],HI,HL); else if(hkind==1) ((void(*)(uint8_t*,size_t,const uint8_t*,size_t))HF)(HQ[0],HO,HI,HL); else ((void(*)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t))HF)(HQ[0],HQ[1],HQ[2],HQ[3],HO,HI,HI+1,HI+2,HI+3,HL); }
static void p_h(kyber*k,long i){ (void)k; if(i<256) memset(HI,(int)i,HL+4); else { memset(HI,0,HL+4); if(HL) HI[(i-256)/8%HL]^=1<<(i&7); } snprintf(CTXB,sizeof CTXB,"message pattern %ld of length %zu",i,HL); }
static void u_hash(long u){ static const size_t ls[]={32,33,34,64,135,136,137,800,1600}; HL=ls[u%9]; HI=malloc(4000); for(int j=0;j<4;j++) HQ[j]=malloc(2000); fake_off(); struct { int av; const char*n; int kind; size_t o; } T[]={{0,"sha3_256",0,0},{0,"sha3_512",0,0},{0,"shake128",1,500},{0,"shake256",1,192},{1,"sha3_256",0,0},{1,"sha3_512",0,0},{1,"shake256",1,32},{2,"shake128x4",2,504},{2,"shake256x4",2,192}}; int q=u/9; HF=T[q].av==2?xsym(T[q].n):fsym(T[q].av,T[q].n); if(!HF){ mc_note("%s not exported",T[q].n); return; } hkind=T[q].kind; HO=T[q].o; char nm[64]; snprintf(nm,64,"%s %s length %zu",T[q].av==0?"ref":"avx2",T[q].n,HL); sweep(NULL,strdup(nm),p_h,r_h,1,0,256+(mc_thorough?800:64)); }
int main(int argc,char**argv){ mc_init(argc,argv,"C12"); divonly=!strcmp(mc_arg,"div"); light=divonly&&!mc_thorough; if(!mct_req(MCT_RUNNING,0,0)){ fprintf(stderr,"not running under the trace tool\n"); return 2; }
  mct_req(MCT_EXCLUDE,&__executable_start,&etext); mct_req(MCT_WHAT,divonly?8:15,0); if(libs_load()) return 2; orc_init(); orc_edge=edge; mc_set_timeout(400);
  mc_units("key generation",u_kp,6*8); mc_units("encapsulation",u_enc,6*12); mc_units("decapsulation",u_dec,6*9); mc_units("re-encryption comparison",u_decf,6*4); mc_units("randomised entry points",u_rnd,6*2);
  if(!divonly||mc_thorough){ mc_units("internal routines",u_fn,6*11); mc_units("verify and cmov",u_ver,6*2); } if(!divonly) mc_units("hash functions",u_hash,9*9);
  return mc_run(); }
