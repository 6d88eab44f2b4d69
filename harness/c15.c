/* C15: results depend on the arguments alone.
 * State = writable memory of the libraries (data segments and thread-local
 * storage).  Operations over an alphabet of near-colliding arguments are
 * explored from every reached state; when no operation leaves the initial
 * state, the reachable state space is closed with one element. */
#define _GNU_SOURCE
#include "libs.h"
#include "util.h"
#include "snap.h"
#include <alloca.h>
#include <dlfcn.h>
/* ---- library state ---- */
static segs SG[10]; static int nSG; static struct { uint8_t *p; size_t n; } R[80]; static int nR; static uint8_t *SAVE[80]; static size_t statebytes;
static void st_init(void){ void *hs[9]={H_fips_ref,H_fips_avx,H_x4}; for(int i=0;i<6;i++) hs[3+i]=KY[i].h; for(int i=0;i<9;i++) if(!snap_segs(hs[i],&SG[nSG])){ segs*s=&SG[nSG++]; for(int j=0;j<s->n;j++){ R[nR].p=s->s[j].p; R[nR].n=s->s[j].n; nR++; } if(s->tls){ void*t=NULL; if(!dlinfo(hs[i],RTLD_DI_TLS_DATA,&t)&&t){ R[nR].p=t; R[nR].n=s->tlssz; nR++; } } } for(int i=0;i<nR;i++){ SAVE[i]=malloc(R[i].n); memcpy(SAVE[i],R[i].p,R[i].n); statebytes+=R[i].n; } }
static void st_restore(void){ for(int i=0;i<nR;i++) if(memcmp(R[i].p,SAVE[i],R[i].n)) memcpy(R[i].p,SAVE[i],R[i].n); }
static uint64_t st_hash(void){ uint64_t h=1; for(int i=0;i<nR;i++) h=mc_hash2(h,mc_hash(R[i].p,R[i].n)); return h; }
/* ---- alphabet ---- */
enum { KP, KPR, ENC, ENCR, DEC, H256, H512, S128, S256, X128, X256, INC };
typedef struct { int kind,a,b; char nm[96]; uint8_t out[6400]; size_t on; } op;
#define NCO 8
#define NPK 7
#define NSK 8
#define NCT 7
static uint8_t CO[NCO][64],PKS[NPK][1568],SKS[NSK][3168],CTS[NCT][1568]; static uint8_t MSG[6][800]; static const char *COn[NCO]={"base","bit 0 flipped","byte 31 changed","byte 32 changed","byte 63 changed","zero","halves swapped","ones"},*PKn[NPK]={"base","last byte (seed) changed","first seed byte changed","first coefficient changed","last coefficient changed","other key","first 32 bytes changed"},*SKn[NSK]={"base","rejection value changed","rejection value's last byte changed","first coefficient changed","last coefficient changed","stored hash changed","embedded key's seed changed","other key"},*CTn[NCT]={"base","first byte","last byte","middle byte","first byte of the second part","other ciphertext","zero"};
static op OPS[200]; static int nOPS; static kyber *KK;
static uint8_t *RC; static size_t RP; static void hk(uint8_t*o,size_t n){ for(size_t i=0;i<n;i++) o[i]=RC[RP++&63]; }
/* two buffer sets: 0 everything at one fixed address; 1 every argument at its own address */
static uint8_t A_co[64],A_pk[1568],A_sk[3168],A_ct[1568],A_ms[800]; static uint8_t OUT[6400+64] __attribute__((aligned(64)));
static void *loc(int mode,void*fixed,void*own,size_t n){ if(mode) return own; memcpy(fixed,own,n); return fixed; }
static void call(op*o,int mode,uint8_t*out){ kyber*k=KK; int K=k->K; (void)K; switch(o->kind){
  case KP: k->keypair_derand(out,out+k->pkb,loc(mode,A_co,CO[o->a],64)); break;
  case KPR: RC=CO[o->a]; RP=0; k->keypair(out,out+k->pkb); break;
  case ENC: k->enc_derand(out,out+k->ctb,loc(mode,A_pk,PKS[o->a],k->pkb),loc(mode,A_co,CO[o->b],64)); break;
  case ENCR: RC=CO[o->b]; RP=0; k->enc(out,out+k->ctb,loc(mode,A_pk,PKS[o->a],k->pkb)); break;
  case DEC: k->dec(out,loc(mode,A_ct,CTS[o->a],k->ctb),loc(mode,A_sk,SKS[o->b],k->skb)); break;
  case H256: case H512: ((void(*)(uint8_t*,const uint8_t*,size_t))fsym(k->avx,o->kind==H256?"sha3_256":"sha3_512"))(out,loc(mode,A_ms,MSG[o->a],800),o->b); break;
  case S128: case S256: ((void(*)(uint8_t*,size_t,const uint8_t*,size_t))fsym(k->avx,o->kind==S128?"shake128":"shake256"))(out,o->on,loc(mode,A_ms,MSG[o->a],800),o->b); break;
  case X128: case X256: ((void(*)(uint8_t*,uint8_t*,uint8_t*,uint8_t*,size_t,const uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*,size_t))xsym(o->kind==X128?"shake128x4":"shake256x4"))(out,out+o->on/4,out+o->on/2,out+3*o->on/4,o->on/4,loc(mode,A_ms,MSG[o->a],800),MSG[(o->a+1)%4],MSG[(o->a+2)%4],MSG[(o->a+1)%4],o->b); break; } }
static void want(op*o){ kyber*k=KK; switch(o->kind){
  case KP: case KPR: spec_keypair(k->K,CO[o->a],o->out,o->out+k->pkb); o->on=k->pkb+k->skb; snprintf(o->nm,96,"keypair%s(%s)",o->kind==KP?"_derand":"",COn[o->a]); break;
  case ENC: case ENCR: spec_enc(k->K,PKS[o->a],CO[o->b],o->out,o->out+k->ctb); o->on=k->ctb+32; snprintf(o->nm,96,"enc%s(pk %s, coins %s)",o->kind==ENC?"_derand":"",PKn[o->a],COn[o->b]); break;
  case DEC: spec_dec(k->K,SKS[o->b],CTS[o->a],o->out); o->on=32; snprintf(o->nm,96,"dec(ct %s, sk %s)",CTn[o->a],SKn[o->b]); break;
  case H256: spec_sha3_256(o->out,MSG[o->a],o->b); o->on=32; snprintf(o->nm,96,"sha3_256(message %d, %d bytes)",o->a,o->b); break;
  case H512: spec_sha3_512(o->out,MSG[o->a],o->b); o->on=64; snprintf(o->nm,96,"sha3_512(message %d, %d bytes)",o->a,o->b); break;
  case S128: case S256: o->on=400; (o->kind==S128?spec_shake128:spec_shake256)(o->out,400,MSG[o->a],o->b); snprintf(o->nm,96,"shake%d(message %d, %d bytes)",o->kind==S128?128:256,o->a,o->b); break;
  case X128: case X256: { o->on=1400; int m[4]={o->a,(o->a+1)%4,(o->a+2)%4,(o->a+1)%4}; for(int j=0;j<4;j++) (o->kind==X128?spec_shake128:spec_shake256)(o->out+350*j,350,MSG[m[j]],o->b); snprintf(o->nm,96,"shake%dx4(message %d, %d bytes)",o->kind==X128?128:256,o->a,o->b); break; } } }
static void addop(int kind,int a,int b){ op*o=&OPS[nOPS++]; o->kind=kind; o->a=a; o->b=b; want(o); }
static int loaded=-1;
static void load(int im){ if(loaded==im) return; loaded=im; nOPS=0; KK=&KY[im]; kyber*k=KK; int K=k->K; rnd_hook=hk; mc_fill(CO[0],64,90); for(int i=1;i<NCO;i++) memcpy(CO[i],CO[0],64); CO[1][0]^=1; CO[2][31]^=0x80; CO[3][32]^=1; CO[4][63]^=0x80; memset(CO[5],0,64); memcpy(CO[6],CO[0]+32,32); memcpy(CO[6]+32,CO[0],32); memset(CO[7],0xff,64);
  kset h,h2; honest(K,5,&h); honest(K,6,&h2); for(int i=0;i<NPK;i++) memcpy(PKS[i],i==5?h2.pk:h.pk,k->pkb); PKS[1][k->pkb-1]^=1; PKS[2][k->pkb-32]^=0x80; PKS[3][0]^=1; set12(PKS[4],256*K-1,(get12(PKS[4],256*K-1)+1)%3329); for(int i=0;i<32;i++) PKS[6][i]=(uint8_t)mc_hash2(i,3)&0x77;
  for(int i=0;i<NSK;i++) memcpy(SKS[i],i==7?h2.sk:h.sk,k->skb); SKS[1][k->skb-32]^=1; SKS[2][k->skb-1]^=0x80; set12(SKS[3],0,(get12(SKS[3],0)+1)%3329); set12(SKS[4],256*K-1,(get12(SKS[4],256*K-1)+1000)%3329); SKS[5][k->skb-64]^=1; SKS[6][768*K+31]^=1;
  for(int i=0;i<NCT;i++) memcpy(CTS[i],i==5?h2.ct:h.ct,k->ctb); CTS[1][0]^=1; CTS[2][k->ctb-1]^=0x80; CTS[3][k->ctb/2]^=1; CTS[4][32*spec_du(K)*K]^=1; memset(CTS[6],0,k->ctb);
  for(int i=0;i<6;i++) mc_fill(MSG[i],800,40); MSG[1][0]^=1; MSG[2][33]^=1; MSG[3][31]^=1; MSG[4][135]^=1; MSG[5][700]^=1; }
/* alphabet 0: everything; 1: a core used at greater depth */
static void alphabet(int im,int core){ load(im); nOPS=0; for(int i=0;i<NCO;i++) if(!core||i==0||i==1||i==3||i==4) addop(KP,i,0); for(int i=0;i<(core?2:4);i++) addop(KPR,i*3%NCO,0); for(int i=0;i<NPK;i++) if(!core||i<3) addop(ENC,i,0); for(int j=1;j<(core?2:NCO);j++) addop(ENC,0,j); if(!core){ addop(ENCR,0,0); addop(ENCR,0,1); addop(ENCR,3,0); } for(int i=0;i<NCT;i++) if(!core||i<3) addop(DEC,i,0); for(int j=1;j<NSK;j++) if(!core||j==1||j==5) addop(DEC,0,j); if(!core){ addop(DEC,1,1); addop(DEC,2,2); addop(DEC,5,7); }
  if(!core){ static const int ln[]={0,32,33,64,135,136,137,168,200}; for(int i=0;i<6;i++){ addop(H256,i,i==0?200:i==5?800:ln[i+1]); addop(S256,i,ln[i]); addop(S128,i,ln[8-i]); } addop(H512,0,32); addop(H512,1,32); addop(H512,0,33); addop(H512,3,64); if(KK->avx){ for(int i=0;i<4;i++){ addop(X128,i,34); addop(X256,i,33); } addop(X128,0,168); addop(X256,0,300); addop(X128,0,0); } } }
static void __attribute__((noinline)) check(op*o,int mode,const char*after){ memset(OUT,0xb7,o->on+64); call(o,mode,OUT); if(memcmp(OUT,o->out,o->on)){ long d=first_diff(OUT,o->out,o->on); mc_fail("%s: %s after [%s]: result differs from the function of its arguments at byte %ld: got %s want %s",KK->name,o->nm,after,d,mc_hexs(OUT+d,o->on-d<32?o->on-d:32),mc_hexs(o->out+d,o->on-d<32?o->on-d:32)); } mc_trans(1); }
static uint64_t H0; static char AF[600];
static void dirty(uint64_t h,const char*nm){ if(h!=H0){ mc_count("operations leaving library memory changed",1); (void)nm; } }
/* depth 2 over the whole alphabet, both address modes */
static void u_pair(long u){ int im=u%6; long c=u/6; alphabet(im,0); if(c>=nOPS) return; if(!H0){ st_restore(); H0=st_hash(); mc_state(H0); } for(int mode=0;mode<2;mode++){ for(int j=0;j<nOPS;j++){ st_restore(); check(&OPS[c],mode,"nothing"); uint64_t h=st_hash(); mc_state(h); dirty(h,OPS[c].nm); snprintf(AF,600,"%s",OPS[c].nm); check(&OPS[j],mode,AF); check(&OPS[c],!mode,"itself and another"); mc_trace(1); } } mc_count("pairs of operations",2*nOPS); }
/* depth 4/5 over the core alphabet */
static void u_deep(long u){ int im=u%6; long c=u/6; alphabet(im,1); int n=nOPS; if(c>=n*n) return; int a=c%n,b=c/n; for(int x=0;x<n;x++) for(int y=0;y<(mc_thorough?n:1);y++){ int q[4]={a,b,x,mc_thorough?y:(a*5+b*3+x)%n}; int mode=(a+b+x)&1; st_restore(); AF[0]=0; for(int i=0;i<4;i++){ check(&OPS[q[i]],mode,AF); if(i<3){ strncat(AF,OPS[q[i]].nm,sizeof AF-strlen(AF)-1); strncat(AF,"; ",sizeof AF-strlen(AF)-1); } } mc_state(st_hash()); mc_trace(1); } mc_count("call sequences of depth 4",n*(mc_thorough?n:1)); }
/* long runs: the same call many times, then the others (counters, wear) */
static void u_rep(long u){ int im=u%6; long c=u/6; alphabet(im,1); if(c>=nOPS) return; st_restore(); int reps=!strcmp(mc_arg,"long")?66000:mc_thorough?3000:300; for(int i=0;i<reps;i++){ if(i<300||i%256<3) snprintf(AF,600,"%d times itself",i); check(&OPS[c],i&1,AF); } for(int j=0;j<nOPS;j++){ snprintf(AF,600,"%d times %s",reps,OPS[c].nm); check(&OPS[j],0,AF); } mc_state(st_hash()); mc_trace(1); }
/* ---- leftovers: stack, registers, output contents ---- */
static void paint_regs(int v){ static uint8_t pat[32] __attribute__((aligned(32))); if(v<0) return; for(int i=0;i<32;i++) pat[i]= v==256?(uint8_t)(i*37+1):(uint8_t)v; 
  __asm__ volatile("vmovdqa %0,%%ymm0\n vmovdqa %0,%%ymm1\n vmovdqa %0,%%ymm2\n vmovdqa %0,%%ymm3\n vmovdqa %0,%%ymm4\n vmovdqa %0,%%ymm5\n vmovdqa %0,%%ymm6\n vmovdqa %0,%%ymm7\n vmovdqa %0,%%ymm8\n vmovdqa %0,%%ymm9\n vmovdqa %0,%%ymm10\n vmovdqa %0,%%ymm11\n vmovdqa %0,%%ymm12\n vmovdqa %0,%%ymm13\n vmovdqa %0,%%ymm14\n vmovdqa %0,%%ymm15"::"m"(*(char(*)[32])pat):"memory"); }
static void __attribute__((noinline)) paint(size_t n,int v){ volatile uint8_t*b=alloca(n); uint64_t s=0; if(v==256) mc_fill((void*)b,n,mc_hash2(n,s)); else if(v==257) for(size_t i=0;i<n;i++) b[i]=(i&1)?0x0d:0x01; else memset((void*)b,v,n); __asm__ volatile(""::"r"(b):"memory"); }
static void __attribute__((noinline)) shifted(op*o,int mode,size_t sh,int v){ volatile uint8_t*b=alloca(sh+16); b[0]=1; paint(160*1024,v); paint_regs(v>256?1:v); call(o,mode,OUT); }
static const int PV[]={0,0xff,0xaa,0x55,0x01,0x80,256,257,0x7f,0x0d};
static void u_left(long u){ int im=u%6; long c=u/6; alphabet(im,0); if(c>=nOPS) return; op*o=&OPS[c]; for(int v=0;v<10;v++) for(int w=0;w<4;w++) for(int sh=0;sh<64;sh+=16){ st_restore(); static const int ov[]={0,0xff,0x5a,256}; if(ov[w]==256) mc_fill(OUT,o->on,v*64+sh); else memset(OUT,ov[w],o->on); shifted(o,0,sh,PV[v]); if(memcmp(OUT,o->out,o->on)){ long d=first_diff(OUT,o->out,o->on); mc_fail("%s: %s: result depends on leftover memory (stack and vector registers filled with %d, outputs with %d, stack shifted by %d): byte %ld",KK->name,o->nm,PV[v],ov[w],sh,d); } mc_trans(1); mc_state(mc_hash2(mc_hash2(v,w),sh)); } mc_trace(1); mc_count("leftover contents x operations",10*4*4); }
/* ---- independent incremental hash states interleaved in every way ---- */
static void u_inter(long u){ int av=u%2,al=u/2%2; long c=u/4; char b[64]; void(*init)(void*),(*ab)(void*,const uint8_t*,size_t),(*fin)(void*),(*sq)(uint8_t*,size_t,void*);
#define S(f,n) snprintf(b,64,"shake%d_" n,al?256:128); *(void**)&f=fsym(av,b); if(!f){ mc_note("%s not exported",b); return; }
  S(init,"init") S(ab,"absorb") S(fin,"finalize") S(sq,"squeeze")
  load(0); static const int L[][3]={{0,1,33},{135,1,136},{168,32,7},{136,136,8},{167,2,168},{5,300,200}}; int la=c%6,lb=c/6%6; uint8_t w[2][500]; uint8_t cat[2][800]; for(int i=0;i<2;i++){ const int*l=L[i?lb:la]; memcpy(cat[i],MSG[i],800); (al?spec_shake256:spec_shake128)(w[i],500,cat[i],l[0]+l[1]); }
  for(int m=0;m<4096;m++) if(__builtin_popcount(m)==6){ uint8_t st[2][512] __attribute__((aligned(64))); memset(st,0x33,sizeof st); int pc[2]={0,0}; uint8_t o[2][500]; for(int s=0;s<12;s++){ int i=m>>s&1; const int*l=L[i?lb:la]; switch(pc[i]++){ case 0: init(st[i]); break; case 1: ab(st[i],cat[i],l[0]); break; case 2: ab(st[i],cat[i]+l[0],l[1]); break; case 3: fin(st[i]); break; case 4: sq(o[i],l[2],st[i]); break; case 5: sq(o[i]+l[2],200,st[i]); break; } } for(int i=0;i<2;i++){ const int*l=L[i?lb:la]; if(memcmp(o[i],w[i],l[2]+200)) mc_fail("%s shake%d: two incremental hashes interleaved in order %03x disturb each other (hash %d, pieces %d+%d, %d)",av?"avx2":"ref",al?256:128,m,i,l[0],l[1],l[2]); } mc_trans(12); mc_trace(1); } mc_count("interleavings of two incremental hashes",924); mc_state(mc_hash2(u,0xc155)); }
/* a copied state continues independently */
static void u_basic(long u){ int im=u%6; alphabet(im,0); for(int i=0;i<nOPS;i++) check(&OPS[i],u/6,"nothing (another build)"); mc_trace(nOPS); mc_state(mc_hash2(u,0xc156)); }
int main(int argc,char **argv){ mc_init(argc,argv,"C15"); if(libs_load()) return 2; st_init(); mc_count("bytes of library state tracked",statebytes);
  if(!strcmp(mc_arg,"long")){ mc_set_timeout(600); mc_units("long-repetition",u_rep,6*14); return mc_run(); }
  if(!strcmp(mc_arg,"basic")){ mc_units("alphabet",u_basic,12); mc_units("leftovers",u_left,6*80); return mc_run(); }
  mc_units("pairs",u_pair,6*80); mc_units("depth-4",u_deep,6*14*14); mc_units("repetition",u_rep,6*14); mc_units("leftovers",u_left,6*80); mc_units("interleaved-hashes",u_inter,4*36);
  return mc_run(); }
