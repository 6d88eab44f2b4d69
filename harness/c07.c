/* C07: arithmetic modulo q: reductions over their whole range, transforms and
 * products on bases, extremal and layer-extremal inputs, judged exactly. */
#include "fakes.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
typedef void (*f1)(ipoly*); typedef void (*f3)(ipoly*,const ipoly*,const ipoly*);
static struct T { int init; f1 reduce,tomont,ntt,invntt; f3 basemul,add,sub; void (*acc)(ipoly*,const ipoly*,const ipoly*); f1 vntt,vinv,vred; void (*frombytes)(ipoly*,const uint8_t*); void (*tobytes)(uint8_t*,const ipoly*); int perm[256]; } T[6];
static const int64_t R16=65536%SQ; static int32_t RINV;
static struct T *get(int u){ struct T *t=&T[u]; kyber *k=&KY[u]; if(t->init) return t; t->init=1; if(!RINV) for(RINV=1;smod((int64_t)RINV*R16)!=1;RINV++);
#define G(f,s) *(void**)&t->f=ksym(k,s); if(!t->f) mc_note("%s: %s not exported, judged through the public API only",k->name,s);
  G(reduce,"poly_reduce") G(tomont,"poly_tomont") G(ntt,"poly_ntt") G(invntt,"poly_invntt_tomont") G(basemul,"poly_basemul_montgomery") G(add,"poly_add") G(sub,"poly_sub") G(acc,"polyvec_basemul_acc_montgomery") G(vntt,"polyvec_ntt") G(vinv,"polyvec_invntt_tomont") G(vred,"polyvec_reduce") G(frombytes,"poly_frombytes") G(tobytes,"poly_tobytes")
  for(int i=0;i<256;i++) t->perm[i]=i; 
  if(t->frombytes){ uint8_t b[384+64]={0}; for(int i=0;i<256;i++) set12(b,i,i+1); ipoly p; t->frombytes(&p,b); int ok=1; char seen[256]={0}; for(int i=0;i<256;i++) if(p.c[i]<1||p.c[i]>256||seen[p.c[i]-1]++) ok=0; if(!ok) mc_fail("%s: unpacking is not a permutation of the fields",k->name); for(int i=0;i<256;i++) t->perm[p.c[i]-1]=i; }
  else if(k->avx){ mc_note("%s: coefficient order of the internal representation unknown, judged through the public API only",k->name); struct T z={0}; z.init=1; *t=z; for(int i=0;i<256;i++) t->perm[i]=i; }
  return t; }
#define NEED(x) if(!(x)) return
/* ---- scalar reductions (portable) ---- */
static void u_mont(long u){ kyber *k=&KY[u%3]; int16_t (*f)(int32_t)=ksym(k,"montgomery_reduce"); NEED(f); get(u%3); long n=(long)2*SQ*32768, ch=64, c=u/3; long lo=-(long)SQ*32768+n*c/ch, hi=-(long)SQ*32768+n*(c+1)/ch; int32_t w=smod((int64_t)smod(lo)*RINV);
  for(long a=lo;a<hi;a++){ int r=f((int32_t)a); int m=r<0?r+SQ:r; if(r<=-SQ||r>=SQ||m!=w) mc_fail("%s montgomery_reduce(%ld) = %d, residue %d expected",k->name,a,r,w); w+=RINV; if(w>=SQ) w-=SQ; } mc_trans(hi-lo); mc_count("montgomery_reduce arguments",hi-lo); mc_state(mc_hash2(u,0xc071)); }
/* the portable reduction: documented as centered; any one representative per
 * residue strictly between -q and q is as good for every later step */
static int16_t REP[6][3329]; static uint8_t haveR[6][3329];
static int badrep(int im,int r){ if(r<=-SQ||r>=SQ) return 1; int m=smod(r); if(!haveR[im][m]){ haveR[im][m]=1; REP[im][m]=r; } return REP[im][m]!=r; }
static void u_barr(long u){ kyber *k=&KY[u]; int16_t (*f)(int16_t)=ksym(k,"barrett_reduce"); NEED(f); for(int a=-32768;a<32768;a++){ int r=f((int16_t)a); if(smod(r)!=smod(a)||badrep(u,r)) mc_fail("%s barrett_reduce(%d) = %d",k->name,a,r); } mc_trans(65536); mc_count("barrett_reduce arguments",65536); }
/* ---- coefficient-wise: every 16-bit value at every position ---- */
static void u_coef(long u){ int im=u%6; long c=u/6; kyber *k=&KY[im]; struct T *t=get(im); static const int st[]={1,0,257};
  for(int s=0;s<3;s++) for(long b=c*1024;b<(c+1)*1024;b++){ ipoly p,q,r; for(int i=0;i<256;i++) p.c[i]=(int16_t)(b+i*st[s]);
    if(t->reduce){ q=p; t->reduce(&q); for(int i=0;i<256;i++){ int v=q.c[i]; if(smod(v)!=smod(p.c[i])||(k->avx?(v<0||v>SQ):badrep(im,v))) mc_fail("%s poly_reduce: %d at position %d becomes %d",k->name,p.c[i],i,v); } }
    if(t->tomont){ q=p; t->tomont(&q); for(int i=0;i<256;i++){ int v=q.c[i]; if(smod(v)!=smod((int64_t)p.c[i]*R16)||v<=-SQ||v>=SQ) mc_fail("%s poly_tomont: %d at position %d becomes %d",k->name,p.c[i],i,v); } }
    if(t->add&&t->sub){ for(int i=0;i<256;i++){ q.c[i]=(int16_t)((i*91+b*7)%16384-8192); p.c[i]=(int16_t)(p.c[i]/2); } t->add(&r,&p,&q); for(int i=0;i<256;i++) if(r.c[i]!=p.c[i]+q.c[i]&&smod(r.c[i])!=smod(p.c[i]+q.c[i])) mc_fail("%s poly_add: %d + %d at %d gives %d",k->name,p.c[i],q.c[i],i,r.c[i]); t->sub(&r,&p,&q); for(int i=0;i<256;i++) if(smod(r.c[i])!=smod(p.c[i]-q.c[i])) mc_fail("%s poly_sub: %d - %d at %d gives %d",k->name,p.c[i],q.c[i],i,r.c[i]); }
    mc_trans(4); } mc_trace(1); mc_state(mc_hash2(u,0xc072)); }
/* ---- transforms ---- */
static spoly WN[256],WI[256]; static int haveW;
static inline int wsign(int w,int i){ return __builtin_parity(w&i); }
static void initW(void){ if(haveW) return; haveW=1; for(int w=0;w<256;w++){ for(int i=0;i<256;i++) WN[w].c[i]=wsign(w,i)?SQ-1:1; WI[w]=WN[w]; spec_ntt(&WN[w]); spec_invntt(&WI[w]); } }
static void chk_ntt(int im,const ipoly *in,const spoly *want,const char *ctx){ struct T*t=T+im; ipoly p=*in; t->ntt(&p); for(int i=0;i<256;i++){ int v=p.c[t->perm[i]]; if(smod(v)!=want->c[i]) mc_fail("%s poly_ntt: output coefficient %d is %d (= %d mod q), exact value %d; input: %s; coefficients %s",KY[im].name,i,v,smod(v),want->c[i],ctx,mc_hexs(in->c,512)); if(KY[im].avx&&(v>16118||v<-16118)) mc_fail("%s poly_ntt: output %d exceeds the documented bound 16118; %s",KY[im].name,v,ctx); } }
static void chk_inv(int im,const ipoly *std,const spoly *want,const char *ctx){ struct T*t=T+im; ipoly p; for(int i=0;i<256;i++) p.c[t->perm[i]]=std->c[i]; t->invntt(&p); for(int i=0;i<256;i++){ int v=p.c[i]; int w=smod((int64_t)want->c[i]*R16); if(smod(v)!=w) mc_fail("%s poly_invntt_tomont: output coefficient %d is %d (= %d mod q), exact value %d; input: %s; coefficients (bit-reversed order) %s",KY[im].name,i,v,smod(v),w,ctx,mc_hexs(std->c,512)); if(KY[im].avx? (v>14870||v<-14870):(v>=SQ||v<=-SQ)) mc_fail("%s poly_invntt_tomont: output %d out of range; %s",KY[im].name,v,ctx); } }
static void scal(spoly *o,const spoly *a,int v){ uint32_t m=smod(v); for(int i=0;i<256;i++) o->c[i]=(int32_t)((uint32_t)a->c[i]*m%SQ); }
/* one coefficient set, every value */
static void u_unit(long u){ int im=u%6; int pos=u/6; struct T*t=get(im); spoly b={{0}},n,iv,w; b.c[pos]=1; n=b; iv=b; spec_ntt(&n); spec_invntt(&iv); int st=mc_thorough?1:13;
  for(int v=-SQ;v<=SQ;v++){ if(v%st && v>-SQ+3 && v<SQ-3 && abs(v)>4 && abs(abs(v)-1664)>2) continue; ipoly p; memset(&p,0,sizeof p); p.c[pos]=v; if(t->ntt&&abs(v)<SQ){ scal(&w,&n,v); chk_ntt(im,&p,&w,CTX("value %d at position %d",v,pos)); } if(t->invntt&&(KY[im].avx||abs(v)<=1664)){ scal(&w,&iv,v); chk_inv(im,&p,&w,CTX("value %d at position %d",v,pos)); } mc_trans(2); } mc_trace(1); mc_state(mc_hash2(u,0xc073)); }
/* all sign patterns per index bit, every amplitude */
static void u_walsh(long u){ int im=u%6; int w=u/6; struct T*t=get(im); initW(); spoly e; int st=mc_thorough?1:11;
  for(int v=0;v<=SQ;v++){ if(v%st && v>3 && v<SQ-3 && abs(v-1664)>3 && abs(v-832)>1 && abs(v-2497)>1) continue;
    for(int form=0;form<4;form++){ ipoly p; int ok=1; /* 0: +v/-v  1: v/q-v  2: +v/0 via average 3: v-q/q-v */
      for(int i=0;i<256;i++){ int s=wsign(w,i); int x= form==0? (s?-v:v) : form==1? (s?SQ-v:v) : form==2 ? (s?0:v) : (s?SQ-v:v-SQ); p.c[i]=x; }
      if(form==2){ spoly a,b; scal(&a,&WN[w],smod((int64_t)v*1665)); scal(&b,&WN[0],smod((int64_t)v*1665)); for(int i=0;i<256;i++) e.c[i]=(a.c[i]+b.c[i])%SQ; } else scal(&e,&WN[w],v);
      int mx=0; for(int i=0;i<256;i++) if(abs(p.c[i])>mx) mx=abs(p.c[i]);
      if(t->ntt && (KY[im].avx? mx<=SQ: mx<SQ)) chk_ntt(im,&p,&e,CTX("pattern %d amplitude %d form %d",w,v,form));
      if(form==2){ spoly a,b; scal(&a,&WI[w],smod((int64_t)v*1665)); scal(&b,&WI[0],smod((int64_t)v*1665)); for(int i=0;i<256;i++) e.c[i]=(a.c[i]+b.c[i])%SQ; } else scal(&e,&WI[w],v);
      if(t->invntt && (KY[im].avx||mx<=1664)) chk_inv(im,&p,&e,CTX("pattern %d amplitude %d form %d",w,v,form)); (void)ok; mc_trans(2); } }
  if(t->invntt&&KY[im].avx) for(int x=0;x<(mc_thorough?65536:256);x++){ int v= mc_thorough? x-32768 : (x<64?-32768+x: x<128? 32767-(x-64): (x-128)*247); ipoly p; for(int i=0;i<256;i++) p.c[i]= wsign(w,i)? (v==-32768?32767:-v): v; spoly b; for(int i=0;i<256;i++) b.c[i]=smod(p.c[i]); spec_invntt(&b); chk_inv(im,&p,&b,CTX("pattern %d amplitude %d",w,v)); mc_trans(1); }
  mc_trace(1); mc_state(mc_hash2(u,0xc074)); }
/* inputs for which the state after layer L is extremal */
static int32_t Z[128]; static int br7(int i){ int r=0; for(int k=0;k<7;k++) if(i>>k&1) r|=1<<(6-k); return r; }
static void initZ(void){ if(Z[0]) return; for(int i=0;i<128;i++){ int64_t r=1; for(int e=br7(i);e;e--) r=r*17%SQ; Z[i]=(int32_t)r; } }
static int32_t inv(int32_t a){ int64_t r=1,b=a; int e=SQ-2; while(e){ if(e&1) r=r*b%SQ; b=b*b%SQ; e>>=1; } return (int32_t)r; }
/* undo the first L layers of the forward transform */
static void undo_ntt(spoly *p,int L){ initZ(); for(int l=L-1;l>=0;l--){ int len=128>>l; int k=1<<l; for(int s=0;s<256;s+=2*len){ int32_t zi=inv(Z[k++]); for(int j=s;j<s+len;j++){ int32_t a=p->c[j],b=p->c[j+len]; p->c[j]=smod((int64_t)(a+b)*1665); p->c[j+len]=smod((int64_t)smod((int64_t)(a-b)*1665)*zi); } } } }
/* undo the first L layers of the inverse transform (len 2,4,..) = forward layers */
static void undo_inv(spoly *p,int L){ initZ(); for(int l=L-1;l>=0;l--){ int len=2<<l; int k=64>>l; for(int s=0;s<256;s+=2*len){ int32_t z=Z[k++]; for(int j=s;j<s+len;j++){ int32_t a=p->c[j],b=smod((int64_t)z*p->c[j+len]); p->c[j]=smod(a+b); p->c[j+len]=smod(a-b); } } } }
static void u_layer(long u){ int im=u%6; int w=(int)(u/6); struct T*t=get(im); static const int ev[]={1664,1665,3328,1,1663,2497,832,1248}; int nv=mc_thorough?64:8;
  for(int L=1;L<=7;L++) for(int e=0;e<nv;e++){ int v= e<8?ev[e]:(e*52)%SQ; spoly p,o; for(int i=0;i<256;i++) p.c[i]=wsign(w,i)?smod(-v):v; 
    o=p; undo_ntt(&o,L); ipoly in; for(int r=0;r<3;r++){ for(int i=0;i<256;i++){ int c=o.c[i]; in.c[i]= r==0?c: r==1? (c>1664?c-SQ:c): c-SQ; } if(r==2) for(int i=0;i<256;i++) if(in.c[i]==-SQ) in.c[i]=0; spoly n=o; spec_ntt(&n); if(t->ntt) chk_ntt(im,&in,&n,CTX("layer %d state pattern %d amplitude %d representation %d",L,w,v,r)); }
    o=p; undo_inv(&o,L); for(int r=0;r<3;r++){ for(int i=0;i<256;i++){ int c=o.c[i]; in.c[i]= r==0? (c>1664?c-SQ:c): r==1? c: (i&1)? (c>=522?c-33290:c-29961) : (c<=2806?c+29961:c+26632); /* ends of the 16-bit range */ } if(r && !KY[im].avx) break; spoly n=o; spec_invntt(&n); if(t->invntt) chk_inv(im,&in,&n,CTX("inverse layer %d state pattern %d amplitude %d representation %d",L,w,v,r)); }
    mc_trans(6); } mc_trace(1); mc_state(mc_hash2(u,0xc075)); }
/* one output of the forward transform driven to its largest magnitude: along the path to each output every layer adds the
 * extreme product of its root and one free input, for three ways a lazily reduced product may be represented */
static int prodm(int m,int32_t z,int v){ int32_t zm=smod((int64_t)z*R16); if(zm>1664) zm-=SQ; int32_t a=zm*v; if(m==2){ int r=smod((int64_t)z*v); return r; } int16_t t=(int16_t)((int16_t)a*(int16_t)-3327); return m==0? (a-(int32_t)t*SQ)>>16 : (int)((a>>16)-(int)(((uint32_t)(uint16_t)t*SQ)>>16)); }
static void u_growth(long u){ int im=u%6; int path=u/6; struct T*t=get(im); NEED(t->ntt); initZ(); for(int m=0;m<3;m++) for(int r=0;r<3;r++) for(int sg=-1;sg<=1;sg+=2){ int lo= r==0?0: r==1?-1664:-(SQ-1), hi= r==0?SQ-1: r==1?1664:0; int y[8]; int blk=0; for(int l=1;l<=7;l++){ int k=(1<<(l-1))+blk, up=path>>(7-l)&1, best=lo,bv=-1<<30; for(int v=lo;v<=hi;v++){ int c=prodm(m,Z[k],v)*(up?-sg:sg); if(c>bv){ bv=c; best=v; } } y[l]=best; blk=blk*2+up; }
    for(int j0=0;j0<2;j0++) for(int sgn=0;sgn<2;sgn++){ ipoly in; memset(&in,0,sizeof in); in.c[j0]= sg>0?hi:lo; for(int l=1;l<=7;l++) in.c[j0+(128>>(l-1))]=y[l]; if(sgn&&r==1) for(int i=0;i<256;i++) in.c[i]=-in.c[i]; spoly n; for(int i=0;i<256;i++) n.c[i]=smod(in.c[i]); spec_ntt(&n); chk_ntt(im,&in,&n,CTX("largest growth towards output %d, sign %d, product form %d, representation %d",path*2+j0,sg,m,r)); mc_trans(1); } } mc_trace(1); mc_state(mc_hash2(u,0xc07b)); }
/* ---- products ---- */
static void toN(int im,ipoly *o,const int16_t *s){ for(int i=0;i<256;i++) o->c[T[im].perm[i]]=s[i]; }
static int32_t ZB[128];
static void chk_mul(int im,const int16_t *a,const int16_t *b){ struct T*t=T+im; ipoly A,B,Rr; toN(im,&A,a); toN(im,&B,b); memset(&Rr,0x33,sizeof Rr); t->basemul(&Rr,&A,&B); if(!ZB[0]) for(int i=0;i<128;i++){ int64_t r=1; for(int e=2*br7(i)+1;e;e--) r=r*17%SQ; ZB[i]=(int32_t)r; }
  for(int i=0;i<128;i++){ int64_t a0=smod(a[2*i]),a1=smod(a[2*i+1]),b0=smod(b[2*i]),b1=smod(b[2*i+1]); int32_t w0=smod(smod(smod(a1*b1)*(int64_t)ZB[i]+a0*b0)*(int64_t)RINV),w1=smod(smod(a0*b1+a1*b0)*(int64_t)RINV); int g0=Rr.c[t->perm[2*i]],g1=Rr.c[t->perm[2*i+1]]; if(smod(g0)!=w0||smod(g1)!=w1||abs(g0)>2*SQ-2||abs(g1)>2*SQ-2) mc_fail("%s poly_basemul_montgomery pair %d: (%d,%d)*(%d,%d) gives (%d,%d), exact residues (%d,%d)",KY[im].name,i,a[2*i],a[2*i+1],b[2*i],b[2*i+1],g0,g1,w0,w1); } mc_trans(1); }
static const int EV[]={0,1,-1,1664,-1664,1665,3328,-3328,3329,-3329,4095,2,832,-832,2048,3000};
#define NEV 16
static void u_mul(long u){ int im=u%6; long c=u/6; struct T*t=get(im); NEED(t->basemul); /* first factor up to 4095 as unpacked keys, second within |q| */
  for(long z=0;z<512;z++){ long n=c*512+z; if(n>=65536) break; int16_t a[256],b[256]; for(int i=0;i<128;i++){ long m=(n+i*(long)613)&65535; a[2*i]=EV[m&15]; a[2*i+1]=EV[m>>4&15]; int b0=EV[m>>8&15],b1=EV[m>>12&15]; if(b0>3329) b0=3327; if(b1>3329) b1=-3327; b[2*i]=b0; b[2*i+1]=b1; } chk_mul(im,a,b); }
  mc_trace(1); mc_state(mc_hash2(u,0xc076)); }
static void u_mulval(long u){ int im=u%6; long c=u/6; struct T*t=get(im); NEED(t->basemul); for(long v=c*32;v<(c+1)*32&&v<4096;v++) for(int w=0;w<4096;w+= mc_thorough?61:509){ int16_t a[256],b[256]; for(int i=0;i<128;i++){ a[2*i]=(v+i*32)%4096; a[2*i+1]=(w+i*3)%4096; b[2*i]=smod(v*3+i*26+w); b[2*i+1]=(int16_t)(smod(v*5+i)-SQ); } chk_mul(im,a,b);
    for(int i=0;i<128;i++){ int o=i&1; a[2*i]=o?0:v; a[2*i+1]=o?v:0; b[2*i]=(i&2)?0:w%SQ; b[2*i+1]=(i&2)?w%SQ:0; } chk_mul(im,a,b); } mc_trace(1); mc_state(mc_hash2(u,0xc077)); }
static void u_acc(long u){ int im=u%6; struct T*t=get(im); kyber*k=&KY[im]; NEED(t->acc&&t->reduce); long c=u/6; for(int e=0;e<NEV;e++) for(int f=0;f<NEV;f++){ static ipoly a[4],b[4]; int16_t sa[4][256],sb[4][256]; for(int j=0;j<k->K;j++){ for(int i=0;i<256;i++){ int s=wsign((int)c*16+e,i)&1; sa[j][i]= s? EV[e]: EV[(e+f)&15]; if(sa[j][i]<0) sa[j][i]+=SQ; sb[j][i]= s? EV[f]:-EV[f]; if(abs(sb[j][i])>SQ) sb[j][i]=SQ-1; } toN(im,&a[j],sa[j]); toN(im,&b[j],sb[j]); }
    ipoly r; t->acc(&r,a,b); ipoly r2=r; t->reduce(&r2); spoly acc={{0}},x,y,z; for(int j=0;j<k->K;j++){ for(int i=0;i<256;i++){ x.c[i]=smod(sa[j][i]); y.c[i]=smod(sb[j][i]); } spec_basemul(&z,&x,&y); for(int i=0;i<256;i++) acc.c[i]=(acc.c[i]+z.c[i])%SQ; }
    for(int i=0;i<256;i++){ int w=smod((int64_t)acc.c[i]*RINV); if(smod(r.c[t->perm[i]])!=w||smod(r2.c[t->perm[i]])!=w) mc_fail("%s inner product: coefficient %d is %d, exact residue %d (factors pattern %ld, values %d %d)",k->name,i,r.c[t->perm[i]],w,c*16+e,EV[e],EV[f]); }
    if(t->invntt){ ipoly q=r; t->invntt(&q); t->reduce(&q); spoly s=acc; spec_invntt(&s); for(int i=0;i<256;i++) if(smod(q.c[i])!=s.c[i]) mc_fail("%s inner product then inverse transform: coefficient %d is %d, exact %d (pattern %ld values %d %d)",k->name,i,q.c[i],s.c[i],c*16+e,EV[e],EV[f]); }
    mc_trans(3); } mc_trace(1); mc_state(mc_hash2(u,0xc078)); }
/* X^i * X^j with extremal scalars: the whole pipeline */
static void u_mono(long u){ int im=u%6; int i=u/6; struct T*t=get(im); NEED(t->ntt&&t->invntt&&t->basemul&&t->reduce); static const int s[]={1,-1,3328,-3328,1664}; ipoly A,B; int ai=s[i%5]; memset(&A,0,sizeof A); A.c[i]=ai; t->ntt(&A); for(int j=0;j<256;j++){ int bj=s[(i+j)%5]; memset(&B,0,sizeof B); B.c[j]=bj; t->ntt(&B); t->reduce(&B); ipoly r; t->basemul(&r,&A,&B); if(!KY[im].avx) t->reduce(&r); t->invntt(&r); t->reduce(&r); int d=i+j; int64_t w=(int64_t)ai*bj; if(d>=256){ d-=256; w=-w; } for(int x=0;x<256;x++){ int want= x==d?smod(w):0; if(smod(r.c[x])!=want) mc_fail("%s: %d X^%d * %d X^%d has coefficient %d at X^%d, exact %d",KY[im].name,ai,i,bj,j,r.c[x],x,want); } mc_trans(4); } mc_trace(1); mc_state(mc_hash2(u,0xc079)); }
/* dense extremal products against schoolbook */
static void u_dense(long u){ int im=u%6; long c=u/6; struct T*t=get(im); NEED(t->ntt&&t->invntt&&t->basemul&&t->reduce); for(int z=0;z<16;z++){ int wa=(int)(c*16+z)&255, wb=(int)((c*16+z)*37+11)&255; static const int am[][2]={{3328,2},{1664,3},{-3328,-3},{3328,3328},{1665,1664}}; int m=z%5; ipoly A,B,r; spoly x,y,p; for(int i=0;i<256;i++){ A.c[i]=wsign(wa,i)?-am[m][0]:am[m][0]; B.c[i]=wsign(wb,i)?-am[m][1]:am[m][1]; x.c[i]=smod(A.c[i]); y.c[i]=smod(B.c[i]); } spec_ringmul(&p,&x,&y); t->ntt(&A); t->ntt(&B); t->reduce(&A); t->basemul(&r,&B,&A); if(!KY[im].avx) t->reduce(&r); t->invntt(&r); t->reduce(&r); for(int i=0;i<256;i++) if(smod(r.c[i])!=p.c[i]) mc_fail("%s: ring product of patterns %d,%d amplitudes %d,%d: coefficient %d is %d, exact %d",KY[im].name,wa,wb,am[m][0],am[m][1],i,r.c[i],p.c[i]); mc_trans(4); } mc_trace(1); mc_state(mc_hash2(u,0xc07a)); }
/* ---- through the public API: extremal matrix, noise, keys, ciphertexts ---- */
static void u_akey(long u){ int im=u%6; kyber*k=&KY[im]; long c=u/6; int K=k->K; int mp=c%NMP, sp=c/NMP; int e1=spec_eta1(K); for(int ep=0;ep<NNP;ep++){ f_reset(K); for(int x=0;x<K;x++) for(int y=0;y<K;y++) f_matpat(F_A[x][y],mp==13?13:(mp+(ep>6?x+y:0))%13,c*100+x*4+y); for(int n=0;n<K;n++){ f_noisepat(F_N[0][n],(sp+(ep&1?n:0))%NNP,e1,c+n); f_noisepat(F_N[0][K+n],ep,e1,c*3+n); }
    uint8_t pk[1568],sk[3168],p2[1568],s2[3168],co[64]; mc_fill(co,64,c); k->keypair_derand(pk,sk,co); spec_keypair(K,co,p2,s2); cmpb("public key",k,pk,p2,k->pkb,CTX("matrix pattern %d, secret pattern %d, error pattern %d",mp,sp,ep)); cmpb("secret key",k,sk,s2,k->skb,C); mc_trans(1); mc_trace(1); mc_state(mc_hash(pk,k->pkb)); } fake_off(); }
static void keypat(uint8_t *b,int K,int p,uint64_t tag){ for(int j=0;j<K;j++) for(int i=0;i<256;i++){ int v; switch(p){ case 0: v=0; break; case 1: v=4095; break; case 2: v=3328; break; case 3: v=3329; break; case 4: v=i&1?4095:0; break; case 5: v=i&1?0:3328; break; case 6: v=1664; break; case 7: v=1665; break; case 8: v=(i>>7)?4095:1664; break; case 9: v=i==255?4095:0; break; case 10: v=(i&2)?1665:1664; break; default: v=mc_hash2(tag+j,i)&4095; } set12(b+384*j,i,v); } }
#define NKP 12
static void u_aenc(long u){ int im=u%6; kyber*k=&KY[im]; long c=u/6; int K=k->K; int mp=c%NMP, kp=c/NMP; for(int np=0;np<NNP;np++) for(int ep=0;ep<(mc_thorough?6:2);ep++){ f_reset(K); F_phase=1; for(int x=0;x<K;x++) for(int y=0;y<K;y++) f_matpat(F_A[x][y],mp,c*7+x*4+y); for(int n=0;n<K;n++){ f_noisepat(F_N[1][n],np,spec_eta1(K),c+n); f_noisepat(F_N[1][K+n],ep?ep:np,2,c*3+n);} f_noisepat(F_N[1][2*K],ep?ep:np,2,c*5);
    uint8_t pk[1568],ct[1568],ss[32],c2[1568],s2[32],m[32]; mc_fill(pk,1568,9); keypat(pk,K,kp,c); memset(m,np&1?0xff:0,32); k->enc_derand(ct,ss,pk,m); spec_enc(K,pk,m,c2,s2); cmpb("ciphertext",k,ct,c2,k->ctb,CTX("matrix pattern %d, key pattern %d, noise pattern %d/%d",mp,kp,np,ep)); mc_trans(1); mc_trace(1); mc_state(mc_hash(ct,k->ctb)); } fake_off(); }
static uint8_t capm[32]; static int ncap; static void capg(const uint8_t *in,size_t n,uint8_t *o){ uint8_t t[64]; if(n==64){ memcpy(capm,in,32); ncap++; } spec_real_orc(A_SHA3_512,in,n,t,64,0); memcpy(o,t,64); }
static void u_adec(long u){ int im=u%6; kyber*k=&KY[im]; long c=u/6; int K=k->K,du=spec_du(K),dv=spec_dv(K); int kp=c%NKP, up=c/NKP; for(int vp=0;vp<6;vp++){ uint8_t sk[3168],ct[1568],m[32],s1[32]; mc_fill(sk,3168,3); keypat(sk,K,kp,c); uint32_t mu=(1u<<du)-1,mv=(1u<<dv)-1; for(int i=0;i<256*K;i++){ uint32_t v; switch(up){ case 0: v=0; break; case 1: v=mu; break; case 2: v=mu/2; break; case 3: v=mu/2+1; break; case 4: v=i&1?mu:0; break; case 5: v=i&1?mu/2:mu/2+1; break; case 6: v=i%256==0?mu:0; break; case 7: v=(i&128)?mu:1; break; case 8: v=i&mu; break; default: v=mc_hash2(c,i)&mu; } setd(ct,i,du,v); } for(int i=0;i<256;i++){ uint32_t v= vp==0?0: vp==1?mv: vp==2?mv/2: vp==3? (i&1?mv:0): vp==4? i&mv: mc_hash2(c+9,i)&mv; setd(ct+32*du*K,i,dv,v); }
    fake_off(); spec_cpa_dec(K,sk,ct,m); ncap=0; fake_g=capg; fake_on(); spec_orc=spec_real_orc; k->dec(s1,ct,sk); int n=ncap; fake_off(); if(n==1&&memcmp(capm,m,32)) mc_fail("%s: decrypted message differs at byte %ld: key pattern %d, u pattern %d, v pattern %d",k->name,first_diff(capm,m,32),kp,up,vp); mc_trans(1); mc_trace(1); mc_state(mc_hash(m,32)); } }
#ifdef C19SMALL
/* reduced exploration of the same spaces, run by C19 in every build configuration */
#define THIN(f,stride) static void f##_s(long u){ f(u%6+6*((u/6)*(stride))); }
static void u_mont_s(long u){ u_mont(u%3+3*((u/3)*31)); }
THIN(u_coef,13) THIN(u_unit,37) THIN(u_walsh,37) THIN(u_layer,51) THIN(u_growth,31) THIN(u_mul,31) THIN(u_mulval,41) THIN(u_acc,5) THIN(u_mono,85) THIN(u_dense,5)
int main(int argc,char **argv){ mc_init(argc,argv,"C19"); if(libs_load()) return 2; orc_init();
  mc_units("arith-montgomery",u_mont_s,3*3); mc_units("arith-barrett",u_barr,3); mc_units("arith-coefficientwise",u_coef_s,6*5); mc_units("arith-unit",u_unit_s,6*7); mc_units("arith-walsh",u_walsh_s,6*7); mc_units("arith-layer-extremal",u_layer_s,6*5); mc_units("arith-growth",u_growth_s,6*4);
  mc_units("arith-basemul-extremes",u_mul_s,6*4); mc_units("arith-basemul-values",u_mulval_s,6*3); mc_units("arith-inner-product",u_acc_s,6*3); mc_units("arith-monomials",u_mono_s,6*3); mc_units("arith-dense",u_dense_s,6*3);
  return mc_run(); }
#else
int main(int argc,char **argv){ mc_init(argc,argv,"C07"); if(libs_load()) return 2; orc_init();
  mc_units("montgomery",u_mont,3*64); mc_units("barrett",u_barr,3); mc_units("coefficientwise",u_coef,6*64); mc_units("unit",u_unit,6*256); mc_units("walsh",u_walsh,6*256); mc_units("layer-extremal",u_layer,6*256); mc_units("growth",u_growth,6*128);
  mc_units("basemul-extremes",u_mul,6*128); mc_units("basemul-values",u_mulval,6*128); mc_units("inner-product",u_acc,6*16); mc_units("monomials",u_mono,6*256); mc_units("dense",u_dense,6*16);
  mc_units("api-keygen",u_akey,6L*NMP*NNP); mc_units("api-enc",u_aenc,6L*NMP*NKP); mc_units("api-dec",u_adec,6L*NKP*10);
  return mc_run(); }
#endif
