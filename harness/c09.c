/* C09: rejection sampling of the public matrix with chosen streams. */
#include "fakes.h"
static char C[4000];
#define CTX(...) (snprintf(C,sizeof C,__VA_ARGS__),C)
#define NC 16384
static uint16_t CA[4][4][NC]; static int NCU[4][4];       /* candidates of the stream seeded rho||x||y */
static void cx(const uint8_t *s,uint8_t *out,size_t n,size_t off){ int x=s[32],y=s[33]; if(x>3||y>3){ memset(out,0x21,n); return; } for(size_t i=0;i<n;i++){ size_t b=off+i; size_t t=b/3; unsigned c0= 2*t<NC?CA[x][y][2*t]:1, c1= 2*t+1<NC?CA[x][y][2*t+1]:2; out[i]= b%3==0? c0 : b%3==1? (c0>>8)|(c1<<4) : c1>>4; } }
static int perm[6][256],have[6];
static void getperm(int im){ if(have[im]) return; have[im]=1; kyber*k=&KY[im]; for(int i=0;i<256;i++) perm[im][i]=i; void (*fb)(ipoly*,const uint8_t*)=ksym(k,"poly_frombytes"); if(fb){ uint8_t b[448]={0}; for(int i=0;i<256;i++) set12(b,i,i+1); ipoly p; fb(&p,b); for(int i=0;i<256;i++) if(p.c[i]>=1&&p.c[i]<=256) perm[im][p.c[i]-1]=i; } else if(k->avx) have[im]=2; }
static void model(int x,int y,int16_t *o){ int n=0; for(int i=0;n<256;i++){ unsigned c= i<NC?CA[x][y][i]:1+(i&1); if(c<SQ) o[n++]=c; } }
/* run both orientations and compare every entry */
static void go(int im,const char *ctx){ kyber*k=&KY[im]; int K=k->K; getperm(im); static ipoly a[16]; 
  f_reset(K); fake_xof=cx; uint8_t seed[32+16]; mc_fill(seed,48,im);
  if(k->gen_matrix&&have[im]==1) for(int tr=0;tr<2;tr++){ memset(a,0x7f,sizeof a); k->gen_matrix(a,seed,tr); for(int i=0;i<K;i++) for(int j=0;j<K;j++){ int16_t w[256]; int x=tr?i:j,y=tr?j:i; model(x,y,w); for(int c=0;c<256;c++){ int g=a[i*K+j].c[perm[im][c]]; if(smod(g)!=w[c]||g<-SQ||g>SQ) mc_fail("%s gen_matrix(transposed=%d) entry [%d][%d] coefficient %d is %d, stream %d||%d gives %d; %s",k->name,tr,i,j,c,g,x,y,w[c],ctx); } mc_state(mc_hash(w,512)); } mc_trans(1); }
  mc_trace(1); }
static void goapi(int im,const char *ctx){ kyber*k=&KY[im]; int K=k->K; f_reset(K); fake_xof=cx; uint8_t pk[1568],sk[3168],p2[1568],s2[3168],c[64],ct[1568],c2[1568],ss[32],s3[32]; mc_fill(c,64,im); 
  for(int j=0;j<K;j++){ F_phase=0; memset(F_N,0,sizeof F_N); F_N[0][j][0]=1; spec_keypair(K,c,p2,s2); k->keypair_derand(pk,sk,c); cmpb("public key",k,pk,p2,k->pkb,ctx); F_phase=1; F_N[1][j][0]=1; memset(pk,0,384*K); spec_enc(K,pk,c,c2,s3); k->enc_derand(ct,ss,pk,c); cmpb("ciphertext",k,ct,c2,k->ctb,ctx); mc_trans(2); } mc_trace(1); }
static void ramp(int x,int y,int v,int st){ for(int i=0;i<NC;i++) CA[x][y][i]=(uint16_t)((v+i*st+x*1031+y*517)&4095); if((st&3)==0) for(int i=0;i<NC;i++) if(i%5==0) CA[x][y][i]=(v+i)%SQ; }
static void acc(int x,int y){ for(int i=0;i<NC;i++) CA[x][y][i]=(uint16_t)((i*11+x*331+y*77+5)%SQ); }
static void accall(int K){ for(int x=0;x<K;x++) for(int y=0;y<K;y++) acc(x,y); }
static const uint16_t REJ[4]={3329,4095,3330,4000};
/* every 12-bit value at every candidate position */
static void u_ramp(long u){ int im=u%6; int c=u/6; int K=KY[im].K; static const int st[]={1,3,2049,17,0x555}; for(int v=c*64;v<(c+1)*64;v++) for(int s=0;s<(mc_thorough?5:2);s++){ int S=st[(s*2+v)%5]; for(int x=0;x<K;x++) for(int y=0;y<K;y++) ramp(x,y,v,S); go(im,CTX("candidates (%d+i*%d+1031x+517y) mod 4096",v,S)); if((v&15)==s) goapi(im,C); } fake_off(); }
/* all acceptance masks of every 8-candidate group (and the groups of the vector loop, 32 candidates, rotated) */
static void u_mask(long u){ int im=u%6; int g=u/6; int K=KY[im].K; for(int m=0;m<256;m++){ accall(K); int z=0; for(int x=0;x<K;x++) for(int y=0;y<K;y++,z++){ int gg=(g+z*5)%44; int mm=(m+z*37)&255; for(int b=0;b<8;b++) if(!(mm>>b&1)) CA[x][y][8*gg+b]=REJ[(b+m)&3]; } go(im,CTX("8-candidate group %d (+5 per entry) with acceptance mask %02x (+37 per entry)",g,m)); if((m&31)==(g&31)) goapi(im,C); } fake_off(); }
/* n rejected candidates in several arrangements: reaches every counter value at every loop boundary and several extra blocks */
static void u_nrej(long u){ int im=u%6; int n=u/6; int K=KY[im].K; for(int arr=0;arr<8;arr++){ int z=0; for(int x=0;x<K;x++) for(int y=0;y<K;y++,z++){ acc(x,y); int m=n+z*(arr==7?0:13)%97; if(arr==6) m=n*3; uint16_t *c=CA[x][y]; switch(arr){ case 0: case 7: for(int i=0;i<m;i++) c[i]=REJ[i&3]; break; case 1: for(int i=0;i<m;i++) c[200+i]=REJ[i&3]; break; case 2: for(int i=0;i<m;i++) c[255+i]=REJ[i&3]; break; case 3: for(int i=0;i<m;i++) c[2*i]=REJ[i&3]; break; case 4: for(int i=0;i<m;i++) c[2*i+1]=REJ[i&3]; break; case 5: for(int i=0;i<m;i++) c[i*3%(m*3+1)]=REJ[i&3]; break; case 6: for(int i=0;i<m&&i<NC-600;i++) c[i+(i/7)]=REJ[i&3]; break; } } go(im,CTX("%d rejected candidates, arrangement %d",n,arr)); if(arr==n%8) goapi(im,C); } fake_off(); }
/* counter value x acceptance mask at the group where sampling ends */
static void u_end(long u){ int im=u%6; int r=u/6; int K=KY[im].K; /* r rejections at the start shift the end of sampling through the buffer */ for(int m=0;m<256;m+=(mc_thorough?1:3)){ accall(K); int z=0; for(int x=0;x<K;x++) for(int y=0;y<K;y++,z++){ int rr=r+z; for(int i=0;i<rr;i++) CA[x][y][i]=REJ[i&3]; int base=256+rr-8-(z&7); for(int b=0;b<8;b++) if(!((m+z*29)>>b&1)) CA[x][y][base+b]=REJ[(b+1)&3]; } go(im,CTX("%d(+entry) initial rejections, end mask %02x",r,m)); } fake_off(); }
/* entries that need different numbers of extra blocks */
static void u_blocks(long u){ int im=u%6; long c=u/6; int K=KY[im].K; static const int nb[]={0,1,2,3,6}; for(int j=0;j<5;j++){ int d[16]; long t=c*5+j; for(int i=0;i<16;i++){ d[i]=nb[(t/(i%4==0?1:i%4==1?5:i%4==2?25:125)+ (i/4)*2)%5]; } int z=0; for(int x=0;x<K;x++) for(int y=0;y<K;y++,z++){ acc(x,y); int rej= d[z]==0?z*5: 336-256+112*(d[z]-1)+1+(z*7)%111; for(int i=0;i<rej;i++) CA[x][y][ (i*7)%(rej+200) < rej+200 ? (z&1? i : 255-(255<rej?0:0)+i) : i ]=REJ[i&3]; } go(im,CTX("extra blocks per entry %d %d %d %d ...",d[0],d[1],d[2],d[3])); if(t%7==0) goapi(im,C); } fake_off(); }
/* boundary values at every position, over all-accepted and mostly-rejected backgrounds */
static void u_edge(long u){ int im=u%6; int p=u/6; int K=KY[im].K; static const int ev[]={0,1,2047,2048,3327,3328,3329,3330,3331,4094,4095,0x0ff,0xf00,256}; for(int e=0;e<14;e++) for(int bg=0;bg<2;bg++){ int z=0; for(int x=0;x<K;x++) for(int y=0;y<K;y++,z++){ acc(x,y); if(bg) for(int i=0;i<4000;i++) if(i%4) CA[x][y][i]=REJ[i&3]; CA[x][y][(p+z*21)%(bg?1200:340)]=ev[(e+z)%14]; } go(im,CTX("value %d at candidate %d(+21 per entry), background %d",ev[e],p,bg)); } fake_off(); }
/* real stream: seeds in order; the first ones needing extra blocks are found by the model */
static void u_real(long u){ int im=u%6; long c=u/6; int K=KY[im].K; kyber*k=&KY[im]; fake_off(); getperm(im); if(!k->gen_matrix||have[im]!=1) return; static ipoly a[16]; uint8_t seed[32]; for(int z=0;z<(mc_thorough?128:16);z++){ memset(seed,0,32); seed[0]=z; seed[1]=c; seed[31]=z*3; for(int tr=0;tr<2;tr++){ k->gen_matrix(a,seed,tr); for(int i=0;i<K;i++) for(int j=0;j<K;j++){ spoly w; spec_matrix_entry(&w,seed,tr?i:j,tr?j:i); for(int q=0;q<256;q++) if(smod(a[i*K+j].c[perm[im][q]])!=w.c[q]) mc_fail("%s gen_matrix seed %s transposed=%d [%d][%d] coefficient %d: %d, model %d",k->name,mc_hexs(seed,32),tr,i,j,q,a[i*K+j].c[perm[im][q]],w.c[q]); } mc_trans(1); } } mc_trace(1); }
int main(int argc,char **argv){ mc_init(argc,argv,"C09"); if(libs_load()) return 2; orc_init();
  mc_units("value-ramps",u_ramp,6*64); mc_units("group-masks",u_mask,6*44); mc_units("rejection-counts",u_nrej,6*420); mc_units("end-masks",u_end,6*90); mc_units("block-needs",u_blocks,6*125); mc_units("edge-values",u_edge,6*340); mc_units("real-streams",u_real,6*64);
  return mc_run(); }
