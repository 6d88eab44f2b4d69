/* AES-256 from FIPS 197 and the CTR-DRBG / seed expander models. */
#ifndef AES_MODEL_H
#define AES_MODEL_H
#include <stdint.h>
#include <string.h>
static uint8_t aes_s[256];
static uint8_t gm(uint8_t a,uint8_t b){ uint8_t r=0; while(b){ if(b&1) r^=a; a=(uint8_t)((a<<1)^((a&0x80)?0x1b:0)); b>>=1; } return r; }
static void aes_init(void){ if(aes_s[0]) return; for(int x=0;x<256;x++){ uint8_t inv=0; if(x) for(int y=1;y<256;y++) if(gm(x,y)==1){ inv=y; break; } uint8_t r=0; for(int i=0;i<8;i++){ int b=((inv>>i)^(inv>>((i+4)&7))^(inv>>((i+5)&7))^(inv>>((i+6)&7))^(inv>>((i+7)&7))^(0x63>>i))&1; r|=b<<i; } aes_s[x]=r; } }
typedef struct { uint8_t w[60][4]; } aes_ks;
static void aes_key(aes_ks*k,const uint8_t*key){ aes_init(); memcpy(k->w,key,32); uint8_t rc=1; for(int i=8;i<60;i++){ uint8_t t[4]; memcpy(t,k->w[i-1],4); if(i%8==0){ uint8_t q=t[0]; t[0]=aes_s[t[1]]^rc; t[1]=aes_s[t[2]]; t[2]=aes_s[t[3]]; t[3]=aes_s[q]; rc=gm(rc,2); } else if(i%8==4) for(int j=0;j<4;j++) t[j]=aes_s[t[j]]; for(int j=0;j<4;j++) k->w[i][j]=k->w[i-8][j]^t[j]; } }
static uint8_t x2(uint8_t a){ return (uint8_t)((a<<1)^((a>>7)*0x1b)); }
static void aes_enc(const aes_ks*k,const uint8_t*in,uint8_t*out){ uint8_t s[16]; for(int i=0;i<16;i++) s[i]=in[i]^k->w[i/4][i%4]; for(int r=1;r<=14;r++){ uint8_t t[16]; for(int c=0;c<4;c++) for(int q=0;q<4;q++) t[4*c+q]=aes_s[s[4*((c+q)&3)+q]]; if(r<14) for(int c=0;c<4;c++){ uint8_t *p=t+4*c,a=p[0],b=p[1],d=p[2],e=p[3],x=a^b^d^e; p[0]=a^x^x2(a^b); p[1]=b^x^x2(b^d); p[2]=d^x^x2(d^e); p[3]=e^x^x2(e^a); } for(int i=0;i<16;i++) s[i]=t[i]^k->w[4*r+i/4][i%4]; } memcpy(out,s,16); }
static void aes_ecb(const uint8_t*key,const uint8_t*in,uint8_t*out){ aes_ks k; aes_key(&k,key); aes_enc(&k,in,out); }
static int aes_selftest(void){ uint8_t k[32],p[16],c[16]; static const uint8_t w[16]={0x8e,0xa2,0xb7,0xca,0x51,0x67,0x45,0xbf,0xea,0xfc,0x49,0x90,0x4b,0x49,0x60,0x89}; for(int i=0;i<32;i++) k[i]=i; for(int i=0;i<16;i++) p[i]=i*0x11; aes_ecb(k,p,c); return memcmp(c,w,16)!=0; }
typedef struct { uint8_t key[32],v[16]; } m_drbg;
static void m_inc(uint8_t*v){ for(int i=15;i>=0&&++v[i]==0;i--); }
static void m_update(m_drbg*d,const uint8_t*data){ uint8_t t[48]; aes_ks k; aes_key(&k,d->key); for(int i=0;i<3;i++){ m_inc(d->v); aes_enc(&k,d->v,t+16*i); } if(data) for(int i=0;i<48;i++) t[i]^=data[i]; memcpy(d->key,t,32); memcpy(d->v,t+32,16); }
static void m_init(m_drbg*d,const uint8_t*e,const uint8_t*p){ uint8_t s[48]; for(int i=0;i<48;i++) s[i]=e[i]^(p?p[i]:0); memset(d,0,sizeof *d); m_update(d,s); }
static void m_gen(m_drbg*d,uint8_t*o,size_t n){ aes_ks k; aes_key(&k,d->key); while(n){ uint8_t b[16]; m_inc(d->v); aes_enc(&k,d->v,b); size_t q=n<16?n:16; memcpy(o,b,q); o+=q; n-=q; } m_update(d,NULL); }
#endif
