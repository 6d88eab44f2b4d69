#define _GNU_SOURCE
#include "libs.h"
#include <dlfcn.h>
kyber KY[6]; int nKY; void *H_fips_ref,*H_fips_avx,*H_x4;
void (*rnd_hook)(uint8_t*,size_t);
void randombytes(uint8_t *o,size_t n);
void randombytes(uint8_t *o,size_t n){ if(rnd_hook) rnd_hook(o,n); else memset(o,0,n); }
static void *op(const char *rel,int fl){ char b[1024]; snprintf(b,sizeof b,"%s/%s",mc_libdir,rel); void *h=dlopen(b,RTLD_NOW|fl); if(!h) fprintf(stderr,"dlopen: %s\n",dlerror()); return h; }
/* internal functions with the prototype the harnesses know (internals.txt,
 * written by vlib.probe_internals); without the file everything is allowed */
static char *INT; static void rdint(void){ if(INT) return; char b[1024]; snprintf(b,sizeof b,"%s/internals.txt",mc_libdir); FILE*f=fopen(b,"r"); INT=calloc(1,65536); if(f){ size_t n=fread(INT+1,1,65000,f); (void)n; INT[0]='\n'; fclose(f); } }
size_t state_size(int w){ rdint(); char l[64]; snprintf(l,sizeof l,"\nsize %d ",w); char*p=strstr(INT,l); return p?strtoul(p+strlen(l),NULL,10):w==2?800:208; }
static int known(const char *impl,int K,const char *fn){ static const char*pub[]={"keypair_derand","keypair","enc_derand","enc","dec",NULL}; if(K) for(int i=0;pub[i];i++) if(!strcmp(fn,pub[i])) return 1; if(!K&&strncmp(fn,"Keccak",6)) return 1;
  rdint();
  if(!INT[0]) return 1; char l[256]; snprintf(l,sizeof l,"\n%s %d %s\n",impl,K,fn); return strstr(INT,l)!=NULL; }
void *ksym(const kyber *k,const char *fn){ char b[256]; if(!known(k->impl,k->K,fn)) return NULL; snprintf(b,sizeof b,"pqcrystals_kyber%d_%s_%s",k->K==2?512:k->K==3?768:1024,k->impl,fn); return dlsym(k->h,b); }
void *fsym(int avx,const char *fn){ char b[256]; snprintf(b,sizeof b,"pqcrystals_kyber_fips202_%s_%s",avx?"avx2":"ref",fn); return dlsym(avx?H_fips_avx:H_fips_ref,b); }
void *xsym(const char *fn){ char b[256]; if(!known("avx2",0,fn)) return NULL; snprintf(b,sizeof b,"pqcrystals_kyber_fips202x4_avx2_%s",fn); return dlsym(H_x4,b); }
int libs_load(void){
  if(!mc_libdir){ fprintf(stderr,"--lib missing\n"); return 2; }
  int r=spec_selftest(); if(r){ fprintf(stderr,"model self test failed (%d)\n",r); return 2; }
  H_fips_ref=op("ref/lib/libpqcrystals_fips202_ref.so",RTLD_GLOBAL);
  H_fips_avx=op("avx2/libpqcrystals_fips202_ref.so",RTLD_GLOBAL);
  H_x4=op("avx2/libpqcrystals_fips202x4_avx2.so",RTLD_GLOBAL);
  if(!H_fips_ref||!H_fips_avx||!H_x4) return 2;
  for(int a=0;a<2;a++) for(int K=2;K<=4;K++){
    kyber *k=&KY[a*3+K-2]; char b[256]; int n=K==2?512:K==3?768:1024; k->K=K; k->avx=a; strcpy(k->impl,a?"avx2":"ref"); snprintf(k->name,64,"kyber%d-%s",n,k->impl);
    snprintf(b,sizeof b,a?"avx2/libpqcrystals_kyber%d_avx2.so":"ref/lib/libpqcrystals_kyber%d_ref.so",n);
    k->h=op(b,RTLD_LOCAL); if(!k->h) return 2;
    k->pkb=spec_pkbytes(K); k->skb=spec_skbytes(K); k->ctb=spec_ctbytes(K);
#define S(f,s) *(void**)&k->f=ksym(k,s)
    S(keypair_derand,"keypair_derand"); S(keypair,"keypair"); S(enc_derand,"enc_derand"); S(enc,"enc"); S(dec,"dec");
    S(cpa_keypair,"indcpa_keypair_derand"); S(cpa_enc,"indcpa_enc"); S(cpa_dec,"indcpa_dec"); S(gen_matrix,"gen_matrix");
    S(verify,"verify"); S(cmov,"cmov"); S(cmov_int16,"cmov_int16");
    if(!k->keypair_derand||!k->keypair||!k->enc_derand||!k->enc||!k->dec){ fprintf(stderr,"%s: public API symbol missing\n",k->name); return 2; }
  }
  nKY=6; return 0;
}
