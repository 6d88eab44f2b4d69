#ifndef LIBS_H
#define LIBS_H
#include "mc.h"
#include "spec.h"
typedef struct { int16_t c[256]; } __attribute__((aligned(32))) ipoly;

typedef struct kyber {
  int K; int avx; char impl[8]; char name[64]; void *h;
  size_t pkb, skb, ctb;
  /* public API */
  int (*keypair_derand)(uint8_t*,uint8_t*,const uint8_t*);
  int (*keypair)(uint8_t*,uint8_t*);
  int (*enc_derand)(uint8_t*,uint8_t*,const uint8_t*,const uint8_t*);
  int (*enc)(uint8_t*,uint8_t*,const uint8_t*);
  int (*dec)(uint8_t*,const uint8_t*,const uint8_t*);
  /* internals: NULL when the tree no longer exports them */
  void (*cpa_keypair)(uint8_t*,uint8_t*,const uint8_t*);
  void (*cpa_enc)(uint8_t*,const uint8_t*,const uint8_t*,const uint8_t*);
  void (*cpa_dec)(uint8_t*,const uint8_t*,const uint8_t*);
  void (*gen_matrix)(void*,const uint8_t*,int);
  int (*verify)(const uint8_t*,const uint8_t*,size_t);
  void (*cmov)(uint8_t*,const uint8_t*,size_t,uint8_t);
  void (*cmov_int16)(int16_t*,int16_t,uint16_t);
} kyber;
extern kyber KY[6];           /* ref 512,768,1024, avx2 512,768,1024 */
extern int nKY;
extern void *H_fips_ref, *H_fips_avx, *H_x4;
int  libs_load(void);         /* 0 ok; loads from mc_libdir */
void *ksym(const kyber *k, const char *fn);    /* NULL if absent */
void *fsym(int avx, const char *fn);           /* fips202 function */
void *xsym(const char *fn);                    /* fips202x4 function */
static inline kyber *KYI(int avx,int K){ return &KY[(avx?3:0)+K-2]; }
/* randombytes() seen by the libraries */
extern void (*rnd_hook)(uint8_t *out, size_t len);
/* bytes a caller provides for a hash state: 0 keccak_state (ref), 1 (avx2), 2 keccakx4_state */
size_t state_size(int which);
#endif
