/* Executable specification (ML-KEM as shipped in this tree), written
 * independently of the implementation: exact arithmetic modulo q, FIPS 202
 * from its definition, everything parameterised by K and by the oracle that
 * answers hash/XOF queries. */
#ifndef SPEC_H
#define SPEC_H
#include <stdint.h>
#include <stddef.h>
#define SQ 3329
#define SN 256
enum { A_SHA3_256, A_SHA3_512, A_SHAKE128, A_SHAKE256 };
/* bytes [off,off+outlen) of the output stream of alg on input in */
typedef void (*orc_fn)(int alg, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen, size_t off);
extern orc_fn spec_orc;                   /* oracle used by the model (default: real) */
void spec_real_orc(int alg, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen, size_t off);
void spec_keccak_f(uint64_t s[25], int rounds);
void spec_sponge(unsigned rate, uint8_t dom, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen);
void spec_sha3_256(uint8_t *o, const uint8_t *i, size_t n);
void spec_sha3_512(uint8_t *o, const uint8_t *i, size_t n);
void spec_shake128(uint8_t *o, size_t on, const uint8_t *i, size_t n);
void spec_shake256(uint8_t *o, size_t on, const uint8_t *i, size_t n);

typedef struct { int32_t c[SN]; } spoly;   /* always canonical 0..q-1 */
static inline int spec_eta1(int K){ return K==2?3:2; }
static inline int spec_du(int K){ return K==4?11:10; }
static inline int spec_dv(int K){ return K==4?5:4; }
static inline size_t spec_pkbytes(int K){ return 384*(size_t)K+32; }
static inline size_t spec_skbytes(int K){ return 768*(size_t)K+96; }
static inline size_t spec_ctbytes(int K){ return 32*(size_t)(K*spec_du(K)+spec_dv(K)); }
int32_t smod(int64_t x);
void spec_init(void);
void spec_ntt(spoly *p); void spec_invntt(spoly *p);      /* plain (non-Montgomery) */
void spec_basemul(spoly *r, const spoly *a, const spoly *b);
void spec_ringmul(spoly *r, const spoly *a, const spoly *b); /* schoolbook negacyclic */
uint32_t spec_compress(int32_t x, int d);                  /* x canonical */
int32_t spec_decompress(uint32_t y, int d);
void spec_encode(uint8_t *out, const uint32_t *v, int n, int d);
void spec_decode(uint32_t *v, const uint8_t *in, int n, int d);
void spec_cbd(int32_t *c, const uint8_t *buf, int eta);    /* signed values */
void spec_sample_ntt(spoly *p, const uint8_t seed34[34]);
void spec_matrix_entry(spoly *p, const uint8_t rho[32], int x, int y); /* absorbs rho||x||y */
void spec_prf_poly(int32_t *c, const uint8_t key[32], uint8_t nonce, int eta);
void spec_cpa_keygen(int K, const uint8_t d[32], uint8_t *pk, uint8_t *sk);
void spec_cpa_enc(int K, const uint8_t m[32], const uint8_t *pk, const uint8_t r[32], uint8_t *ct);
void spec_cpa_dec(int K, const uint8_t *sk, const uint8_t *ct, uint8_t m[32]);
/* decode inner product before rounding: w[i] canonical */
void spec_cpa_dec_w(int K, const uint8_t *sk, const uint8_t *ct, spoly *w);
void spec_keypair(int K, const uint8_t coins[64], uint8_t *pk, uint8_t *sk);
void spec_enc(int K, const uint8_t *pk, const uint8_t m[32], uint8_t *ct, uint8_t *ss);
void spec_dec(int K, const uint8_t *sk, const uint8_t *ct, uint8_t *ss);
void spec_reject(int K, const uint8_t *sk, const uint8_t *ct, uint8_t *ss);
int  spec_selftest(void);                                  /* 0 ok */
#endif
