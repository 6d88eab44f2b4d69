/* Interposition of the hash layer: when orc_active is set, every SHA3/SHAKE
 * query made by the KEM libraries is answered by it instead of by Keccak. */
#ifndef ORACLE_H
#define ORACLE_H
#include "libs.h"
extern orc_fn orc_active;          /* NULL: real library */
void orc_init(void);               /* after libs_load */
extern long orc_queries;
extern void (*orc_edge)(int);
extern void (*orc_call)(void);
/* Convenience fakes (also used by the model through spec_orc):
 * matrix stream: SHAKE128 on 34 bytes; noise: SHAKE256 on 33 bytes. NULL = real */
extern void (*fake_xof)(const uint8_t seed34[34], uint8_t *out, size_t len, size_t off);
extern void (*fake_prf)(const uint8_t key33[33], uint8_t *out, size_t len, size_t off);
extern void (*fake_g)(const uint8_t *in, size_t inlen, uint8_t out[64]); /* SHA3-512 */
void fake_orc(int alg, const uint8_t *in, size_t inlen, uint8_t *out, size_t outlen, size_t off);
void fake_on(void);                /* route both sides through fake_orc */
void fake_off(void);
#endif
