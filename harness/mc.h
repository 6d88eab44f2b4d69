/* Exploration engine shared by all harnesses: enumerates "units" of a finite
 * space over forked workers, counts what was covered, records violations with
 * enough data to replay them, and replays before reporting. */
#ifndef MC_H
#define MC_H
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

extern int mc_thorough;          /* VERIF_TIER == thorough */
extern uint64_t mc_seed;
extern const char *mc_libdir;    /* built copy of the repository */
extern const char *mc_arg;       /* free argument for a harness (--arg) */
extern int mc_jobs;

typedef void (*mc_fn)(long idx);
void mc_init(int argc, char **argv, const char *prop);
/* register n units fn(0..n-1) under a name; timeout in seconds per unit */
void mc_units(const char *name, mc_fn fn, long n);
void mc_set_timeout(int sec);
void mc_limit(int sec);   /* limit of the current unit: processor seconds */
int  mc_run(void);               /* explores everything; returns exit code */

void mc_trans(long n);           /* implementation operations executed */
void mc_trace(long n);           /* model traces replayed against the implementation */
int  mc_state(uint64_t h);       /* distinct model state (hash); 1 if new */
void mc_count(const char *name, long n);   /* named coverage counter */
void mc_note(const char *fmt, ...);        /* coverage note (e.g. section skipped) */
void mc_sample(const char *fmt, ...);
void mc_ctx(const char *fmt, ...) __attribute__((format(printf,1,2)));  /* what is being tried, for crash reports */
void mc_fail(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
void mc_finding(const char *key, const char *fmt, ...); /* candidate known finding */

uint64_t mc_hash(const void *p, size_t n);
uint64_t mc_hash2(uint64_t a, uint64_t b);
void mc_hex(char *dst, const void *p, size_t n);           /* dst 2n+1 */
char *mc_hexs(const void *p, size_t n);                    /* rotating static buffers */

/* deterministic bytes: fill from (tag,idx) with an independent splitmix stream */
void mc_fill(void *p, size_t n, uint64_t tag);
uint64_t mc_rand(uint64_t *s);
#endif
