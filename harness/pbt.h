/* Property-based testing engine: recorded choices, forked workers, shrinking, replay. */
#ifndef PBT_H
#define PBT_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>

typedef struct pbt_prop_t { const char * name; void (*fn) (void); } pbt_prop_t;

/* uniform in [0, n); n == 0 means any 64-bit value; 0 is the simplest choice */
uint64_t pbt_draw (uint64_t n);
int64_t pbt_range (int64_t lo, int64_t hi);      /* inclusive; lo is the simplest */
bool pbt_chance (unsigned num, unsigned den);    /* true with probability num/den; false is simplest */
unsigned pbt_geom (unsigned max, unsigned num, unsigned den); /* number of consecutive successes, at most max */
#define PBT_PICK(ARRAY) ((ARRAY)[pbt_draw (sizeof (ARRAY) / sizeof ((ARRAY)[0]))])

void pbt_label (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));
void pbt_count (const char * name, uint64_t n);
void pbt_note (const char * fmt, ...) __attribute__ ((format (printf, 1, 2)));
void pbt_note_bytes (const char * title, const void * data, size_t size);
void pbt_nontrivial (uint64_t hash);
void pbt_reject (void) __attribute__ ((noreturn)); /* case is outside of the domain (counted) */
/* SIG identifies the kind of failure (kept while shrinking) */
void pbt_fail (const char * sig, const char * fmt, ...) __attribute__ ((noreturn, format (printf, 2, 3)));
#define PBT_CHECK(COND, SIG, ...) do { if (!(COND)) pbt_fail (SIG, __VA_ARGS__); } while (0)
uint64_t pbt_hash (uint64_t seed, const void * data, size_t size);
static inline uint64_t pbt_mix (uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32); }
bool pbt_replaying (void);
extern int pbt_verbose;
extern uint64_t pbt_index;  /* index of the running case */

int pbt_main (int argc, char * argv[], const pbt_prop_t * props);
#endif
