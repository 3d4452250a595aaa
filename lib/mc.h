/*
 * mc.h - stateless explicit choice-tree model checker for in-process C code.
 *
 * A scenario is a deterministic function.  Every nondeterministic decision
 * (which operation, which argument, which allocation fails, how a request is
 * split, ...) is taken through mc_choose(n).  The explorer runs the scenario
 * again and again until every combination of answers has been executed
 * (depth-first over the choice tree, work shared by several processes).
 */
#ifndef MC_H
#define MC_H
#include <stdarg.h>
#include <stddef.h>
#include <stdint.h>

enum { MC_QUICK = 1, MC_THOROUGH = 2 };

typedef struct {
	const char *prop;        /* property id the scenario decides      */
	const char *name;        /* scenario name (appears in the replay) */
	void (*run)(int param);
	int param;
	int tier;                /* MC_QUICK: in both tiers; MC_THOROUGH: thorough only */
} McScenario;

typedef struct {
	const char *prop;
	const char *level;       /* EVIDENCE level */
	const char *rule;        /* how cases are made / what is non-trivial */
	const char *bounds;      /* alphabet and bounds */
	const char *oracle;
} McPropInfo;

int  mc_main (int argc, char **argv, const McScenario *scen, int nscen,
              const McPropInfo *props, int nprops);

/* one decision: returns 0 .. n-1 (n <= 65535) */
int  mc_choose (int n);
/* human readable trace line, only produced when an execution is replayed */
void mc_log (const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/* property violated; key identifies the finding in known-findings.txt */
void mc_fail (const char *key, const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
#define MC_CHECK(cond, key, ...) do { if (!(cond)) mc_fail (key, __VA_ARGS__); } while (0)
/* the harness itself is broken (never reported as a violation) */
void mc_harness_error (const char *fmt, ...) __attribute__((format(printf, 1, 2), noreturn));
/* give up this execution (infeasible combination): not counted as validated */
void mc_discard (void) __attribute__((noreturn));

/* measured coverage */
void mc_state (uint64_t hash);          /* an observed abstract/concrete state */
void mc_trans (uint64_t n);             /* operations executed on the implementation */
void mc_eval  (uint64_t n);             /* oracle evaluations (input cases)          */
void mc_cover (const char *fmt, ...);   /* tag seen at least once (names distinct outcomes) */
int  mc_tier (void);
int  mc_replaying (void);

uint64_t mc_hash (uint64_t h, const void *p, size_t n);
uint64_t mc_hash64 (uint64_t h, uint64_t v);

/* allocation seam: library calls to malloc & co are routed here (-Wl,--wrap) */
extern long  mc_heap_live;         /* live blocks allocated by library + harness via malloc */
extern long  mc_heap_allocs;       /* allocation requests so far          */
extern long  mc_heap_fail_at;      /* index of the request that fails, -1 */
extern int   mc_heap_failed;       /* set when a failure was injected     */
extern int   mc_heap_fill;         /* byte new memory is filled with      */
extern size_t mc_heap_max_request; /* largest request seen                */
extern size_t mc_heap_limit;       /* larger requests fail (not counted as injected) */
extern int mc_rand_value;            /* result of rand () in the library */
void mc_heap_reset (void);
void *mc_raw_malloc (size_t n);
void  mc_raw_free (void *p);
#endif
