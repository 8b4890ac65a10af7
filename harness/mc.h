// Stateless, choice-driven exhaustive explorer (the deciding engine of every check).
//
// A suite is a body that asks mc_choose(n) whenever the environment/user/scheduler has
// n options.  The explorer runs the body once for every sequence of answers (depth
// first, complete), in forked workers, and reports every execution in which the
// body called mc_fail() or in which the code under test crashed, hit an assertion,
// tripped a sanitizer or failed to terminate.
#pragma once
#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>

typedef struct mc_suite {
	const char* name;
	void (*fn)(void);
	int tiers;            // bit0: run in quick, bit1: run in thorough
	void (*boot)(void);   // called once per worker process before the first case
} mc_suite;

#define MC_Q 1
#define MC_T 2
#define MC_QT 3

// --- provided by each property harness
extern const mc_suite mc_suites[];
extern const int mc_suite_count;
extern const char* mc_rule;   // text for evidence: how cases are made, what is non-trivial

// --- for bodies
int  mc_choose(int n);                 // 0..n-1, every value explored
int  mc_range(int n);                  // like mc_choose for large n
int  mc_fault(int n);                  // like mc_choose, but non-zero answers are bounded
                                       // (deviation bound mc_fault_bound per execution)
extern int mc_fault_bound;
void mc_desc(const char* fmt, ...) __attribute__((format(printf,1,2)));  // append to case text
void mc_desc_bytes(const char* s, int n);
void mc_fail(const char* fmt, ...) __attribute__((format(printf,1,2),noreturn));
void mc_skip(void) __attribute__((noreturn)); // execution outside the defined space: not counted
void mc_trans(int n);                  // n transitions executed on the real code
bool mc_state(uint64_t h);             // a reached state (canonical hash); true if new
void mc_outcome(uint64_t h);           // observed outcome of the execution
void mc_nontrivial(uint64_t h);        // this execution counts as non-trivial, with identity h
void mc_validated(int n);              // n model predictions compared with the real code
extern int mc_thorough;
extern int mc_replaying;
extern const char* mc_scratch;         // private scratch directory of this worker

// used by crash traps (assert/abort hooks)
void mc_crash(const char* what) __attribute__((noreturn));
void mc_no_case_timer(int seconds);    // per-case CPU limit override

static inline uint64_t mc_mix(uint64_t h, uint64_t v){
	h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
	return h;
}
uint64_t mc_hash(const void* d, size_t n);
