// Harness API. Under the symbolic executor these calls are interpreted; in a
// native replay build (vp_native.cpp) they read the recorded counterexample.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint8_t vp_u8(const char *name);                                   // arbitrary byte
uint64_t vp_u64(const char *name);                                 // arbitrary 64-bit word
uint64_t vp_choose(const char *name, uint64_t lo, uint64_t hi);    // arbitrary value in [lo,hi], one path per value
uint64_t vp_concrete(uint64_t v);                                  // split the path per value
void vp_assume(int c);
void vp_assert(int c, const char *msg);
void vp_cover(const char *label);                                  // reachability witness
uint64_t vp_ite(int c, uint64_t a, uint64_t b);                    // branch-free choice
uint64_t vp_live(void);                                            // live heap allocations
void vp_spawn(void (*fn)(void *), void *arg);
void vp_join_all(void);
uint64_t vp_param(const char *name, uint64_t dflt);                // bound given on the command line
void vp_note(const char *label, const char *s, uint64_t n);        // replay output only
void vp_hash_mode(int mode);                                       // 0 real, 1 all collide, 2 injective oracle
int vp_is_symbolic(void);
void vp_mark(const char *label);
void vp_main(void);
}
