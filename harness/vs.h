// Harness interface. Under the symbolic executor these are built-ins; in native replays they
// read the values of one assignment from a file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
uint64_t vs_sym (const char *name, int bits);
double vs_double (const char *name);
uint64_t vs_choose (const char *name, uint64_t lo, uint64_t hi);
void vs_assume (bool c);
void vs_check (bool c, const char *msg);
uint64_t vs_ne (uint64_t a, uint64_t b); // a != b, left for the solver to decide
void vs_fail (const char *msg);
void vs_observe (const char *tag, uint64_t v);
void vs_reach (const char *tag);
bool vs_is_symbolic (uint64_t v);
uint64_t vs_concretize (uint64_t v);
int vs_case ();
int vs_tier ();
int vs_native ();
void vs_race (int on);
void vs_threads (int n);
void vs_must_terminate (uint64_t steps);
void vs_terminated ();
void vs_stop () __attribute__ ((noreturn));
void vs_print (const char *tag, uint64_t v);
}
static inline uint64_t vs_bits (double d) { uint64_t v; memcpy (&v, &d, 8); return v; }
static inline double vs_unbits (uint64_t v) { double d; memcpy (&d, &v, 8); return d; }
static inline uint8_t vs_u8 (const char *n) { return (uint8_t) vs_sym (n, 8); }
static inline uint16_t vs_u16 (const char *n) { return (uint16_t) vs_sym (n, 16); }
static inline uint32_t vs_u32 (const char *n) { return (uint32_t) vs_sym (n, 32); }
static inline uint64_t vs_u64 (const char *n) { return vs_sym (n, 64); }
static inline bool vs_bool (const char *n) { return (vs_sym (n, 8) & 1) != 0; }
