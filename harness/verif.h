// Harness interface.  The functions are models inside the symbolic executor
// (engine/models.py) and plain code under native replay (rt_native.cc).
#ifndef VERIF_H
#define VERIF_H
#include <cstddef>
#include <cstdint>
extern "C" {
// symbolic inputs
double v_real(const char * name);              // any real / double
float v_float(const char * name);              // any float
double v_fix(const char * name, int bits, int frac); // (uint<bits> [+ f in [0,1)]) / 2^bits
uint64_t v_u64(const char *);
uint32_t v_u32(const char *);
uint16_t v_u16(const char *);
uint8_t v_u8(const char *);
int32_t v_i32(const char *);
int64_t v_i64(const char *);
bool v_bool(const char *);
// integer in [lo,hi]; one path per value
int64_t v_pick(const char * name, int64_t lo, int64_t hi);
// force a concrete value (one path per feasible value)
uint64_t v_conc(uint64_t x);
void v_assume(bool);
// obligations
void v_check(bool, const char * label);
void v_check_eq(double a, double b, const char * label);
void v_check_near(double a, double b, double tol, const char * label);
void v_check_le(double a, double b, const char * label);
void v_reach(const char * label);              // vacuity witness
bool v_isnan(double);                          // nan or infinite
bool v_defined(const void * p, size_t n);      // all bytes initialised
bool v_symbolic(void);
// MPI ranks
void v_ranks(int n, void (*fn)(int, void *), void * arg);
void * v_shared(size_t n);
}
#define ENTRY(n) extern "C" void h_##n(void); extern "C" __attribute__((noinline)) void h_##n(void)
#endif
