// interface between harnesses and the symbolic executor; sym_native.cc implements it natively for replay
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
extern "C" {
uint8_t sym_u8(const char* name);
uint16_t sym_u16(const char* name);
uint32_t sym_u32(const char* name);
uint64_t sym_u64(const char* name);
float sym_f32(const char* name);        // any float (fp mode: any bit pattern, real mode: any real)
double sym_f64(const char* name);
void sym_assume(int cond);
void sym_assert(int cond, const char* label);
void sym_close(double a, double b, const char* label);  // real mode: a == b; native: equal up to rounding
void sym_reach(const char* label);      // vacuity witness
uint64_t sym_concretize(uint64_t v);    // case split over all feasible values
int sym_branch(int cond);               // case split
int sym_is_real(void);
int sym_native(void);
int sym_is_sym(double v);
int sym_is_symi(uint64_t v);
void sym_nonfinite_ok(int on);          // real mode: 1 = paths that divide by zero are outside the claim
void sym_exit(void);                    // end this path, nothing to check
void sym_incomplete(const char* why);   // end this path, outside the bound (reported)
double sym_fresh_close(double v, double rel);
int sym_fmt_double(char* buf, int cap, const char* fmt, double v);
double sym_parse_double(const char* text);
uint64_t sym_live_heap(void);
int sym_thread_create(void (*fn)(void*), void* arg);
void sym_thread_join(int id);
int sym_thread_self(void);
// virtual files (native: real files below the current directory)
void sym_file_put(const char* path, const void* data, size_t n);
long sym_file_size(const char* path);            // -1: absent
long sym_file_get(const char* path, void* buf, size_t cap);
}
static inline int sym_int(const char* name, int lo, int hi) {
  int v = (int)sym_u32(name);
  sym_assume(v >= lo && v <= hi);
  return v;
}
// an arbitrary value of [lo,hi], one path per value
static inline int sym_pick(const char* name, int lo, int hi) {
  int v = sym_int(name, lo, hi);
  return lo + (int)sym_concretize((uint64_t)(uint32_t)(v - lo));
}
// arbitrary float in [-b,b]
static inline float sym_real(const char* name, float b) {
  float v = sym_f32(name);
  sym_assume(v >= -b && v <= b);
  return v;
}
static inline float sym_realin(const char* name, float lo, float hi) {
  float v = sym_f32(name);
  sym_assume(v >= lo && v <= hi);
  return v;
}
// text of a (possibly symbolic) number for string-typed parameters
std::string sym_text(float v);
#define REQ(c, label) sym_assert((c) ? 1 : 0, label)
