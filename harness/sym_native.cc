// native side of sym.h: replays a counterexample written by the symbolic executor
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <vector>
#include <unistd.h>
static std::map<std::string, std::string> in;
static std::map<std::string, int> cnt;
static bool loaded = false;
static void load() {
  if (loaded) return;
  loaded = true;
  const char* p = getenv("SYM_INPUTS");
  if (!p) return;
  std::ifstream f(p);
  std::string line;
  while (std::getline(f, line)) {
    size_t t = line.find('\t');
    if (t != std::string::npos) in[line.substr(0, t)] = line.substr(t + 1);
  }
}
static const std::string* get(const char* name) {
  load();
  int k = cnt[name]++;
  std::string n = k ? std::string(name) + "#" + std::to_string(k) : name;
  auto it = in.find(n);
  return it == in.end() ? nullptr : &it->second;
}
static uint64_t num(const char* n) { auto* s = get(n); return s ? strtoull(s->c_str(), nullptr, 10) : 0; }
extern "C" {
uint8_t sym_u8(const char* n) { return (uint8_t)num(n); }
uint16_t sym_u16(const char* n) { return (uint16_t)num(n); }
uint32_t sym_u32(const char* n) { return (uint32_t)num(n); }
uint64_t sym_u64(const char* n) { return num(n); }
float sym_f32(const char* n) {
  auto* s = get(n);
  if (!s) return 0;
  if ((*s)[0] == 'b') { uint32_t b = (uint32_t)strtoull(s->c_str() + 1, nullptr, 10); float f; memcpy(&f, &b, 4); return f; }
  return strtof(s->c_str(), nullptr);
}
double sym_f64(const char* n) {
  auto* s = get(n);
  if (!s) return 0;
  if ((*s)[0] == 'b') { uint64_t b = strtoull(s->c_str() + 1, nullptr, 10); double f; memcpy(&f, &b, 8); return f; }
  return strtod(s->c_str(), nullptr);
}
void sym_assume(int c) {
  if (!c) { fprintf(stderr, "REPLAY assumption not met\n"); _exit(4); }
}
void sym_assert(int c, const char* l) {
  if (!c) { fprintf(stdout, "REPLAY-FAIL %s\n", l); fflush(stdout); _exit(10); }
}
void sym_close(double a, double b, const char* l) {
  static double tol = getenv("SYM_TOL") ? atof(getenv("SYM_TOL")) : 1e-3;
  bool ok;
  if (std::isnan(a) || std::isnan(b)) ok = std::isnan(a) && std::isnan(b);
  else ok = a == b || fabs(a - b) <= tol * std::max(1.0, std::max(fabs(a), fabs(b)));
  if (getenv("SYM_SHOW")) fprintf(stderr, "close %s: %.9g vs %.9g\n", l, a, b);
  if (!ok) { fprintf(stdout, "REPLAY-FAIL %s (%.9g, expected %.9g)\n", l, a, b); fflush(stdout); _exit(10); }
}
void sym_reach(const char*) {}
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_branch(int c) { return c; }
int sym_is_real(void) { return getenv("SYM_REAL") != nullptr; }
int sym_native(void) { return 1; }
int sym_is_sym(double) { return 0; }
void sym_nonfinite_ok(int) {}
void sym_exit(void) { _exit(0); }
void sym_incomplete(const char*) { _exit(0); }
double sym_fresh_close(double v, double) { return v; }
int sym_fmt_double(char* b, int cap, const char* f, double v) { return snprintf(b, cap, f, v); }
double sym_parse_double(const char* t) { return strtod(t, nullptr); }
uint64_t sym_live_heap(void) { return 0; }
int sym_is_symi(uint64_t) { return 0; }
void sym_file_put(const char* p, const void* d, size_t n) { FILE* f = fopen(p, "wb"); if (f) { fwrite(d, 1, n, f); fclose(f); } }
long sym_file_size(const char* p) { FILE* f = fopen(p, "rb"); if (!f) return -1; fseek(f, 0, SEEK_END); long n = ftell(f); fclose(f); return n; }
long sym_file_get(const char* p, void* b, size_t cap) { FILE* f = fopen(p, "rb"); if (!f) return -1; long n = (long)fread(b, 1, cap, f); fclose(f); return n; }
void harness(int, int, int, int, int, int);
}
// ---- replay of a schedule: one thread runs at a time, handed over exactly where the executor hands over
#include <pthread.h>
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __real_pthread_cond_signal(pthread_cond_t*);
int __real_pthread_cond_broadcast(pthread_cond_t*);
int __real_pthread_create(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
int __real_pthread_join(pthread_t, void**);
}
namespace {
struct Th { int status = 0, opkind = 0; void* obj = nullptr; int jt = 0; bool go = false, parked = false; void* cond = nullptr; pthread_cond_t cv = PTHREAD_COND_INITIALIZER; pthread_t h; void* (*fn)(void*); void* arg; };
pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER;
std::vector<Th*> T;
std::vector<int> sched; size_t spos = 0;
std::map<void*, int> owner;
thread_local int me = 0;
bool on() {
  static int s = -1;
  if (s < 0) {
    const char* p = getenv("SYM_SCHED");
    s = p != nullptr;
    if (p) { std::stringstream ss(p); std::string x; while (std::getline(ss, x, ',')) if (!x.empty()) sched.push_back(atoi(x.c_str())); T.push_back(new Th()); }
  }
  return s == 1;
}
bool enabled(int t) {
  Th& x = *T[t];
  if (x.status) return false;
  if (!x.parked) return true;
  if (x.opkind == 1 || x.opkind == 2) return owner[x.obj] == 0;
  if (x.opkind == 3) return T[x.jt]->status == 2;
  return true;
}
// pick the next thread (G held)
void pick() {
  int n = -1;
  if (spos < sched.size() && sched[spos] < 100) { n = sched[spos++]; if (n >= (int)T.size()) n = -1; else if (T[n]->status == 1) T[n]->status = 0; }
  if (n < 0 || !enabled(n)) { n = -1; for (int t = 0; t < (int)T.size() && n < 0; ++t) if (enabled(t)) n = t; }
  if (n < 0) { fprintf(stdout, "REPLAY-FAIL deadlock: no thread can proceed\n"); fflush(stdout); _exit(11); }
  T[n]->go = true;
  __real_pthread_cond_signal(&T[n]->cv);
}
void park() { // G held; returns when scheduled
  pick();
  while (!T[me]->go) __real_pthread_cond_wait(&T[me]->cv, &G);
  T[me]->go = false; T[me]->parked = false; T[me]->opkind = 0;
}
void syncOp(int kind, void* obj, int jt = 0) { T[me]->parked = true; T[me]->opkind = kind; T[me]->obj = obj; T[me]->jt = jt; park(); }
void* entry(void* p) {
  me = (int)(intptr_t)p;
  __real_pthread_mutex_lock(&G);
  while (!T[me]->go) __real_pthread_cond_wait(&T[me]->cv, &G);
  T[me]->go = false; T[me]->parked = false; T[me]->opkind = 0;
  __real_pthread_mutex_unlock(&G);
  void* r = T[me]->fn(T[me]->arg);
  __real_pthread_mutex_lock(&G);
  T[me]->status = 2;
  pick();
  __real_pthread_mutex_unlock(&G);
  return r;
}
}
extern "C" {
int __wrap_pthread_mutex_lock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_lock(m);
  __real_pthread_mutex_lock(&G); syncOp(1, m); owner[m] = me + 1; __real_pthread_mutex_unlock(&G); return 0;
}
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_trylock(m);
  __real_pthread_mutex_lock(&G); syncOp(5, m); bool ok = owner[m] == 0; if (ok) owner[m] = me + 1; __real_pthread_mutex_unlock(&G); return ok ? 0 : 16;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!on()) return __real_pthread_mutex_unlock(m);
  __real_pthread_mutex_lock(&G);
  if (owner[m] != me + 1) { fprintf(stdout, "REPLAY-FAIL unlock of a mutex that is not held\n"); fflush(stdout); _exit(11); }
  owner[m] = 0; __real_pthread_mutex_unlock(&G); return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!on()) return __real_pthread_cond_wait(c, m);
  __real_pthread_mutex_lock(&G);
  owner[m] = 0; T[me]->cond = c; T[me]->status = 1; T[me]->parked = true; T[me]->opkind = 2; T[me]->obj = m; park(); owner[m] = me + 1;
  __real_pthread_mutex_unlock(&G); return 0;
}
int __wrap_pthread_cond_signal(pthread_cond_t* c) {
  if (!on()) return __real_pthread_cond_signal(c);
  __real_pthread_mutex_lock(&G);
  std::vector<int> w;
  for (int t = 0; t < (int)T.size(); ++t) if (T[t]->status == 1 && T[t]->cond == c) w.push_back(t);
  if (!w.empty()) {
    int n = w[0];
    if (w.size() > 1 && spos < sched.size() && sched[spos] >= 100) n = sched[spos++] - 100;
    if (n < (int)T.size() && T[n]->status == 1) T[n]->status = 0;
  }
  __real_pthread_mutex_unlock(&G); return 0;
}
int __wrap_pthread_cond_broadcast(pthread_cond_t* c) {
  if (!on()) return __real_pthread_cond_broadcast(c);
  __real_pthread_mutex_lock(&G);
  for (auto* t : T) if (t->status == 1 && t->cond == c) t->status = 0;
  __real_pthread_mutex_unlock(&G); return 0;
}
int __wrap_pthread_create(pthread_t* h, const pthread_attr_t* at, void* (*fn)(void*), void* a) {
  if (!on()) return __real_pthread_create(h, at, fn, a);
  __real_pthread_mutex_lock(&G);
  Th* t = new Th(); t->fn = fn; t->arg = a; t->parked = true; t->opkind = 4;
  T.push_back(t);
  int r = __real_pthread_create(&t->h, at, entry, (void*)(intptr_t)(T.size() - 1));
  *h = t->h;
  __real_pthread_mutex_unlock(&G); return r;
}
int __wrap_pthread_join(pthread_t h, void** r) {
  if (!on()) return __real_pthread_join(h, r);
  __real_pthread_mutex_lock(&G);
  int id = 0;
  for (int t = 1; t < (int)T.size(); ++t) if (pthread_equal(T[t]->h, h)) id = t;
  syncOp(3, nullptr, id);
  __real_pthread_mutex_unlock(&G);
  return __real_pthread_join(h, r);
}
static std::vector<pthread_t> ths;
struct TA { void (*fn)(void*); void* a; };
static void* tramp(void* p) { TA* t = (TA*)p; t->fn(t->a); return nullptr; }
int sym_thread_create(void (*fn)(void*), void* a) { pthread_t h; __wrap_pthread_create(&h, nullptr, tramp, new TA{fn, a}); ths.push_back(h); return (int)ths.size(); }
void sym_thread_join(int id) { __wrap_pthread_join(ths[id - 1], nullptr); }
}
std::string sym_text(float v) { char b[64]; snprintf(b, sizeof b, "%.9g", v); return b; }
int main(int argc, char** argv) {
  int a[6] = {0, 0, 0, 0, 0, 0};
  for (int i = 1; i < argc && i < 7; ++i) a[i - 1] = atoi(argv[i]);
  harness(a[0], a[1], a[2], a[3], a[4], a[5]);
  fflush(stdout);
  _exit(0);
}
