// the heap that keeps the K largest (MinHeap) or smallest (MaxHeap) of N values
#include "sym.h"
#include "sol/util/heap.h"
#include <stdexcept>
using namespace sol;
static const int NM = 72;
static int nsym = NM;   // how many of the values are arbitrary; the others are spread over the same range
static real_t val(const char* nm, int i, int N, int salt) { int p = (i * 29 + salt) % N; return p < nsym ? sym_real(nm, 1000) : (real_t)((i * 37 + salt * 11) % 101 * 19 - 950); }
template <class H> static void run(int sign, int N, int K, int ops, int how) {
  static real_t v[NM], v2[NM];
  for (int i = 0; i < N; ++i) v[i] = val("value", i, N, 0);
  bool mem[NM];
  H h;
  if (how & 1) {   // chosen start set: the last K
    index_t ix[NM];
    for (int i = 0; i < K; ++i) ix[i] = N - 1 - i;
    h.Init(N, K, ix, v);
    for (int i = 0; i < N; ++i) mem[i] = i >= N - K;
  } else { h.Init(N, K, v); for (int i = 0; i < N; ++i) mem[i] = i < K; }
  REQ((int)h.K() == K, "the size asked for");
  real_t* cur = v;
  auto check = [&](bool top) {
    int n = 0; bool at[NM] = {false};
    for (int i = 0; i < N; ++i) {
      REQ(h.isTopK(i) == mem[i], "membership");
      if (mem[i]) { ++n; index_t p = h.get_pos(i); REQ(p < (index_t)K, "a member has a position below K"); at[sym_concretize(p)] = true; REQ(h.value_by_pos(p) == cur[i], "the value at a member's position"); }
      if (mem[i]) REQ(sign * h.value_by_pos(0) <= sign * cur[i], "the root is the least important member");
    }
    REQ(n == K, "K members");
    for (int i = 0; i < K; ++i) REQ(at[i], "members have distinct positions");
    if (top) for (int i = 0; i < N; ++i) for (int j = 0; j < N; ++j) if (mem[i] && !mem[j]) REQ(sign * cur[i] >= sign * cur[j], "no value left out is better than a member");
  };
  auto update = [&](int i) {
    bool was = mem[i];
    index_t r = h.UpdateHeap(i);
    if (was) { REQ(r == invalid_index, "updating a member changes nothing"); return; }
    r = (index_t)sym_concretize(r);
    REQ(r < (index_t)N && (r == (index_t)i || mem[r]), "the value left out is the new one or a member");
    if (r >= (index_t)N) return;
    if (r != (index_t)i) { mem[i] = true; mem[r] = false; }
    for (int j = 0; j < N; ++j) if (mem[j]) REQ(sign * cur[j] >= sign * cur[r], "the least important value is left out");
  };
  check(false);
  for (int i = 0; i < N; ++i) update(i);
  check(true);
  sym_reach("selected");
  for (int o = 0; o < ops; ++o) {   // a value becomes more important
    int j = nsym >= N ? sym_pick("index", 0, N - 1) : (o * 13 + 7) % N;
    real_t nv = sym_real("new value", 1000);
    sym_assume(sign * nv >= sign * cur[j]);
    cur[j] = nv;
    if (mem[j]) h.AdjustHeap(h.get_pos(j), K - 1); else update(j);
    check(true);
  }
  if (how & 2) {   // more values
    for (int i = 0; i < N; ++i) v2[i] = v[i];
    v2[N] = sym_real("more", 1000);
    cur = v2; mem[N] = false;
    h.set_N(N + 1, v2); ++N;
    update(N - 1);
    check(true);
    bool thrown = false;
    try { h.set_N(N - 1, v2); } catch (std::invalid_argument&) { thrown = true; }
    REQ(thrown, "the number of values does not decrease");
    check(true);
  }
  if (how & 4) {   // arbitrary new values, heap rebuilt
    for (int i = 0; i < N; ++i) cur[i] = val("rebuilt", i, N, 5);
    h.BuildHeap(); check(false);
    for (int i = 0; i < N; ++i) update(i);
    check(true);
  }
  if (how & 8) {
    h.HeapSort();
    for (int i = 0; i < N; ++i) { REQ(h.isTopK(i) == mem[i], "sorting keeps the members"); if (mem[i]) REQ(h.value_by_pos(h.get_pos(i)) == cur[i], "the value at a member's position"); }
    for (int i = 0; i + 1 < K; ++i) REQ(sign * h.value_by_pos(i) >= sign * h.value_by_pos(i + 1), "sorted, the most important first");
    h.BuildHeap(); check(true);
  }
  sym_reach("done");
}
extern "C" void harness(int kind, int N, int K, int how, int few) {
  if (few) nsym = few < 0 ? 0 : few;
  if (kind) run<MaxHeap>(-1, N, K, how / 10, how % 10); else run<MinHeap>(1, N, K, how / 10, how % 10);
}
