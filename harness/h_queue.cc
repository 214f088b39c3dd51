// BlockQueue under every schedule. kind 0: P producers, C consumers, single-element operations
// kind 1: list operations (a: 1 = force, b: list length, c: capacity); kind 2: two forced consumers; kind 3: non-blocking observers
#include "sym.h"
#include "sol/util/block_queue.h"
#include "sol/util/thread.h"
using namespace sol;
static int vals[64];
typedef BlockQueue<int*> Q;
static Q* q;
// elements: an arbitrary payload and a tag that says who enqueued it, and as which one
typedef BlockQueue<uint64_t> QV;
static QV* qv; static uint64_t pay[64];
static int nPer, nGet;
static uint64_t got[4][16]; static int ngot[4];
static void producer(void* p) { long id = (long)p; for (int i = 0; i < nPer; ++i) q->Enqueue(&vals[id * 16 + i]); }
static void consumer(void* p) { long id = (long)p; (void)id; for (int i = 0; i < nGet; ++i) q->Dequeue(); }
static void vproducer(void* p) { long id = (long)p; for (int i = 0; i < nPer; ++i) qv->Enqueue(pay[id * 16 + i]); }
static void vconsumer(void* p) { long id = (long)p; for (int i = 0; i < nGet; ++i) got[id][ngot[id]++] = qv->Dequeue(); }
static void single(int P, int C, int n, int cap) {
  nPer = n; nGet = P * n / C;
  qv = new QV(cap);
  REQ(qv->capacity() == cap && qv->size() == 0 && qv->empty(), "a new queue is empty");
  for (int i = 0; i < P; ++i) for (int j = 0; j < n; ++j) pay[i * 16 + j] = ((uint64_t)sym_u32("payload") << 8) | (uint64_t)(i * 16 + j);
  Thread* t[8]; int k = 0;
  for (long i = 0; i < P; ++i) t[k++] = new Thread(vproducer, (void*)i);
  for (long i = 1; i < C; ++i) t[k++] = new Thread(vconsumer, (void*)i);
  vconsumer((void*)0);
  for (int i = 0; i < k; ++i) t[i]->join();
  int seen[64] = {0};
  for (int c = 0; c < C; ++c) {
    REQ(ngot[c] == nGet, "every element asked for is delivered");
    int last[4] = {-1, -1, -1, -1};
    for (int i = 0; i < ngot[c]; ++i) {
      unsigned v = (unsigned)sym_concretize(got[c][i] & 255);
      REQ(v < 64 && (int)(v / 16) < P && (int)(v % 16) < n && got[c][i] == pay[v], "only enqueued elements are delivered, unchanged");
      seen[v]++;
      REQ((int)(v % 16) > last[v / 16], "elements of one producer come in order");
      last[v / 16] = (int)(v % 16);
    }
  }
  for (int i = 0; i < P; ++i) for (int j = 0; j < n; ++j) REQ(seen[i * 16 + j] == 1, "each element is delivered exactly once");
  REQ(qv->size() == 0 && qv->empty(), "nothing is left");
  delete qv;
  sym_reach("done");
}
static int listN, listNum, listForce; static int* listEl[16];
static void listProducer(void*) {
  int* l[16];
  for (int i = 0; i < listN; ++i) l[i] = listEl[i];
  q->Enqueue(l, listN);
}
static void lists(int force, int n, int cap, int num) {
  listN = n; listForce = force; listNum = num;
  for (int i = 0; i + 1 < n; ++i) listEl[i] = sym_branch(sym_u8("null") & 1) ? nullptr : &vals[i];   // any element may be the end mark
  listEl[n - 1] = nullptr;
  q = new Q(cap);
  Thread t(listProducer, nullptr);
  int* out[32]; int k = 0;
  while (k < n) {
    int r = q->Dequeue(out + k, num, force != 0);
    REQ(r >= 1 && r <= num, "between one and the asked number of elements are delivered");
    if (force) REQ(r == num || out[k + r - 1] == nullptr, "a forced dequeue is complete unless the stream ends");
    k += r;
    REQ(k <= n, "not more than enqueued");
  }
  t.join();
  for (int i = 0; i < n; ++i) REQ(out[i] == listEl[i], "first in, first out");
  REQ(q->size() == 0, "nothing is left");
  delete q;
  sym_reach("done");
}
static int* fgot[2][4]; static int fr[2];
static void forcedConsumer(void* p) { long id = (long)p; fr[id] = q->Dequeue(fgot[id], 2, true); }
static void forced(int cap) {
  nPer = 4;
  q = new Q(cap);
  Thread a(producer, (void*)0), b(forcedConsumer, (void*)1);
  forcedConsumer((void*)0);
  a.join(); b.join();
  int seen[4] = {0, 0, 0, 0};
  for (int c = 0; c < 2; ++c) {
    REQ(fr[c] == 2, "a forced dequeue is complete unless the stream ends");
    for (int i = 0; i < 2; ++i) { long v = fgot[c][i] - vals; REQ(v >= 0 && v < 4, "only enqueued elements are delivered"); seen[v]++; }
  }
  for (int i = 0; i < 4; ++i) REQ(seen[i] == 1, "each element is delivered exactly once");
  REQ(q->size() == 0, "nothing is left");
  sym_reach("done");
}
struct El { int* n; ~El() { ++*n; } };
static void owned(int put, int get, int cap) {
  int died = 0;
  {
    BlockQueue<El*, QueueType::Element> e(cap);
    for (int i = 0; i < put; ++i) e.Enqueue(new El{&died});
    for (int i = 0; i < get; ++i) { El* x = e.Dequeue(); REQ(died == i, "elements live until taken"); delete x; }
    for (int i = 0; i < get; ++i) e.Enqueue(new El{&died});
    REQ(e.size() == put, "size");
  }
  REQ(died == put + get, "the queue destroys what it owns, once");
  sym_reach("done");
}
static void observer(void* p) { int n = 0; for (int i = 0; i < 2; ++i) { int s = q->size(); REQ(s >= 0 && s <= q->capacity(), "size within capacity"); n += q->empty(); } *(int*)p = n; }
static void observed(int n, int cap) {
  nPer = n; nGet = n;
  q = new Q(cap);
  int r;
  Thread a(producer, (void*)0), b(observer, &r);
  consumer((void*)0);
  a.join(); b.join();
  sym_reach("done");
}
// kind 5: P producers and C consumers, each with single-element or list operations
static int mixNum; static int* pgot[4][16];
static void mixProducer(void* p) {
  long id = (long)p;
  if (id & 16) { int* l[16]; for (int i = 0; i < nPer; ++i) l[i] = &vals[(id & 15) * 16 + i]; q->Enqueue(l, nPer); }
  else producer((void*)(id & 15));
}
static void mixConsumer(void* p) {
  long id = (long)p; long c = id & 15;
  if (id & 16) { while (ngot[c] < nGet) { int k = nGet - ngot[c] < mixNum ? nGet - ngot[c] : mixNum; int r = q->Dequeue(pgot[c] + ngot[c], k, false); REQ(r >= 1 && r <= k, "between one and the asked number of elements are delivered"); ngot[c] += r; } }
  else for (int i = 0; i < nGet; ++i) pgot[c][ngot[c]++] = q->Dequeue();
}
// cfg: P, C, elements per producer, capacity; mask: bit i: producer i uses lists, bit 4 + i: consumer i uses lists
static void mixed(int cfg, int mask, int num) {
  int P = cfg / 1000, C = cfg / 100 % 10, n = cfg / 10 % 10, cap = cfg % 10;
  nPer = n; nGet = P * n / C; mixNum = num;
  q = new Q(cap);
  Thread* t[8]; int k = 0;
  for (long i = 1; i < C; ++i) t[k++] = new Thread(mixConsumer, (void*)(i | (mask >> (4 + i) & 1) << 4));
  for (long i = 0; i < P; ++i) t[k++] = new Thread(mixProducer, (void*)(i | (mask >> i & 1) << 4));
  mixConsumer((void*)(long)((mask >> 4 & 1) << 4));
  for (int i = 0; i < k; ++i) t[i]->join();
  int seen[64] = {0};
  for (int c = 0; c < C; ++c) {
    REQ(ngot[c] == nGet, "every element asked for is delivered");
    int last[4] = {-1, -1, -1, -1};
    for (int i = 0; i < ngot[c]; ++i) {
      long v = pgot[c][i] - vals;
      REQ(v >= 0 && v < 64 && (int)(v / 16) < P && (int)(v % 16) < n, "only enqueued elements are delivered, unchanged");
      seen[v]++;
      REQ((int)(v % 16) > last[v / 16], "elements of one producer come in order");
      last[v / 16] = (int)(v % 16);
    }
  }
  for (int i = 0; i < P; ++i) for (int j = 0; j < n; ++j) REQ(seen[i * 16 + j] == 1, "each element is delivered exactly once");
  REQ(q->size() == 0, "nothing is left");
  delete q;
  sym_reach("done");
}
extern "C" void harness(int kind, int a, int b, int c) {
  if (kind == 5) { mixed(a, b, c); return; }
  if (kind == 0) single(a, b, c / 10, c % 10);
  else if (kind == 1) lists(a, b, c / 10, c % 10);
  else if (kind == 2) forced(a);
  else if (kind == 3) owned(a, b, c);
  else observed(a, b);
}
