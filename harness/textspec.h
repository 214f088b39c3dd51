// what a data line means: 1 = well formed (fields filled in), -1 = certainly malformed, 0 = left open by the property
#pragma once
struct Spec { int label; int n; unsigned idx[1100]; double val[1100]; };
static inline bool sp_ws(char c) { return c == ' ' || c == '\t' || c == '\r'; }
static inline bool sp_end(const char* p) { while (*p == '\r' || *p == '\n' || sp_ws(*p)) ++p; return *p == 0; }
static inline bool sp_d(char c) { return c >= '0' && c <= '9'; }
// unsigned decimal integer of at most 10 digits with value <= max; 1 ok, 0 too large
static inline int sp_uint(const char*& p, unsigned long max, unsigned long& v) {
  v = 0; int k = 0; bool big = false;
  for (; sp_d(*p); ++p) { v = v * 10 + (unsigned long)(*p - '0'); if (++k > 10) big = true; }
  return !big && v <= max ? 1 : 0;
}
// value: digits[.digits][e[+-]dd]
static inline int sp_val(const char*& p, double& v) {
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if (!sp_d(*p) && !(*p == '.' && sp_d(p[1]))) return -1;
  double m = 0, sc = 1; int nd = 0;
  for (; sp_d(*p); ++p) m = m * 10 + (*p - '0');
  if (*p == '.') { ++p; for (; sp_d(*p); ++p) { if (nd == 7) return 0; m = m * 10 + (*p - '0'); sc *= 10; ++nd; } }
  v = m / sc;
  if (*p == 'e' || *p == 'E') {
    ++p;
    bool en = false;
    if (*p == '+' || *p == '-') en = *p++ == '-';
    int e = 0, k = 0;
    for (; sp_d(*p); ++p, ++k) { e = e * 10 + (int)sym_concretize((uint64_t)(*p - '0')); }
    if (k == 0 || k > 2) return 0;
    if (e > 30) return 0;
    for (int i = 0; i < e; ++i) v = en ? v / 10 : v * 10;
  }
  if (neg) v = -v;
  return 1;
}
static inline int sp_label(const char*& p, Spec& s) {
  bool neg = false;
  while (sp_ws(*p)) ++p;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  if (!sp_d(*p)) return *p == '.' && sp_d(p[1]) ? 0 : -1;
  unsigned long v;
  int r = sp_uint(p, neg ? 2147483648UL : 2147483647UL, v);
  if (*p == '.' || *p == 'e' || *p == 'E') return 0;
  if (!r) return -1;
  s.label = neg ? (int)(0 - (unsigned)v) : (int)v;
  return 1;
}
static inline int specSvm(const char* p, Spec& s) {
  s.n = 0;
  int r = sp_label(p, s);
  if (r != 1) return r;
  for (;;) {
    if (sp_end(p)) break;
    bool sep = false;
    while (sp_ws(*p) || *p == '\r') { ++p; sep = true; }
    if (!sp_d(*p)) return *p == '.' && sp_d(p[1]) ? 0 : -1;
    unsigned long ix;
    int u = sp_uint(p, 4294967295UL, ix);
    if (*p == '.' || *p == 'e' || *p == 'E') return 0;
    if (!u) return -1;
    if (sp_ws(*p) || *p == '\r') { const char* q = p; while (sp_ws(*q) || *q == '\r') ++q; return *q == ':' ? 0 : -1; }
    if (*p != ':') return -1;
    ++p;
    double v = 0;
    bool sp = false; while (sp_ws(*p) || *p == '\r') { ++p; sp = true; }
    int w = sp_val(p, v);
    if (w < 0) return -1;
    if (w == 0 || !sep || sp) return 0;
    if (*p && !sp_ws(*p) && *p != '\r' && *p != '\n') return sp_d(*p) || *p == '.' ? 0 : -1;
    if (s.n >= 1100) return 0;
    int k = s.n++;
    while (k > 0 && s.idx[k - 1] > ix) { s.idx[k] = s.idx[k - 1]; s.val[k] = s.val[k - 1]; --k; }
    if (k > 0 && s.idx[k - 1] == ix) return 0;   // duplicate index: order left open
    s.idx[k] = (unsigned)ix; s.val[k] = v;
  }
  return 1;
}
static inline int specCsv(const char* p, Spec& s) {
  s.n = 0;
  int r = sp_label(p, s);
  if (r != 1) return r;
  unsigned ix = 1;
  for (;; ++ix) {
    if (sp_end(p)) break;
    bool sp = false; while (sp_ws(*p) || *p == '\r') { ++p; sp = true; }
    if (*p != ',') return -1;
    ++p;
    while (sp_ws(*p) || *p == '\r') { ++p; sp = true; }
    double v = 0;
    int w = sp_val(p, v);
    if (w < 0) return -1;
    if (w == 0 || sp) return 0;
    if (s.n >= 1100) return 0;
    if (v != 0) { s.idx[s.n] = ix; s.val[s.n++] = v; }
  }
  return 1;
}
