// runtime for code executed by symx: the parts of libc / libstdc++ that live in shared libraries.
// Everything here is part of the environment model and is listed in DESIGN.md.
#include "sym.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <new>
#include <stdexcept>
#include <system_error>
#include <typeinfo>
#include <string>
#include <map>

// ------------------------------------------------------------------ strings
extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char* a, const char* b) {
  for (;; ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
}
int strncmp(const char* a, const char* b, size_t n) {
  for (; n; --n, ++a, ++b) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; }
  return 0;
}
int memcmp(const void* a, const void* b, size_t n) {
  const unsigned char *p = (const unsigned char*)a, *q = (const unsigned char*)b;
  for (size_t i = 0; i < n; ++i) if (p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
  return 0;
}
int bcmp(const void* a, const void* b, size_t n) { return memcmp(a, b, n); }
void* rt_memchr(const void* s, int c, size_t n) __asm__("memchr");
void* rt_memchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  for (size_t i = 0; i < n; ++i) if (p[i] == (unsigned char)c) return (void*)(p + i);
  return nullptr;
}
void* rt_memrchr(const void* s, int c, size_t n) __asm__("memrchr");
void* rt_memrchr(const void* s, int c, size_t n) {
  const unsigned char* p = (const unsigned char*)s;
  while (n--) if (p[n] == (unsigned char)c) return (void*)(p + n);
  return nullptr;
}
char* rt_strchr(const char* s, int c) __asm__("strchr");
char* rt_strchr(const char* s, int c) { for (;; ++s) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* rt_strrchr(const char* s, int c) __asm__("strrchr");
char* rt_strrchr(const char* s, int c) { const char* r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char* rt_strstr(const char* h, const char* n) __asm__("strstr");
char* rt_strstr(const char* h, const char* n) {
  size_t k = strlen(n);
  for (;; ++h) { if (!strncmp(h, n, k)) return (char*)h; if (!*h) return nullptr; }
}
char* rt_strpbrk(const char* s, const char* a) __asm__("strpbrk");
char* rt_strpbrk(const char* s, const char* a) { for (; *s; ++s) for (const char* q = a; *q; ++q) if (*q == *s) return (char*)s; return nullptr; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; ++i) d[i] = s[i]; for (; i < n; ++i) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = (char*)malloc(n); memcpy(r, s, n); return r; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isdigit(c) || isalpha(c); }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isprint(int c) { return c >= 32 && c < 127; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
static int rt_errno;
int* __errno_location() { return &rt_errno; }
static unsigned short ctypeTab[384];
static const unsigned short* ctypePtr;
const unsigned short** __ctype_b_loc(void) {
  if (!ctypePtr) {
    for (int c = 0; c < 256; ++c) {
      unsigned short m = 0;
      if (c < 128) {
        if (isspace(c)) m |= (1 << 13); if (isdigit(c)) m |= (1 << 11) | (1 << 12); if (isalpha(c)) m |= (1 << 10);
        if (isprint(c)) m |= (1 << 14); if (isalnum(c)) m |= (1 << 3); if (iscntrl(c)) m |= (1 << 1);
      }
      ctypeTab[128 + c] = m;
    }
    ctypePtr = ctypeTab + 128;
  }
  return &ctypePtr;
}
// numeric text. A symbolic number travels as the 12 characters "7.7077PPNNNN" (PP = printed precision,
// NNNN = slot of the value), which is number-shaped for every lexer in the code under test.
#define TOKLEN 12
static double rtTok[4000];
static int rtNTok;
static int rt_mktoken(double v, int prec, char* o) {
  int k = rtNTok++;
  if (k >= 4000) sym_incomplete("too many symbolic numbers in text");
  rtTok[k] = v;
  memcpy(o, "7.7077", 6);
  o[6] = (char)('0' + prec / 10 % 10); o[7] = (char)('0' + prec % 10);
  o[8] = (char)('0' + k / 1000); o[9] = (char)('0' + k / 100 % 10); o[10] = (char)('0' + k / 10 % 10); o[11] = (char)('0' + k % 10);
  return TOKLEN;
}
static bool rt_token(const char* s, double* v) {
  static const char m[] = "7.7077";
  for (int i = 0; i < 6; ++i) if (s[i] != m[i]) return false;
  for (int i = 6; i < 12; ++i) if (s[i] < '0' || s[i] > '9') return false;
  int prec = (s[6] - '0') * 10 + (s[7] - '0');
  int k = (s[8] - '0') * 1000 + (s[9] - '0') * 100 + (s[10] - '0') * 10 + (s[11] - '0');
  if (k >= rtNTok) return false;
  double d = rtTok[k];
  if (prec >= 17) { *v = d; return true; }
  double rel = 5;
  for (int i = 0; i < prec; ++i) rel /= 10;
  *v = sym_fresh_close(d, rel);
  return true;
}
int rt_dtext(double v, int prec, char* o) {
  if (sym_is_sym(v)) return rt_mktoken(v, prec, o);
  char sp[8] = {'%', '.', (char)('0' + prec / 10 % 10), (char)('0' + prec % 10), 'g', 0};
  return sym_fmt_double(o, 64, sp, v);
}
long strtol(const char* s, char** end, int base) {
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  { double d; if (rt_token(p, &d)) { if (end) *end = (char*)p + TOKLEN; return (long)d; } }
  bool neg = false;
  if (*p == '+' || *p == '-') neg = *p++ == '-';
  long v = 0; bool any = false, ov = false;
  while (*p >= '0' && *p <= '9') {
    any = true;
    if (v > 922337203685477580L) ov = true; else v = v * 10 + (*p - '0');
    ++p;
  }
  if (end) *end = (char*)(any ? p : s);
  if (ov) { rt_errno = ERANGE; return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL; }
  return neg ? -v : v;
}
unsigned long strtoul(const char* s, char** end, int base) { return (unsigned long)strtol(s, end, base); }
long long strtoll(const char* s, char** end, int base) { return strtol(s, end, base); }
unsigned long long strtoull(const char* s, char** end, int base) { return strtoul(s, end, base); }
long rt_strtol(const char* s, char** e, int b) __asm__("strtol");
long rt_strtol(const char* s, char** e, int b) { return strtol(s, e, b); }
unsigned long rt_strtoul(const char* s, char** e, int b) __asm__("strtoul");
unsigned long rt_strtoul(const char* s, char** e, int b) { return strtoul(s, e, b); }
int rt_atoi(const char* s) __asm__("atoi");
int rt_atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
long rt_atol(const char* s) __asm__("atol");
long rt_atol(const char* s) { return strtol(s, nullptr, 10); }
double strtod(const char* s, char** end) {
  const char* p = s;
  while (isspace((unsigned char)*p)) ++p;
  double d;
  if (rt_token(p, &d)) { if (end) *end = (char*)p + TOKLEN; return d; }
  const char* q = p;
  if (*q == '+' || *q == '-') ++q;
  if ((q[0] == 'i' && q[1] == 'n' && q[2] == 'f') || (q[0] == 'n' && q[1] == 'a' && q[2] == 'n')) { if (end) *end = (char*)q + 3; }
  else {
    bool any = false;
    while (isdigit((unsigned char)*q)) { ++q; any = true; }
    if (*q == '.') { ++q; while (isdigit((unsigned char)*q)) { ++q; any = true; } }
    if (!any) { if (end) *end = (char*)s; return 0; }
    if (*q == 'e' || *q == 'E') {
      const char* r = q + 1;
      if (*r == '+' || *r == '-') ++r;
      if (isdigit((unsigned char)*r)) { while (isdigit((unsigned char)*r)) ++r; q = r; }
    }
    if (end) *end = (char*)q;
  }
  char buf[64]; size_t n = (size_t)(q - p);
  if (n > 63) n = 63;
  memcpy(buf, p, n); buf[n] = 0;
  return sym_parse_double(buf);
}
float strtof(const char* s, char** end) {
  double d = strtod(s, end);
  if (!sym_is_sym(d) && (d > 3.4028235677973366e38 || d < -3.4028235677973366e38)) rt_errno = ERANGE;
  return (float)d;
}
double rt_atof(const char* s) __asm__("atof");
double rt_atof(const char* s) { return strtod(s, nullptr); }

// ------------------------------------------------------------------ virtual files
struct VFile { char name[128]; unsigned char* data; size_t size, cap; bool used; };
struct RFile { VFile* f; size_t pos; int err, eof, wr, full, sink; };
static VFile vfs[24];
static RFile rtStd[3];
FILE* stdin = (FILE*)&rtStd[0];
FILE* stdout = (FILE*)&rtStd[1];
FILE* stderr = (FILE*)&rtStd[2];
static VFile* vfind(const char* n) { for (auto& f : vfs) if (f.used && !strcmp(f.name, n)) return &f; return nullptr; }
static VFile* vmake(const char* n) {
  VFile* f = vfind(n);
  if (!f) { for (auto& g : vfs) if (!g.used) { f = &g; break; } if (!f) sym_incomplete("too many virtual files"); f->used = true; strncpy(f->name, n, 127); }
  f->size = 0;
  return f;
}
static void vput(VFile* f, size_t pos, const void* d, size_t n) {
  if (pos + n > f->cap) {
    size_t c = f->cap ? f->cap * 2 : 256;
    while (c < pos + n) c *= 2;
    unsigned char* nd = (unsigned char*)malloc(c);
    if (f->size) memcpy(nd, f->data, f->size);
    if (f->data) free(f->data);
    f->data = nd; f->cap = c;
  }
  memcpy(f->data + pos, d, n);
  if (pos + n > f->size) f->size = pos + n;
}
void sym_file_put(const char* path, const void* data, size_t n) { VFile* f = vmake(path); if (n) vput(f, 0, data, n); }
long sym_file_size(const char* path) { VFile* f = vfind(path); return f ? (long)f->size : -1; }
long sym_file_get(const char* path, void* buf, size_t cap) {
  VFile* f = vfind(path);
  if (!f) return -1;
  size_t n = f->size < cap ? f->size : cap;
  if (n) memcpy(buf, f->data, n);
  return (long)n;
}
FILE* fopen(const char* path, const char* mode) {
  bool full = !strcmp(path, "/dev/full");
  VFile* f = vfind(path);
  bool w = mode[0] == 'w', a = mode[0] == 'a';
  if (full) { if (!w && !a) return nullptr; }
  else if (strchr(path, '/') && !f) { rt_errno = ENOENT; return nullptr; }  // there are no folders
  else if (w) f = vmake(path);
  else if (a) { if (!f) f = vmake(path); }
  else if (!f) { rt_errno = ENOENT; return nullptr; }
  RFile* r = (RFile*)malloc(sizeof(RFile));
  r->f = f; r->pos = a && f ? f->size : 0; r->err = r->eof = 0; r->wr = w || a; r->full = full; r->sink = 0;
  return (FILE*)r;
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int fclose(FILE* f) { RFile* r = (RFile*)f; int e = r->err ? -1 : 0; free(r); return e; }
int ferror(FILE* f) { return ((RFile*)f)->err; }
int feof(FILE* f) { return ((RFile*)f)->eof; }
void clearerr(FILE* f) { ((RFile*)f)->err = ((RFile*)f)->eof = 0; }
void rewind(FILE* f) { RFile* r = (RFile*)f; r->pos = 0; r->eof = r->err = 0; }
int fflush(FILE* f) { return f && ((RFile*)f)->err ? -1 : 0; }
int fseek(FILE* f, long off, int wh) {
  RFile* r = (RFile*)f;
  long b = wh == 0 ? 0 : wh == 1 ? (long)r->pos : (long)r->f->size;
  if (b + off < 0) return -1;
  r->pos = (size_t)(b + off); r->eof = 0; return 0;
}
long ftell(FILE* f) { return (long)((RFile*)f)->pos; }
size_t fread(void* d, size_t s, size_t n, FILE* f) {
  RFile* r = (RFile*)f;
  size_t want = s * n, have = r->f && r->pos < r->f->size ? r->f->size - r->pos : 0;
  if (want > have) { r->eof = 1; want = have; }
  if (want) memcpy(d, r->f->data + r->pos, want);
  r->pos += want;
  return s ? want / s : 0;
}
int fgetc(FILE* f) { unsigned char c; return fread(&c, 1, 1, f) == 1 ? c : -1; }
int getc(FILE* f) { return fgetc(f); }
char* fgets(char* d, int n, FILE* f) {
  RFile* r = (RFile*)f;
  int i = 0;
  if (n <= 0) return nullptr;
  while (i < n - 1) {
    if (!r->f || r->pos >= r->f->size) { r->eof = 1; break; }
    char c = (char)r->f->data[r->pos++];
    d[i++] = c;
    if (c == '\n') break;
  }
  if (i == 0) return nullptr;
  d[i] = 0;
  return d;
}
static size_t rt_out(RFile* r, const void* d, size_t n) {
  if (r == &rtStd[1] || r == &rtStd[2]) return n;
  if (r->full || !r->wr) { r->err = 1; return 0; }
  if (n) vput(r->f, r->pos, d, n);
  r->pos += n;
  return n;
}
size_t fwrite(const void* d, size_t s, size_t n, FILE* f) { size_t k = rt_out((RFile*)f, d, s * n); return s ? k / s : 0; }
int fputs(const char* s, FILE* f) { size_t n = strlen(s); return rt_out((RFile*)f, s, n) == n ? 1 : -1; }
int fputc(int c, FILE* f) { char b = (char)c; return rt_out((RFile*)f, &b, 1) == 1 ? (unsigned char)c : -1; }
int putc(int c, FILE* f) { return fputc(c, f); }
int puts(const char* s) { return 1; }
int rt_putchar(int c) __asm__("putchar");
int rt_putchar(int c) { return c; }

// ------------------------------------------------------------------ formatting
struct Buf { char* p; size_t n, cap; };
static void bput(Buf& b, char c) { if (b.n + 1 < b.cap) b.p[b.n] = c; b.n++; }
static void bnum(Buf& b, unsigned long v, bool neg, int width, bool zero, unsigned base = 10, const uint32_t* v32 = nullptr) {
  char t[24]; int k = 0;
  if (base == 10 && sym_is_symi(v)) {
    // the digits are named, and the number is their value: no division for the solver to invert
    bool w32 = v32 || !sym_branch(v >> 32 != 0);
    uint32_t u = v32 ? *v32 : (uint32_t)v;
    unsigned long lim = 10; int L = 1;
    while (L < (w32 ? 10 : 20) && !sym_branch(w32 ? u < (uint32_t)lim : v < lim)) { ++L; lim *= 10; }
    unsigned long acc = 0;
    for (int i = L - 1; i >= 0; --i) {
      char c = (char)sym_u8("%d");
      sym_assume(c >= (i != L - 1 || L == 1 ? '0' : '1')); sym_assume(c <= '9');
      t[i] = c; acc = acc * 10 + (unsigned long)((int)(unsigned char)c - '0');
    }
    if (w32) { if (L == 10) sym_assume(acc <= 0xffffffffUL); sym_assume(u == (uint32_t)acc); }
    else sym_assume(acc == v);
    k = L;
  } else do { unsigned d = (unsigned)(v % base); t[k++] = (char)(d < 10 ? '0' + d : 'a' + d - 10); v /= base; } while (v);
  int len = k + neg;
  if (!zero) for (int i = len; i < width; ++i) bput(b, ' ');
  if (neg) bput(b, '-');
  if (zero) for (int i = len; i < width; ++i) bput(b, '0');
  while (k) bput(b, t[--k]);
}
// hook: a harness may render symbolic floats as text itself (see text harnesses)
int (*rt_float_hook)(double v, int prec, char conv, char* out) = nullptr;
static void bfloat(Buf& b, double v, const char* spec, int prec, char conv) {
  char t[400];
  if (rt_float_hook) { int k = rt_float_hook(v, prec, conv, t); if (k >= 0) { for (int i = 0; i < k; ++i) bput(b, t[i]); return; } }
  if (sym_is_sym(v)) {
    int k = rt_mktoken(v, prec, t);
    for (int i = 0; i < k; ++i) bput(b, t[i]);
    return;
  }
  int k = sym_fmt_double(t, 400, spec, v);
  for (int i = 0; i < k; ++i) bput(b, t[i]);
}
static int rt_format(Buf& b, const char* f, va_list ap) {
  for (; *f; ++f) {
    if (*f != '%') { bput(b, *f); continue; }
    const char* st = f++;
    bool zero = false, left = false, sgn = false; int width = 0, prec = -1, lng = 0, sht = 0;
    while (*f == '0' || *f == '-' || *f == '+' || *f == ' ' || *f == '#') { if (*f == '0') zero = true; if (*f == '-') left = true; if (*f == '+') sgn = true; ++f; }
    if (*f == '*') { width = va_arg(ap, int); ++f; } else while (isdigit((unsigned char)*f)) width = width * 10 + (*f++ - '0');
    if (*f == '.') { ++f; prec = 0; if (*f == '*') { prec = va_arg(ap, int); ++f; } else while (isdigit((unsigned char)*f)) prec = prec * 10 + (*f++ - '0'); }
    while (*f == 'l' || *f == 'h' || *f == 'z' || *f == 'j' || *f == 't') { if (*f == 'h') sht++; else lng++; ++f; }
    (void)left; (void)sgn;
    switch (*f) {
      case 'd': case 'i': {
        if (!lng) {
          int v = va_arg(ap, int); if (sht == 1) v = (short)v; else if (sht) v = (signed char)v; bool neg = sym_is_symi((uint32_t)v) ? sym_branch(v < 0) : v < 0;
          uint32_t u = neg ? 0u - (uint32_t)v : (uint32_t)v;
          if (sgn && !neg) bput(b, '+');
          bnum(b, u, neg, width, zero, 10, &u); break;
        }
        long v = lng ? va_arg(ap, long) : (long)va_arg(ap, int); bool neg = v < 0; bnum(b, neg ? 0UL - (unsigned long)v : (unsigned long)v, neg, width, zero); break; }
      case 'u': { if (!lng) { uint32_t u = va_arg(ap, unsigned); if (sht == 1) u = (uint16_t)u; else if (sht) u = (uint8_t)u; bnum(b, u, false, width, zero, 10, &u); break; } unsigned long v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); bnum(b, v, false, width, zero); break; }
      case 'x': { unsigned long v = lng ? va_arg(ap, unsigned long) : (unsigned long)va_arg(ap, unsigned); bnum(b, v, false, width, zero, 16); break; }
      case 'c': bput(b, (char)va_arg(ap, int)); break;
      case 's': { const char* s = va_arg(ap, const char*); if (!s) s = "(null)"; for (int k = 0; s[k] && (prec < 0 || k < prec); ++k) bput(b, s[k]); break; }
      case 'g': case 'f': case 'e': case 'G': case 'E': {
        double v = va_arg(ap, double);
        char sp[16]; char pr[8]; int k = 0; sp[k++] = '%'; sp[k++] = '.';
        int p = prec < 0 ? 6 : prec, q = 0; do { pr[q++] = (char)('0' + p % 10); p /= 10; } while (p);
        while (q) sp[k++] = pr[--q];
        sp[k++] = *f; sp[k] = 0;
        bfloat(b, v, sp, prec < 0 ? 6 : prec, *f);
        break;
      }
      case 'p': bnum(b, (unsigned long)va_arg(ap, void*), false, width, zero, 16); break;
      case '%': bput(b, '%'); break;
      default: bput(b, '%'); f = st; break;
    }
  }
  if (b.cap) b.p[b.n < b.cap ? b.n : b.cap - 1] = 0;
  return (int)b.n;
}
int vsnprintf(char* d, size_t n, const char* f, va_list ap) { Buf b{d, 0, n}; return rt_format(b, f, ap); }
int snprintf(char* d, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, n, f, ap); va_end(ap); return r; }
int sprintf(char* d, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(d, 1u << 20, f, ap); va_end(ap); return r; }
int vfprintf(FILE* fp, const char* f, va_list ap) {
  RFile* r = (RFile*)fp;
  if (r == &rtStd[1] || r == &rtStd[2]) return 0;
  char* t = (char*)malloc(4096);
  Buf b{t, 0, 4096};
  int n = rt_format(b, f, ap);
  if ((size_t)n >= 4096) sym_incomplete("long formatted output");
  int k = rt_out(r, t, (size_t)n) == (size_t)n ? n : -1;
  free(t);
  return k;
}
int fprintf(FILE* fp, const char* f, ...) {
  RFile* r = (RFile*)fp;
  if (r == &rtStd[1] || r == &rtStd[2]) return 0;
  va_list ap; va_start(ap, f); int k = vfprintf(fp, f, ap); va_end(ap); return k;
}
int printf(const char* f, ...) { return 0; }
void perror(const char*) {}

// ------------------------------------------------------------------ environment
char* getenv(const char*) { return nullptr; }
long time(long* t) { static long now = 1000000; ++now; if (t) *t = now; return now; }
struct timeval_ { long a, b; };
int gettimeofday(void* p, void*) { static long now = 1000000; ++now; ((timeval_*)p)->a = now; ((timeval_*)p)->b = 0; return 0; }
int clock_gettime(int, void* p) { return gettimeofday(p, nullptr); }
unsigned rt_random() { return sym_u32("random"); }
double trunc(double);
double modf(double v, double* i) { *i = trunc(v); return v - *i; }
void rt_rdi(void*, const std::string&) __asm__("_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE");
void rt_rdi(void*, const std::string&) {}
void rt_rdf(void*) __asm__("_ZNSt13random_device7_M_finiEv");
void rt_rdf(void*) {}
unsigned rt_rdg(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned rt_rdg(void*) { return sym_u32("random"); }
int rand() { return (int)(sym_u32("rand") & 0x7fffffff); }
void srand(unsigned) {}
void qsort(void* base, size_t n, size_t sz, int (*cmp)(const void*, const void*)) {
  char* b = (char*)base;
  char* t = (char*)malloc(sz ? sz : 1);
  for (size_t i = 1; i < n; ++i) {
    memcpy(t, b + i * sz, sz);
    size_t j = i;
    while (j > 0 && cmp(b + (j - 1) * sz, t) > 0) { memcpy(b + j * sz, b + (j - 1) * sz, sz); --j; }
    memcpy(b + j * sz, t, sz);
  }
  free(t);
}
// ------------------------------------------------------------------ threads
void sym_mutex_lock(void*); void sym_mutex_unlock(void*); int sym_mutex_trylock(void*);
void sym_cond_wait(void*, void*); void sym_cond_signal(void*); void sym_cond_broadcast(void*);
int pthread_mutex_init(void*, const void*) { return 0; }
int pthread_mutex_destroy(void*) { return 0; }
int pthread_mutex_lock(void* m) { sym_mutex_lock(m); return 0; }
int pthread_mutex_unlock(void* m) { sym_mutex_unlock(m); return 0; }
int pthread_mutex_trylock(void* m) { return sym_mutex_trylock(m); }
int pthread_cond_init(void*, const void*) { return 0; }
int pthread_cond_destroy(void*) { return 0; }
int pthread_cond_wait(void* c, void* m) { sym_cond_wait(c, m); return 0; }
int pthread_cond_signal(void* c) { sym_cond_signal(c); return 0; }
int pthread_cond_broadcast(void* c) { sym_cond_broadcast(c); return 0; }
int pthread_create(unsigned long* t, const void*, void* (*fn)(void*), void* a) { *t = (unsigned long)sym_thread_create((void (*)(void*))fn, a); return 0; }
int pthread_join(unsigned long t, void**) { sym_thread_join((int)t); return 0; }
int pthread_detach(unsigned long) { return 0; }
unsigned long pthread_self() { return (unsigned long)sym_thread_self(); }
int pthread_attr_init(void*) { return 0; }
int pthread_attr_destroy(void*) { return 0; }
int pthread_once(int* o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
char __libc_single_threaded = 0;
}

std::string sym_text(float v) {
  char b[64];
  if (sym_is_sym(v)) return std::string(b, (size_t)rt_mktoken(v, 17, b));
  return std::string(b, (size_t)sym_fmt_double(b, 64, "%.9g", v));
}

// ------------------------------------------------------------------ libstdc++ pieces
namespace std {
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }

exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }

#define COWP(x) (*(char**)&(x))
static char* cowdup(const char* s) { return strdup(s); }
__cow_string::__cow_string() { COWP(*this) = cowdup(""); }
__cow_string::__cow_string(const std::string& s) { COWP(*this) = cowdup(s.c_str()); }
__cow_string::__cow_string(const char* s, size_t) { COWP(*this) = cowdup(s); }
__cow_string::__cow_string(const __cow_string& o) noexcept { COWP(*this) = cowdup(COWP(const_cast<__cow_string&>(o))); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { COWP(*this) = cowdup(COWP(const_cast<__cow_string&>(o))); return *this; }
__cow_string::~__cow_string() { free(COWP(*this)); }
__cow_string::__cow_string(__cow_string&& o) noexcept { COWP(*this) = COWP(o); COWP(o) = cowdup(""); }

logic_error::logic_error(const string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, 0) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return COWP(const_cast<logic_error*>(this)->_M_msg); }
runtime_error::runtime_error(const string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, 0) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return COWP(const_cast<runtime_error*>(this)->_M_msg); }
#define EXC(T, B) T::T(const string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)

// ordered containers: plain binary search tree with the header conventions of stl_tree (no rebalancing)
static _Rb_tree_node_base* rtMin(_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base* rtMax(_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
  if (x->_M_right) return rtMin(x->_M_right);
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
  if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right;  // header
  if (x->_M_left) return rtMax(x->_M_left);
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  // unlink z from an unbalanced BST
  auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
    if (h._M_parent == a) h._M_parent = b;
    else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
    else a->_M_parent->_M_right = b;
    if (b) b->_M_parent = a->_M_parent;
  };
  _Rb_tree_node_base* nxt = z == h._M_right ? nullptr : _Rb_tree_increment(z);
  _Rb_tree_node_base* prv = z == h._M_left ? nullptr : _Rb_tree_decrement(z);
  if (z == h._M_left) h._M_left = nxt ? nxt : &h;
  if (z == h._M_right) h._M_right = prv ? prv : &h;
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = rtMin(z->_M_right);
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
namespace __detail {
struct _List_node_base_ { _List_node_base_* n; _List_node_base_* p; };
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  size_t h = seed; const unsigned char* b = (const unsigned char*)p;
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211UL;
  return h;
}
}  // namespace std
extern "C" {
void rt_list_hook(void** self, void** pos) __asm__("_ZNSt8__detail15_List_node_base7_M_hookEPS0_");
void rt_list_hook(void** self, void** pos) { self[0] = pos; self[1] = pos[1]; ((void**)pos[1])[0] = self; pos[1] = self; }
void rt_list_unhook(void** self) __asm__("_ZNSt8__detail15_List_node_base9_M_unhookEv");
void rt_list_unhook(void** self) { void** n = (void**)self[0]; void** p = (void**)self[1]; p[0] = n; n[1] = p; }
void rt_throw_bad_alloc() { throw std::bad_alloc(); }
// unordered containers: number of buckets policy
struct rt_pol { float mlf; size_t next; };
struct rt_pair { bool b; size_t n; };
size_t rt_next_bkt(const rt_pol* p, size_t n) __asm__("_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm");
size_t rt_next_bkt(const rt_pol* p, size_t n) { size_t k = 13; while (k < n) k = k * 2 + 1; const_cast<rt_pol*>(p)->next = k; return k; }
rt_pair rt_need_rehash(const rt_pol* p, size_t b, size_t e, size_t i) __asm__("_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm");
rt_pair rt_need_rehash(const rt_pol* p, size_t b, size_t e, size_t i) {
  rt_pair r; r.b = false; r.n = 0;
  if (e + i > b) { size_t k = b < 13 ? 13 : b * 2 + 1; while (k < e + i) k = k * 2 + 1; r.b = true; r.n = k; }
  return r;
}
}
// condition_variable / thread objects (used when the std thread backend is selected)
extern "C" {
void rt_cvc(void*) __asm__("_ZNSt18condition_variableC1Ev"); void rt_cvc(void*) {}
void rt_cvd(void*) __asm__("_ZNSt18condition_variableD1Ev"); void rt_cvd(void*) {}
void rt_cv1(void* c) __asm__("_ZNSt18condition_variable10notify_oneEv"); void rt_cv1(void* c) { sym_cond_signal(c); }
void rt_cva(void* c) __asm__("_ZNSt18condition_variable10notify_allEv"); void rt_cva(void* c) { sym_cond_broadcast(c); }
struct rt_ul { void* m; bool o; };
void rt_cvw(void* c, rt_ul* l) __asm__("_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE"); void rt_cvw(void* c, rt_ul* l) { sym_cond_wait(c, l->m); }
}
template class std::basic_string<char>;
long rt_clock_now() __asm__("_ZNSt6chrono3_V212system_clock3nowEv");
long rt_clock_now() { static long t; return t += 1000000; }
// type names, as the option parser shows them
extern "C" {
struct rt_fundamental { const void* vt; const char* name; };
rt_fundamental _ZTIi = {nullptr, "i"}, _ZTIf = {nullptr, "f"};
char* __cxa_demangle(const char* n, char*, size_t*, int* st) {
  const char* t = n[0] == 'i' && !n[1] ? "int" : n[0] == 'f' && !n[1] ? "float" : n; size_t l = 0; while (t[l]) ++l;
  char* r = (char*)malloc(l + 1); for (size_t i = 0; i <= l; ++i) r[i] = t[i];
  if (st) *st = 0;
  return r;
}
}
