// uniform integers become symbolic inputs, one path per value (native replay: the solver's choice)
#ifndef _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#define _GLIBCXX_BITS_UNIFORM_INT_DIST_H
#include <type_traits>
#include <ext/numeric_traits.h>
#include <cstdint>
extern "C" { uint32_t sym_u32(const char*); void sym_assume(int); uint64_t sym_concretize(uint64_t); }
namespace std {
template <int I> struct sym_draws { static long fixed; };      // harness: >= 0 makes the draws a fixed sequence
template <int I> long sym_draws<I>::fixed = -1;
namespace __detail { template <class T> constexpr bool _Power_of_2(T x) { return ((x - 1) & x) == 0; } }
template <class T = int> class uniform_int_distribution {
 public:
  typedef T result_type;
  struct param_type {
    typedef uniform_int_distribution<T> distribution_type;
    explicit param_type(T a = 0, T b = __gnu_cxx::__int_traits<T>::__max) : a_(a), b_(b) {}
    T a() const { return a_; }
    T b() const { return b_; }
    T a_, b_;
  };
  explicit uniform_int_distribution(T a = 0, T b = __gnu_cxx::__int_traits<T>::__max) : p_(a, b) {}
  explicit uniform_int_distribution(const param_type& p) : p_(p) {}
  void reset() {}
  T a() const { return p_.a_; }
  T b() const { return p_.b_; }
  T min() const { return p_.a_; }
  T max() const { return p_.b_; }
  param_type param() const { return p_; }
  void param(const param_type& p) { p_ = p; }
  template <class G> T operator()(G& g) { return (*this)(g, p_); }
  template <class G> T operator()(G&, const param_type& p) {
    uint32_t n = (uint32_t)(p.b_ - p.a_);
    if (sym_draws<0>::fixed >= 0) return (T)(p.a_ + (T)((unsigned long)++sym_draws<0>::fixed * 2654435761ul % 4294967291ul % (n + 1ul)));
    uint32_t v = sym_u32("draw");
    sym_assume(v <= n);
    return (T)(p.a_ + (T)sym_concretize(v));
  }
 private:
  param_type p_;
};
}
#endif
