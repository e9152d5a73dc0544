// Analysis model of the random sources of the standard library, included before strictpp.
// An engine is a state that is stepped by an unknown function; a distribution over [a, b] returns an unknown
// function of the state, of which nothing is known but that it lies in [a, b], and requires a <= b. Whatever the
// real engines return, some choice of the unknown functions returns it too.
#pragma once
#include "ob.hpp"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
namespace svr {
template <int N> __attribute__((const)) unsigned entropy() noexcept;
template <class E> __attribute__((const)) unsigned long step(unsigned long) noexcept;
template <class E> __attribute__((const)) unsigned output(unsigned long) noexcept;
template <class D, class T> __attribute__((const)) T draw(unsigned long, T, T) noexcept;
struct device {
   using result_type = unsigned;
   device() = default;
   template <class S> explicit device(const S&) {}
   static constexpr unsigned min() { return 0; }
   static constexpr unsigned max() { return ~0U; }
   unsigned operator()() { return entropy<0>(); }
   double entropy_() const { return 0; }
};
template <int Kind> struct engine {
   using result_type = unsigned;
   unsigned long s;
   engine() : s{5489} {}
   template <class S>
      requires std::is_integral_v<S>
   explicit engine(S seed) : s(static_cast<unsigned long>(seed)) {}
   void seed(unsigned long x) { s = x; }
   void discard(unsigned long) { next(); }
   static constexpr unsigned min() { return 0; }
   static constexpr unsigned max() { return ~0U; }
   unsigned long next() { return s = step<engine>(s); }
   unsigned operator()() { return output<engine>(next()); }
   friend bool operator==(const engine&, const engine&) = default;
};
template <class T, class Kind> struct uniform {
   using result_type = T;
   T l, h;
   uniform() : uniform(T{0}, std::is_integral_v<T> ? std::numeric_limits<T>::max() : T{1}) {}
   explicit uniform(T a, T b) : l{a}, h{b} { PROVE(a <= b); }      // the standard's precondition
   explicit uniform(T a) : uniform(a, std::is_integral_v<T> ? std::numeric_limits<T>::max() : T{1}) {}
   struct param_type {
      T l, h;
      explicit param_type(T a, T b) : l{a}, h{b} { PROVE(a <= b); }
      T a() const { return l; }
      T b() const { return h; }
   };
   explicit uniform(const param_type& p) : l{p.l}, h{p.h} {}
   void param(const param_type& p) { l = p.l, h = p.h; }
   param_type param() const { return param_type(l, h); }
   void reset() {}
   T a() const { return l; }
   T b() const { return h; }
   T min() const { return l; }
   T max() const { return h; }
   static T pick(auto& g, T l, T h) {
      T r = draw<Kind, T>(g.next(), l, h);
      __builtin_assume(l <= r && r <= h);
      return r;
   }
   T operator()(auto& g) { return pick(g, l, h); }
   T operator()(auto& g, const param_type& p) { return pick(g, p.l, p.h); }
};
struct integers;
struct reals;
struct bernoulli {
   using result_type = bool;
   bernoulli() = default;
   explicit bernoulli(double) {}
   void reset() {}
   bool operator()(auto& g) { return draw<bernoulli, bool>(g.next(), false, true); }
};
} // namespace svr
namespace std { // the standard's names, for what follows
template <class T = int> using svr_uniform_int = svr::uniform<T, svr::integers>;
template <class T = double> using svr_uniform_real = svr::uniform<T, svr::reals>;
using svr_device = svr::device;
using svr_bernoulli = svr::bernoulli;
using svr_mt19937 = svr::engine<0>;
using svr_mt19937_64 = svr::engine<1>;
using svr_minstd_rand = svr::engine<2>;
using svr_default_random_engine = svr::engine<3>;
using svr_ranlux48 = svr::engine<4>;
using svr_knuth_b = svr::engine<5>;
} // namespace std
#define uniform_int_distribution svr_uniform_int
#define uniform_real_distribution svr_uniform_real
#define random_device svr_device
#define bernoulli_distribution svr_bernoulli
#define mt19937 svr_mt19937
#define mt19937_64 svr_mt19937_64
#define minstd_rand svr_minstd_rand
#define default_random_engine svr_default_random_engine
#define ranlux48 svr_ranlux48
#define knuth_b svr_knuth_b
