// Analysis model of the standard streams, included before sv.hpp. Input is a sequence of values, one of which may be
// malformed, arranged in lines; output is a sequence of events: characters (neighbouring blanks count as one, and
// those at the start of a line and of a field that is padded to a width are dropped) and numbers, each an unknown function of the value and of the format that is in force when it is written.
#pragma once
#include "ob.hpp"
#include <algorithm>
#include <cassert>
#include <chrono>
#include <cmath>
#include <cstring>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <iterator>
#include <limits>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <random>
#include <sstream>
#include <string>
#include <tuple>
#include <vector>
#include <strictpp/StrictCommon/error.hpp>
namespace svio {
constexpr int CAP = 160;
// ---------------------------------------------------------------- text
struct text {
   const char* p = "";
   unsigned long n = 0;
   char fill = 0;                      // n copies of it, if it is set
   const unsigned long* ev = nullptr;  // n events written earlier, if it is set
   const void* vals = nullptr;         // a line of input
   const long* bads = nullptr;
   long cnt = 0, base = 0;
   bool line = false, cut = false, blank = false;
   using size_type = unsigned long;
   static constexpr size_type npos = ~0UL;
   text() = default;
   text(const char* s) : p{s}, n{__builtin_strlen(s)} {}
   text(const std::basic_string<char>& s) : p{s.data()}, n{s.size()} {}
   text(size_type k, char c) : n{k}, fill{c} {}
   bool empty() const { return n == 0; }
   size_type size() const { return n; }
   size_type length() const { return n; }
   const char* c_str() const { return p; }
   const char* data() const { return p; }
   void clear() { *this = text{}; }
};
// ---------------------------------------------------------------- output
template <class T> __attribute__((const)) unsigned long number(T, unsigned flags, long precision) noexcept;
struct precision_ { long p; };
struct width_ { long w; };
enum : unsigned { POS = 1, SCI = 2, FIX = 4, POINT = 8 };
struct ostream {
   unsigned long ev[CAP];
   long n = 0;
   unsigned flags = 0;
   long prec = 6;
   bool blank = true;  // the next blank adds nothing
   ostream() = default;
   ostream(const ostream&) = delete;
   void reset() { n = 0, flags = 0, prec = 6, blank = true; }
   void put_(unsigned long e) {
      if(n >= CAP)
         __builtin_trap();
      ev[n++] = e;
      blank = false;
   }
   ostream& put(char c) {
      if(c != ' ' || !blank)
         put_(static_cast<unsigned char>(c));
      blank = c == ' ' || c == '\n';
      return *this;
   }
   ostream& write(const char* s, long k) {
      for(long i = 0; i < k; ++i)
         put(s[i]);
      return *this;
   }
   ostream& flush() { return *this; }
   long precision() const { return prec; }
   long precision(long p) { long o = prec; prec = p; return o; }
   long width(long) { return 0; }
   explicit operator bool() const { return true; }
   bool operator!() const { return false; }
   bool good() const { return true; }
   bool fail() const { return false; }
   ostream& operator<<(char c) { return put(c); }
   ostream& operator<<(const char* s) {
      return write(s, static_cast<long>(__builtin_strlen(s)));
   }
   ostream& operator<<(const text& t) {
      if(t.ev) {
         for(unsigned long k = 0; k < t.n; ++k)
            put_(t.ev[k]);
         blank = t.blank;
      } else if(t.fill == ' ')
         put(' ');
      else if(t.fill)
         for(unsigned long k = 0; k < t.n; ++k)
            put(t.fill);
      else
         for(unsigned long k = 0; k < t.n; ++k)
            put(t.p[k]);
      return *this;
   }
   template <class T>
      requires std::is_arithmetic_v<T>
   ostream& operator<<(T x) {
      put_(std::is_floating_point_v<T> ? number<T>(x, flags, prec) : number<T>(x, flags & POS, 0));
      return *this;
   }
   ostream& operator<<(precision_ p) { prec = p.p; return *this; }
   ostream& operator<<(width_) { return *this; }
   ostream& operator<<(ostream& (*f)(ostream&)) { return f(*this); }
};
struct ostringstream : ostream {
   text str() const {
      text t;
      t.ev = ev;
      t.n = static_cast<unsigned long>(n);
      t.blank = blank;
      return t;
   }
};
static ostream out;        // std::cout
static ostream written;    // the file that is written
template <int N> __attribute__((const)) bool can_open() noexcept;
// ---------------------------------------------------------------- input
struct istream {
   const void* vals = nullptr;   // the values
   long n = 0, pos = 0;          // how many, and which is next
   long malformed = -1;          // which of them is malformed
   bool cut = false;             // the text ends right after the last one
   const long* lines = nullptr;  // number of values in each line (-1: the line has no character)
   long nlines = 0, line = 0;
   bool eof_ = false, fail_ = false;
   istream() = default;
   istream(const istream&) = delete;
   bool good() const { return !eof_ && !fail_; }
   bool eof() const { return eof_; }
   bool fail() const { return fail_; }
   bool bad() const { return false; }
   explicit operator bool() const { return !fail_; }
   bool operator!() const { return fail_; }
   void clear() { eof_ = fail_ = false; }
   void close() {}
   int peek() {
      if(!good())
         return -1;
      if(pos == n) {
         eof_ = true;
         return -1;
      }
      return '0';
   }
   template <class T>
      requires std::is_arithmetic_v<T>
   istream& operator>>(T& x) {
      if(!good()) {
         fail_ = true;
         return *this;
      }
      if(pos == n) {
         eof_ = fail_ = true;
         return *this;
      }
      if(pos == malformed) {
         fail_ = true;
         eof_ = cut && pos == n - 1;
         x = T{};
         return *this;
      }
      x = static_cast<const T*>(vals)[pos++];
      eof_ = cut && pos == n;
      return *this;
   }
   istream& operator>>(istream& (*f)(istream&)) { return f(*this); }
};
inline istream& getline(istream& is, text& t) {
   if(!is.good()) {
      is.fail_ = true;
      return is;
   }
   if(is.line == is.nlines) {
      is.eof_ = is.fail_ = true;
      return is;
   }
   const long k = is.lines[is.line++];
   t = text{};
   t.line = true;
   t.n = k >= 0;
   t.vals = is.vals;
   t.base = is.pos;
   t.cnt = k < 0 ? 0 : k;
   t.cut = is.cut;
   is.pos += t.cnt;
   t.bads = &is.malformed;
   is.eof_ = is.cut && is.line == is.nlines;
   return is;
}
struct istringstream : istream {
   explicit istringstream(const text& t) {
      vals = t.vals;
      pos = t.base;
      n = t.base + t.cnt;
      malformed = t.bads ? *t.bads : -1;
      cut = t.cut;
   }
};
struct ifile { const void* vals; long n, malformed; bool cut; const long* lines; long nlines; };
static ifile file;
struct ifstream : istream {
   explicit ifstream(const text&) {
      vals = file.vals, n = file.n, malformed = file.malformed, cut = file.cut, lines = file.lines, nlines = file.nlines;
      fail_ = !can_open<0>();
   }
   bool is_open() const { return can_open<0>(); }
};
struct ofstream {
   explicit ofstream(const text&) { written.reset(); }
   explicit operator bool() const { return can_open<1>(); }
   bool operator!() const { return !can_open<1>(); }
   bool is_open() const { return can_open<1>(); }
   bool fail() const { return !can_open<1>(); }
   void close() {}
   operator ostream&() { return written; }
   ostream& operator<<(const auto& x) { return written << x; }
};
} // namespace svio
namespace std { // the standard's names, for what follows
using svio_string = svio::text;
using svio_ostream = svio::ostream;
using svio_ostringstream = svio::ostringstream;
using svio_ofstream = svio::ofstream;
using svio_istream = svio::istream;
using svio_istringstream = svio::istringstream;
using svio_ifstream = svio::ifstream;
inline svio::istream& svio_getline(svio::istream& is, svio::text& t) { return svio::getline(is, t); }
inline svio::precision_ svio_setprecision(long p) { return {p}; }
inline svio::width_ svio_setw(long w) { return {w}; }
inline svio::ostream& svio_showpos(svio::ostream& os) { os.flags |= svio::POS; return os; }
inline svio::ostream& svio_noshowpos(svio::ostream& os) { os.flags &= ~svio::POS; return os; }
inline svio::ostream& svio_showpoint(svio::ostream& os) { os.flags |= svio::POINT; return os; }
inline svio::ostream& svio_scientific(svio::ostream& os) { os.flags = (os.flags & ~svio::FIX) | svio::SCI; return os; }
inline svio::ostream& svio_fixed(svio::ostream& os) { os.flags = (os.flags & ~svio::SCI) | svio::FIX; return os; }
inline svio::ostream& svio_flush(svio::ostream& os) { return os; }
inline svio::ostream& svio_endl(svio::ostream& os) { return os.put('\n'); }
inline svio::istream& svio_ws(svio::istream& is) {
   if(!is.good())
      is.fail_ = true;
   else if(is.pos == is.n)
      is.eof_ = true;
   return is;
}
static auto& svio_cout = svio::out;
} // namespace std
#define string svio_string
#define ostream svio_ostream
#define ostringstream svio_ostringstream
#define ofstream svio_ofstream
#define istream svio_istream
#define istringstream svio_istringstream
#define ifstream svio_ifstream
#define getline svio_getline
#define setprecision svio_setprecision
#define setw svio_setw
#define showpos svio_showpos
#define noshowpos svio_noshowpos
#define showpoint svio_showpoint
#define scientific svio_scientific
#define fixed svio_fixed
#define flush svio_flush
#define endl svio_endl
#define ws svio_ws
#define cout svio_cout
