// A model of the allocator, for obligations about ownership. Every allocation takes a fresh slot; the state says which
// slots are live, and `bad` records a release of something that is not live, or in a form that does not match.
// In mode X an allocation may fail: ob_may_throw() may unwind.
#pragma once
#include "sv.hpp"
#include <new>
#ifdef __cpp_exceptions
extern "C" void ob_may_throw();
#endif
namespace heap {
constexpr int K = 12;
alignas(64) static char s0[1024], s1[1024], s2[1024], s3[1024], s4[1024], s5[1024], s6[1024], s7[1024], s8[1024], s9[1024],
   s10[1024], s11[1024];
inline char* pool(long k) {
   return k == 0 ? s0 : k == 1 ? s1 : k == 2 ? s2 : k == 3 ? s3 : k == 4 ? s4 : k == 5 ? s5 : k == 6 ? s6 : k == 7 ? s7 : k == 8 ? s8
        : k == 9 ? s9 : k == 10 ? s10 : s11;
}
static long next = 0;
static bool bad = false;
static unsigned char form[K];   // 0 free, 1 object, 2 array, 3 aligned array
inline void* get(unsigned char f) {
#ifdef __cpp_exceptions
   ob_may_throw();
#endif
   if(next >= K) {
      bad = true;
      __builtin_trap();
   }
   form[next] = f;
   return pool(next++);
}
inline void put(void* p, unsigned char f) {
   if(p == nullptr)
      return;
   for(long k = 0; k < K; ++k)
      if(p == pool(k)) {
         if(form[k] != f)
            bad = true;
         form[k] = 0;
         return;
      }
   bad = true;
}
inline long live() {
   long n = 0;
   for(long k = 0; k < K; ++k)
      n += form[k] != 0;
   return n;
}
inline void reset() {
   next = 0;
   bad = false;
   for(long k = 0; k < K; ++k)
      form[k] = 0;
}
} // namespace heap
void* operator new(std::size_t) { return heap::get(1); }
void* operator new[](std::size_t) { return heap::get(2); }
void* operator new[](std::size_t, std::align_val_t) { return heap::get(3); }
void operator delete(void* p) noexcept { heap::put(p, 1); }
void operator delete(void* p, std::size_t) noexcept { heap::put(p, 1); }
void operator delete[](void* p) noexcept { heap::put(p, 2); }
void operator delete[](void* p, std::size_t) noexcept { heap::put(p, 2); }
void operator delete[](void* p, std::align_val_t) noexcept { heap::put(p, 3); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { heap::put(p, 3); }
#define HEAP_BEGIN() heap::reset()
// everything allocated since HEAP_BEGIN has been released exactly once, in the matching form
#define HEAP_END()             \
   PROVE(!heap::bad);          \
   PROVE(heap::live() == 0);   \
   LIVE()
