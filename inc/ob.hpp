// Obligation language. An obligation is a function in one of three namespaces, written
// against the public interface of strictpp only:
//
//   guard::  every path from a rejected input must end in a failed check. FAIL() after the
//            call must be dead, and a failed-check call must remain.
//   total::  the input is valid. FAIL() must be dead, no failed-check call may remain, and
//            every LIVE() must remain.
//   eq::     FAIL() must be dead and every LIVE() must remain. Failed checks may remain.
//
// FAIL() is dead when the dataflow passes of the compiler (value numbering, range and
// dominating-condition propagation, memory dependence, SCEV) prove it unreachable.
// Nothing here is ever linked or run.
#pragma once
extern "C" __attribute__((noreturn, cold)) void ob_fail(int line) noexcept;
extern "C" void ob_live(int line) noexcept;
extern "C" void ob_sink(const void*) noexcept;
#define FAIL() ob_fail(__LINE__)
#define LIVE() ob_live(__LINE__)
#define REQUIRE(...)     \
   do {                  \
      if(!(__VA_ARGS__)) \
         return;         \
   } while(false)
#define PROVE(...)       \
   do {                  \
      if(!(__VA_ARGS__)) \
         FAIL();         \
   } while(false)
#define OB __attribute__((noinline))
