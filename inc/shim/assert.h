/* Analysis shim: turns assert(), through which strictpp reports a failed check when
   STRICT_ERROR_EXCEPTIONS is off, into a call of one opaque function that does not
   return. Not guarded: <assert.h> may be included any number of times. */
#undef assert
#ifdef __cplusplus
extern "C"
#endif
__attribute__((noreturn, cold)) void strictpp_check_failed(const char*, const char*, int, const char*);
#ifndef static_assert
#ifndef __cplusplus
#define static_assert _Static_assert
#endif
#endif
#define assert(e) ((e) ? (void)0 : strictpp_check_failed(#e, __FILE__, __LINE__, __func__))
