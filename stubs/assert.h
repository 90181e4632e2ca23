// assert() whose failure may be observed as an exception by the conformance drivers (see vh.hpp).
#undef assert
#ifndef VH_ASSERT_DECL
#define VH_ASSERT_DECL
extern "C" [[noreturn]] void vh_assert_fail(const char* e, const char* f, unsigned int l, const char* fn);
#endif
#ifdef NDEBUG
#define assert(e) ((void)0)
#else
#define assert(e) ((e) ? (void)0 : vh_assert_fail(#e, __FILE__, __LINE__, __func__))
#endif
