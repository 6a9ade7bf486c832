// Shim: apt's Abseil (20220623) predates absl/log. Same macros, same fatality.
#ifndef VERIF_SHIM_ABSL_CHECK_H_
#define VERIF_SHIM_ABSL_CHECK_H_
#include <cstdio>
#include <cstdlib>
#include <ostream>
#include <sstream>
#include "absl/base/optimization.h"
namespace verif_shim {
struct FatalStream {
  std::ostringstream os;
  FatalStream(const char* f, int l, const char* e) { os << f << ":" << l << " Check failed: " << e << " "; }
  [[noreturn]] ~FatalStream() {
    std::fprintf(stderr, "F %s\n", os.str().c_str());
    std::fflush(stderr);
    std::abort();
  }
  template <typename T> FatalStream& operator<<(const T& v) { os << v; return *this; }
};
struct Voidify { template <typename T> void operator&&(const T&) const {} };
struct NullStream { template <typename T> NullStream& operator<<(const T&) { return *this; } };
}  // namespace verif_shim
#define VSHIM_CHECK(cond, text) \
  ABSL_PREDICT_TRUE((cond)) ? (void)0 \
      : ::verif_shim::Voidify() && ::verif_shim::FatalStream(__FILE__, __LINE__, text)
#define ABSL_CHECK(c) VSHIM_CHECK(c, #c)
#define ABSL_QCHECK(c) VSHIM_CHECK(c, #c)
#define ABSL_PCHECK(c) VSHIM_CHECK(c, #c)
#define ABSL_CHECK_EQ(a, b) VSHIM_CHECK((a) == (b), #a " == " #b)
#define ABSL_CHECK_NE(a, b) VSHIM_CHECK((a) != (b), #a " != " #b)
#define ABSL_CHECK_LT(a, b) VSHIM_CHECK((a) < (b), #a " < " #b)
#define ABSL_CHECK_LE(a, b) VSHIM_CHECK((a) <= (b), #a " <= " #b)
#define ABSL_CHECK_GT(a, b) VSHIM_CHECK((a) > (b), #a " > " #b)
#define ABSL_CHECK_GE(a, b) VSHIM_CHECK((a) >= (b), #a " >= " #b)
#define ABSL_CHECK_OK(s) VSHIM_CHECK((s).ok(), #s " is OK")
#define ABSL_QCHECK_OK(s) ABSL_CHECK_OK(s)
#define ABSL_QCHECK_EQ ABSL_CHECK_EQ
#define ABSL_QCHECK_NE ABSL_CHECK_NE
#define ABSL_QCHECK_LT ABSL_CHECK_LT
#define ABSL_QCHECK_LE ABSL_CHECK_LE
#define ABSL_QCHECK_GT ABSL_CHECK_GT
#define ABSL_QCHECK_GE ABSL_CHECK_GE
// The project's own build here has no NDEBUG, so DCHECKs are on.
#ifndef NDEBUG
#define ABSL_DCHECK ABSL_CHECK
#define ABSL_DCHECK_EQ ABSL_CHECK_EQ
#define ABSL_DCHECK_NE ABSL_CHECK_NE
#define ABSL_DCHECK_LT ABSL_CHECK_LT
#define ABSL_DCHECK_LE ABSL_CHECK_LE
#define ABSL_DCHECK_GT ABSL_CHECK_GT
#define ABSL_DCHECK_GE ABSL_CHECK_GE
#define ABSL_DCHECK_OK ABSL_CHECK_OK
#else
#define VSHIM_DCHECK(c) ABSL_CHECK(true || (c))
#define ABSL_DCHECK(c) VSHIM_DCHECK(c)
#define ABSL_DCHECK_EQ(a, b) VSHIM_DCHECK((a) == (b))
#define ABSL_DCHECK_NE(a, b) VSHIM_DCHECK((a) != (b))
#define ABSL_DCHECK_LT(a, b) VSHIM_DCHECK((a) < (b))
#define ABSL_DCHECK_LE(a, b) VSHIM_DCHECK((a) <= (b))
#define ABSL_DCHECK_GT(a, b) VSHIM_DCHECK((a) > (b))
#define ABSL_DCHECK_GE(a, b) VSHIM_DCHECK((a) >= (b))
#define ABSL_DCHECK_OK(s) VSHIM_DCHECK((s).ok())
#endif
#endif
