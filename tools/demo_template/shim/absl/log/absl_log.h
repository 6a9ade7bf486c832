#ifndef VERIF_SHIM_ABSL_LOG_H_
#define VERIF_SHIM_ABSL_LOG_H_
#include "absl/log/absl_check.h"
// Logging is swallowed; FATAL aborts as in Abseil.
#define VSHIM_LOG_INFO ::verif_shim::NullStream()
#define VSHIM_LOG_WARNING ::verif_shim::NullStream()
#define VSHIM_LOG_ERROR ::verif_shim::NullStream()
#define VSHIM_LOG_DFATAL ::verif_shim::NullStream()
#define VSHIM_LOG_FATAL ::verif_shim::FatalStream(__FILE__, __LINE__, "LOG(FATAL)")
#define VSHIM_LOG_QFATAL VSHIM_LOG_FATAL
#define ABSL_LOG(s) VSHIM_LOG_##s
#define ABSL_LOG_IF(s, c) if (!(c)) {} else ABSL_LOG(s)
#define ABSL_LOG_FIRST_N(s, n) ABSL_LOG(s)
#define ABSL_LOG_EVERY_N(s, n) ABSL_LOG(s)
#define ABSL_LOG_EVERY_POW_2(s) ABSL_LOG(s)
#define ABSL_DLOG(s) ABSL_LOG(s)
#define ABSL_VLOG(n) ::verif_shim::NullStream()
#endif
