#ifndef VERIF_SHIM_LOG_H_
#define VERIF_SHIM_LOG_H_
#include "absl/log/absl_log.h"
#ifndef LOG
#define LOG ABSL_LOG
#define LOG_FIRST_N ABSL_LOG_FIRST_N
#endif
#endif
