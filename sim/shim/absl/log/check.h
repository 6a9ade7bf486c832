#ifndef VERIF_SHIM_CHECK_H_
#define VERIF_SHIM_CHECK_H_
#include "absl/log/absl_check.h"
#ifndef CHECK
#define CHECK ABSL_CHECK
#define CHECK_EQ ABSL_CHECK_EQ
#define CHECK_NE ABSL_CHECK_NE
#define CHECK_LT ABSL_CHECK_LT
#define CHECK_LE ABSL_CHECK_LE
#define CHECK_GT ABSL_CHECK_GT
#define CHECK_GE ABSL_CHECK_GE
#define CHECK_OK ABSL_CHECK_OK
#define DCHECK ABSL_DCHECK
#define DCHECK_EQ ABSL_DCHECK_EQ
#define DCHECK_NE ABSL_DCHECK_NE
#define DCHECK_LT ABSL_DCHECK_LT
#define DCHECK_LE ABSL_DCHECK_LE
#define DCHECK_GT ABSL_DCHECK_GT
#define DCHECK_GE ABSL_DCHECK_GE
#define QCHECK ABSL_QCHECK
#endif
#endif
