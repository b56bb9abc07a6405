#pragma once
#include "absl/log/absl_log.h"
#define ABSL_CHECK(c) ABSL_LOG_IF(FATAL, !(c))
#define ABSL_QCHECK(c) ABSL_CHECK(c)
#define ABSL_CHECK_EQ(a, b) ABSL_CHECK((a) == (b))
#define ABSL_CHECK_NE(a, b) ABSL_CHECK((a) != (b))
#define ABSL_CHECK_LT(a, b) ABSL_CHECK((a) < (b))
#define ABSL_CHECK_LE(a, b) ABSL_CHECK((a) <= (b))
#define ABSL_CHECK_GT(a, b) ABSL_CHECK((a) > (b))
#define ABSL_CHECK_GE(a, b) ABSL_CHECK((a) >= (b))
#define ABSL_CHECK_OK(s) ABSL_CHECK((s).ok())
#define ABSL_DCHECK(c) ABSL_CHECK(c)
#define ABSL_DCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_DCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_DCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_DCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_DCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_DCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_QCHECK_EQ(a, b) ABSL_CHECK_EQ(a, b)
#define ABSL_QCHECK_NE(a, b) ABSL_CHECK_NE(a, b)
#define ABSL_QCHECK_LT(a, b) ABSL_CHECK_LT(a, b)
#define ABSL_QCHECK_LE(a, b) ABSL_CHECK_LE(a, b)
#define ABSL_QCHECK_GT(a, b) ABSL_CHECK_GT(a, b)
#define ABSL_QCHECK_GE(a, b) ABSL_CHECK_GE(a, b)
#define ABSL_QCHECK_OK(s) ABSL_CHECK_OK(s)
