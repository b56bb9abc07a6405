#pragma once
#include "absl/log/absl_log.h"
#define LOG(sev) ABSL_LOG(sev)
#define LOG_IF(sev, c) ABSL_LOG_IF(sev, c)
