#pragma once
#include "absl/base/log_severity.h"
namespace absl { template <class S> inline void SetStderrThreshold(S) {} template <class S> inline void SetMinLogLevel(S) {} }
