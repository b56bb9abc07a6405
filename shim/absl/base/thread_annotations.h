#pragma once
#define ABSL_GUARDED_BY(x)
