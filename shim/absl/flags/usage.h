#pragma once
#include <string>
#include <string_view>
namespace absl { inline void SetProgramUsageMessage(std::string_view) {} inline std::string_view ProgramUsageMessage() { return "usage\n"; } }
