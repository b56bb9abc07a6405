// Stand-in for absl flag parsing: flags are set by the harness, every argument is positional.
#pragma once
#include <vector>
#include "absl/flags/flag.h"
namespace absl { inline std::vector<char*> ParseCommandLine(int argc, char* argv[]) { return std::vector<char*>(argv, argv + argc); } }
