#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <map>
#include <memory>
#include <set>
#include <string>

namespace sx {
struct InputRec { std::string name; std::vector<T> vars; };  // bytes or one value
struct Violation { std::string kind, msg, where; std::vector<std::pair<std::string, std::vector<uint64_t>>> inputs; bool undefDep = false; };
struct JobResult {
  std::string job, entry; std::vector<uint64_t> params;
  uint64_t paths = 0, assumed = 0, aborts = 0, forks = 0, insts = 0, asserts = 0, assertsConst = 0, eqPairs = 0, eqStruct = 0, eqSwept = 0, sweepQueries = 0, memChecks = 0, branchQ = 0;
  double secs = 0;
  std::map<std::string, uint64_t> incomplete;
  std::vector<Violation> violations;
  std::set<std::string> covers, functions;
  std::vector<std::vector<std::pair<std::string, std::vector<uint64_t>>>> samples;  // inputs of completed paths
  std::vector<std::vector<uint64_t>> sampleTrace;
};
struct JobSpec { std::string id, entry; std::vector<uint64_t> params; double timeout = 60; unsigned qms = 20000; unsigned samples = 2; uint64_t maxPaths = 0; };

class Engine;
Engine* newEngine(llvm::Module& m);
void engineInit(Engine*);  // runs global constructors
JobResult engineRun(Engine*, const JobSpec&);
std::string toJson(const JobResult&);

// sweep.cc
struct SweepStats { uint64_t structural = 0, swept = 0, queries = 0; double secs = 0; };
enum class EqRes { Proved, Refuted, Unknown };
EqRes proveEqual(const std::vector<std::pair<T, T>>& goals, const std::vector<T>& pc, Model* cex, const Model* hint, SweepStats& st, double budget);
}  // namespace sx
