// symx MODULE.bc -- reads jobs from stdin ("id entry timeout qms samples maxpaths p0,p1,..."), runs each in a forked child.
#include "exec.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstdio>
#include <fstream>
#include <iostream>
#include <pthread.h>
#include <signal.h>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sx;
static Engine* E;
static JobSpec J; static std::string OUT;
static void* child(void*) {
  JobResult r = engineRun(E, J);
  std::ofstream(OUT) << toJson(r) << "\n";
  return nullptr;
}
static void* init(void*) { engineInit(E); return nullptr; }
static void bigThread(void* (*f)(void*)) {
  pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, (size_t)1 << 30);
  pthread_t t; if (pthread_create(&t, &a, f, nullptr)) { perror("pthread"); exit(3); }
  pthread_join(t, nullptr);
}
int main(int argc, char** argv) {
  if (argc < 3) { fprintf(stderr, "usage: symx module.bc outdir [par]\n"); return 2; }
  int par = argc > 3 ? atoi(argv[3]) : 8;
  llvm::LLVMContext ctx; llvm::SMDiagnostic err;
  auto M = llvm::parseIRFile(argv[1], err, ctx);
  if (!M) { err.print("symx", llvm::errs()); return 2; }
  initTerms();
  E = newEngine(*M);
  bigThread(init);
  std::vector<JobSpec> jobs; std::string line;
  while (std::getline(std::cin, line)) {
    if (line.empty()) continue;
    std::istringstream is(line); JobSpec j; std::string ps; is >> j.id >> j.entry >> j.timeout >> j.qms >> j.samples >> j.maxPaths >> ps;
    std::string t; std::istringstream p(ps); while (std::getline(p, t, ',')) if (!t.empty() && t != "-") j.params.push_back(std::stoull(t));
    jobs.push_back(j);
  }
  size_t next = 0; int live = 0; std::map<pid_t, size_t> who; std::map<pid_t, double> start;
  while (next < jobs.size() || live) {
    while (live < par && next < jobs.size()) {
      pid_t p = fork();
      if (p == 0) {
        struct rlimit rl{(rlim_t)6 << 30, (rlim_t)6 << 30}; setrlimit(RLIMIT_AS, &rl);
        J = jobs[next]; OUT = std::string(argv[2]) + "/" + J.id + ".json";
        alarm((unsigned)(J.timeout * 1.5 + 60));
        bigThread(child); _exit(0);
      }
      who[p] = next++; ++live;
    }
    int st; pid_t p = wait(&st);
    if (p > 0 && who.count(p)) {
      --live; JobSpec& j = jobs[who[p]];
      if (!WIFEXITED(st) || WEXITSTATUS(st)) {
        JobResult r; r.job = j.id; r.entry = j.entry; r.params = j.params;
        r.incomplete["engine died: status " + std::to_string(st)]++;
        std::ofstream(std::string(argv[2]) + "/" + j.id + ".json") << toJson(r) << "\n";
      }
    }
  }
  return 0;
}
