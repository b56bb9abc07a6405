// Hash-consed bit-vector terms with a strong local simplifier.
#pragma once
#include <llvm/ADT/APInt.h>
#include <llvm/ADT/APFloat.h>
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>

namespace sx {
using llvm::APInt;

enum class Op : uint8_t {
  Const, Var, Sum, Add, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Not, Shl, LShr, AShr,
  Concat, Extract, SExt, Ite, Eq, Ult, Slt,
  FAdd, FSub, FMul, FDiv, FSqrt, FConv, SIToFP, UIToFP, FPToSI, FPToUI, FRound
};
const char* opName(Op);

struct Term {
  Op op;
  uint8_t hasUndef;
  uint16_t w;
  uint32_t n;       // number of args
  uint32_t id;
  uint32_t depth;
  uint64_t hash;
  uint64_t c;       // const value (w<=64), extract low bit, var index, Sum constant, FRound mode
  uint64_t kz, ko;  // known zero / one bits (w<=64)
  uint64_t umin, umax;  // unsigned range (w<=64)
  Term** a;
  uint64_t* k;        // Sum coefficients
  const APInt* big;   // const value if w>64
  bool isConst() const { return op == Op::Const; }
  bool isConst(uint64_t v) const { return op == Op::Const && w <= 64 && c == v; }
};
using T = Term*;

inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }

struct VarInfo { std::string name; unsigned w; bool undef; };
extern std::vector<VarInfo> gVars;
extern std::vector<T> gTerms;  // by id

void initTerms();
T mkConst(uint64_t v, unsigned w);
T mkConstBig(const APInt& v);
inline T mkBool(bool b) { return mkConst(b, 1); }
T mkVar(const std::string& name, unsigned w, bool undef = false);
APInt constVal(T t);

T mkAdd(T a, T b);
T mkSub(T a, T b);
T mkNeg(T a);
T mkMul(T a, T b);
T mkMulC(T a, uint64_t k);
T mkUDiv(T a, T b);
T mkSDiv(T a, T b);
T mkURem(T a, T b);
T mkSRem(T a, T b);
T mkAnd(T a, T b);
T mkOr(T a, T b);
T mkXor(T a, T b);
T mkNot(T a);
T mkShl(T a, T b);
T mkLShr(T a, T b);
T mkAShr(T a, T b);
T mkConcat(const std::vector<T>& msbFirst);
T mkConcat2(T hi, T lo);
T mkExtract(T a, unsigned lo, unsigned w);
T mkZExt(T a, unsigned w);
T mkSExt(T a, unsigned w);
T mkTrunc(T a, unsigned w);
T mkIte(T c, T a, T b);
T mkEq(T a, T b);
T mkUlt(T a, T b);
T mkSlt(T a, T b);
inline T mkNe(T a, T b) { return mkNot(mkEq(a, b)); }
inline T mkUle(T a, T b) { return mkNot(mkUlt(b, a)); }
inline T mkSle(T a, T b) { return mkNot(mkSlt(b, a)); }
T mkFloat(Op op, unsigned w, const std::vector<T>& args, uint64_t aux = 0);
T rebuild(T t, const std::vector<T>& args);  // same operator, new args

std::string termStr(T t, int depth = 6);
std::string opHistogram(T t);
const llvm::fltSemantics& fltSem(unsigned w);

// Evaluation under an assignment of variables.
struct Model {
  std::vector<uint64_t> v;  // by var index (w<=64)
  uint64_t get(size_t i) const { return i < v.size() ? v[i] : 0; }
};
class Evaluator {
 public:
  explicit Evaluator(const Model& m) : m_(m) {}
  uint64_t eval64(T t);
  APInt eval(T t);
  bool evalBool(T t) { return eval64(t) & 1; }
 private:
  void run(T root);
  void compute(T t);
  const Model& m_;
  std::unordered_map<uint32_t, uint64_t> small_;
  std::unordered_map<uint32_t, APInt> big_;
};
// variables occurring in t (sorted indices), memoised
const std::vector<uint32_t>& varsOf(T t);
}  // namespace sx
