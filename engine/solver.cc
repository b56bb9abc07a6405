#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>

namespace sx {
SolverStats gStats;
unsigned gQueryTimeoutMs = 20000;
double gDeadline = 1e18;
double nowSecs() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

namespace {
Z3_context C = nullptr;
std::vector<Z3_ast> gBv, gBl;          // memo by term id
std::vector<Z3_ast> gVarAst;
bool gHasFp = false;
Z3_solver gSimple = nullptr;

void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); }
void init() {
  if (C) return;
  Z3_config cfg = Z3_mk_config();
  C = Z3_mk_context(cfg);
  Z3_del_config(cfg);
  Z3_set_error_handler(C, onErr);
}
Z3_sort bvs(unsigned w) { return Z3_mk_bv_sort(C, w); }
Z3_ast keep(Z3_ast a) { Z3_inc_ref(C, a); return a; }
Z3_ast num(const APInt& v) {
  llvm::SmallVector<char, 32> s; v.toString(s, 10, false); s.push_back(0);
  return Z3_mk_numeral(C, s.data(), bvs(v.getBitWidth()));
}
Z3_sort fps(unsigned w) {
  switch (w) { case 16: return Z3_mk_fpa_sort_half(C); case 32: return Z3_mk_fpa_sort_single(C); case 64: return Z3_mk_fpa_sort_double(C);
    case 80: return Z3_mk_fpa_sort(C, 15, 64); case 128: return Z3_mk_fpa_sort_quadruple(C); }
  abort();
}
Z3_ast toFp(Z3_ast bv, unsigned w) {
  gHasFp = true;
  if (w == 80) {  // x87: sign(1) exp(15) int(1) frac(63): drop the explicit integer bit
    Z3_ast hi = Z3_mk_extract(C, 79, 64, bv), lo = Z3_mk_extract(C, 62, 0, bv);
    return Z3_mk_fpa_to_fp_bv(C, Z3_mk_concat(C, hi, lo), fps(80));
  }
  return Z3_mk_fpa_to_fp_bv(C, bv, fps(w));
}
Z3_ast fromFp(Z3_ast f, unsigned w) {
  Z3_ast b = Z3_mk_fpa_to_ieee_bv(C, f);
  if (w == 80) {
    Z3_ast hi = Z3_mk_extract(C, 78, 63, b), ex = Z3_mk_extract(C, 77, 63, b), lo = Z3_mk_extract(C, 62, 0, b);
    Z3_ast one = Z3_mk_numeral(C, "1", bvs(1)), zero = Z3_mk_numeral(C, "0", bvs(1));
    Z3_ast ib = Z3_mk_ite(C, Z3_mk_eq(C, ex, Z3_mk_numeral(C, "0", bvs(15))), zero, one);
    return Z3_mk_concat(C, hi, Z3_mk_concat(C, ib, lo));
  }
  return b;
}
Z3_ast& slot(std::vector<Z3_ast>& v, uint32_t id) { if (v.size() <= id) v.resize(gTerms.size() + 64, nullptr); return v[id]; }
bool boolOp(T t) { return t->w == 1 && (t->op == Op::Eq || t->op == Op::Ult || t->op == Op::Slt || t->op == Op::And || t->op == Op::Or || t->op == Op::Xor || t->op == Op::Not || t->op == Op::Ite); }
Z3_ast bl(T t);
Z3_ast bv(T t);
// non recursive driver: make sure children are translated first
void prepare(T root) {
  std::vector<std::pair<T, unsigned>> st{{root, 0}};
  auto done = [&](T t) { return slot(gBv, t->id) || slot(gBl, t->id); };
  while (!st.empty()) {
    auto& [t, i] = st.back();
    if (i < t->n) { T c = t->a[i++]; if (!done(c)) st.push_back({c, 0}); continue; }
    T x = t; st.pop_back();
    if (!done(x)) { if (boolOp(x)) bl(x); else bv(x); }
  }
}
Z3_ast bl(T t) {
  Z3_ast r = slot(gBl, t->id);
  if (r) return r;
  if (t->isConst()) r = t->c ? Z3_mk_true(C) : Z3_mk_false(C);
  else switch (t->op) {
    case Op::Eq: r = t->a[0]->w == 1 ? Z3_mk_iff(C, bl(t->a[0]), bl(t->a[1])) : Z3_mk_eq(C, bv(t->a[0]), bv(t->a[1])); break;
    case Op::Ult: r = Z3_mk_bvult(C, bv(t->a[0]), bv(t->a[1])); break;
    case Op::Slt: r = Z3_mk_bvslt(C, bv(t->a[0]), bv(t->a[1])); break;
    case Op::And: { Z3_ast x[2] = {bl(t->a[0]), bl(t->a[1])}; r = Z3_mk_and(C, 2, x); break; }
    case Op::Or: { Z3_ast x[2] = {bl(t->a[0]), bl(t->a[1])}; r = Z3_mk_or(C, 2, x); break; }
    case Op::Xor: { r = bl(t->a[0]); for (unsigned i = 1; i < t->n; ++i) r = Z3_mk_xor(C, r, bl(t->a[i])); break; }
    case Op::Not: r = Z3_mk_not(C, bl(t->a[0])); break;
    case Op::Ite: r = Z3_mk_ite(C, bl(t->a[0]), bl(t->a[1]), bl(t->a[2])); break;
    default: r = Z3_mk_eq(C, bv(t), Z3_mk_numeral(C, "1", bvs(1)));
  }
  keep(r); slot(gBl, t->id) = r; return r;
}
Z3_ast bv(T t) {
  Z3_ast r = slot(gBv, t->id);
  if (r) return r;
  if (boolOp(t)) {
    r = Z3_mk_ite(C, bl(t), Z3_mk_numeral(C, "1", bvs(1)), Z3_mk_numeral(C, "0", bvs(1)));
    keep(r); slot(gBv, t->id) = r; return r;
  }
  auto A = [&](unsigned i) { return bv(t->a[i]); };
  auto rne = [&] { return Z3_mk_fpa_rne(C); };
  auto F = [&](unsigned i) { return toFp(bv(t->a[i]), t->a[i]->w); };
  switch (t->op) {
    case Op::Const: r = num(constVal(t)); break;
    case Op::Var: {
      if (gVarAst.size() <= t->c) gVarAst.resize(gVars.size(), nullptr);
      if (!gVarAst[t->c]) { std::string n = "v" + std::to_string(t->c); gVarAst[t->c] = keep(Z3_mk_const(C, Z3_mk_string_symbol(C, n.c_str()), bvs(t->w))); }
      r = gVarAst[t->c]; break;
    }
    case Op::Sum: {
      for (unsigned i = 0; i < t->n; ++i) {
        Z3_ast x = A(i); uint64_t k = t->k[i];
        bool neg = k == maskw(t->w) && t->w > 1;
        if (neg) { r = r ? Z3_mk_bvsub(C, r, x) : Z3_mk_bvneg(C, x); continue; }
        if (k != 1) x = Z3_mk_bvmul(C, num(APInt(t->w, k)), x);
        r = r ? Z3_mk_bvadd(C, r, x) : x;
      }
      if (t->c) r = Z3_mk_bvadd(C, r, num(APInt(t->w, t->c)));
      break;
    }
    case Op::Add: r = Z3_mk_bvadd(C, A(0), A(1)); break;
    case Op::Mul: r = Z3_mk_bvmul(C, A(0), A(1)); break;
    case Op::UDiv: r = Z3_mk_bvudiv(C, A(0), A(1)); break;
    case Op::SDiv: r = Z3_mk_bvsdiv(C, A(0), A(1)); break;
    case Op::URem: r = Z3_mk_bvurem(C, A(0), A(1)); break;
    case Op::SRem: r = Z3_mk_bvsrem(C, A(0), A(1)); break;
    case Op::And: r = Z3_mk_bvand(C, A(0), A(1)); break;
    case Op::Or: r = Z3_mk_bvor(C, A(0), A(1)); break;
    case Op::Xor: r = A(0); for (unsigned i = 1; i < t->n; ++i) r = Z3_mk_bvxor(C, r, A(i)); break;
    case Op::Not: r = Z3_mk_bvnot(C, A(0)); break;
    case Op::Shl: r = Z3_mk_bvshl(C, A(0), A(1)); break;
    case Op::LShr: r = Z3_mk_bvlshr(C, A(0), A(1)); break;
    case Op::AShr: r = Z3_mk_bvashr(C, A(0), A(1)); break;
    case Op::Concat: r = A(t->n - 1); for (int i = t->n - 2; i >= 0; --i) r = Z3_mk_concat(C, A(i), r); break;
    case Op::Extract: r = Z3_mk_extract(C, t->c + t->w - 1, t->c, A(0)); break;
    case Op::SExt: r = Z3_mk_sign_ext(C, t->w - t->a[0]->w, A(0)); break;
    case Op::Ite: r = Z3_mk_ite(C, bl(t->a[0]), A(1), A(2)); break;
    case Op::FAdd: r = fromFp(Z3_mk_fpa_add(C, rne(), F(0), F(1)), t->w); break;
    case Op::FSub: r = fromFp(Z3_mk_fpa_sub(C, rne(), F(0), F(1)), t->w); break;
    case Op::FMul: r = fromFp(Z3_mk_fpa_mul(C, rne(), F(0), F(1)), t->w); break;
    case Op::FDiv: r = fromFp(Z3_mk_fpa_div(C, rne(), F(0), F(1)), t->w); break;
    case Op::FSqrt: r = fromFp(Z3_mk_fpa_sqrt(C, rne(), F(0)), t->w); break;
    case Op::FConv: r = fromFp(Z3_mk_fpa_to_fp_float(C, rne(), F(0), fps(t->w)), t->w); break;
    case Op::SIToFP: r = fromFp(Z3_mk_fpa_to_fp_signed(C, rne(), A(0), fps(t->w)), t->w); gHasFp = true; break;
    case Op::UIToFP: r = fromFp(Z3_mk_fpa_to_fp_unsigned(C, rne(), A(0), fps(t->w)), t->w); gHasFp = true; break;
    case Op::FPToSI: r = Z3_mk_fpa_to_sbv(C, Z3_mk_fpa_rtz(C), F(0), t->w); break;
    case Op::FPToUI: r = Z3_mk_fpa_to_ubv(C, Z3_mk_fpa_rtz(C), F(0), t->w); break;
    case Op::FRound: {
      Z3_ast rm = t->c == 0 ? Z3_mk_fpa_rtn(C) : t->c == 1 ? Z3_mk_fpa_rtp(C) : t->c == 2 ? Z3_mk_fpa_rtz(C) : t->c == 3 ? Z3_mk_fpa_rne(C) : Z3_mk_fpa_rna(C);
      r = fromFp(Z3_mk_fpa_round_to_integral(C, rm, F(0)), t->w); break;
    }
    default: fprintf(stderr, "solver: op %s\n", opName(t->op)); abort();
  }
  keep(r); slot(gBv, t->id) = r; return r;
}
void fillModel(Z3_solver s, const std::vector<uint32_t>& vars, Model& m) {
  Z3_model zm = Z3_solver_get_model(C, s);
  Z3_model_inc_ref(C, zm);
  if (m.v.size() < gVars.size()) m.v.resize(gVars.size(), 0);
  for (uint32_t i : vars) {
    if (i >= gVarAst.size() || !gVarAst[i]) { m.v[i] = 0; continue; }
    Z3_ast v = nullptr; uint64_t x = 0;
    if (Z3_model_eval(C, zm, gVarAst[i], true, &v) && v) {
      Z3_inc_ref(C, v);
      if (!Z3_get_numeral_uint64(C, v, (uint64_t*)&x)) x = 0;
      Z3_dec_ref(C, v);
    }
    m.v[i] = x;
  }
  Z3_model_dec_ref(C, zm);
}
bool gTermFp(T t) {
  static std::unordered_map<uint32_t, bool> memo;
  if (!gHasFp) return false;
  auto it = memo.find(t->id); if (it != memo.end()) return it->second;
  bool r = false; std::vector<T> st{t}; std::set<uint32_t> seen;
  while (!st.empty() && !r) { T x = st.back(); st.pop_back(); if (x->op >= Op::FAdd) r = true; for (unsigned i = 0; i < x->n; ++i) if (seen.insert(x->a[i]->id).second) st.push_back(x->a[i]); }
  return memo[t->id] = r;
}
Z3_solver fresh(bool fp, unsigned ms, bool simple) {
  Z3_solver s;
  if (simple) s = Z3_mk_simple_solver(C);
  else {
    Z3_tactic t = Z3_mk_tactic(C, fp ? "qffp" : "qfbv");
    Z3_tactic_inc_ref(C, t);
    s = Z3_mk_solver_from_tactic(C, t);
    Z3_tactic_dec_ref(C, t);
  }
  Z3_solver_inc_ref(C, s);
  Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
  Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), ms);
  Z3_solver_set_params(C, s, p);
  Z3_params_dec_ref(C, p);
  return s;
}
Sat check(const std::vector<T>& cs, const std::vector<uint32_t>& vars, Model* m, unsigned ms) {
  init();
  double t0 = nowSecs();
  double left = gDeadline - t0;
  if (left < 0.05) return Sat::Unknown;
  ms = std::min<double>(ms, left * 1000 + 50);
  ++gStats.queries;
  for (T t : cs) prepare(t);
  bool fp = false; for (T t : cs) fp |= gTermFp(t);
  Sat res = Sat::Unknown;
  for (int phase = fp ? 1 : 0; phase < 2 && res == Sat::Unknown; ++phase) {
    unsigned lim = phase == 0 ? std::min(ms, 150u) : ms;
    Z3_solver s = fresh(fp, lim, phase == 0);
    for (T t : cs) Z3_solver_assert(C, s, bl(t));
    Z3_lbool r = Z3_solver_check(C, s);
    if (r == Z3_L_TRUE) { res = Sat::Yes; if (m) fillModel(s, vars, *m); }
    else if (r == Z3_L_FALSE) res = Sat::No;
    Z3_solver_dec_ref(C, s);
    if (phase == 0 && ms <= 150) break;
  }
  double dt = nowSecs() - t0;
  gStats.secs += dt;
  if (getenv("SX_SLOWQ") && dt > 0.5) fprintf(stderr, "slow query %.2fs res=%d n=%zu vars=%zu\n", dt, (int)res, cs.size(), vars.size());
  if (res == Sat::Yes) ++gStats.sat; else if (res == Sat::No) ++gStats.unsat; else ++gStats.unknown;
  return res;
}
struct KeyHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 7; for (auto x : v) { h ^= x; h *= 0x9E3779B97F4A7C15ULL; h ^= h >> 31; } return h; } };
struct CacheEnt { Sat r; std::vector<std::pair<uint32_t, uint64_t>> m; };
std::unordered_map<std::vector<uint32_t>, CacheEnt, KeyHash> gCache;
std::deque<Model> gModels;
}  // namespace

Sat solveRaw(const std::vector<T>& cs, Model* m, unsigned ms) {
  std::vector<uint32_t> vars;
  for (T t : cs) { if (t->isConst(0)) return Sat::No; auto& v = varsOf(t); vars.insert(vars.end(), v.begin(), v.end()); }
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  return check(cs, vars, m, ms);
}

Sat solve(const std::vector<T>& pc, T cond, Model* model, const Model* hint, unsigned ms) {
  if (!ms) ms = gQueryTimeoutMs;
  if (cond->isConst(0)) return Sat::No;
  // slice: constraints transitively sharing variables with cond
  std::vector<T> cs; std::vector<uint32_t> vars;
  if (cond->isConst(1)) { cs = pc; for (T t : pc) { auto& v = varsOf(t); vars.insert(vars.end(), v.begin(), v.end()); } }
  else {
    std::vector<bool> in(gVars.size() + 1, false), used(pc.size(), false);
    for (uint32_t v : varsOf(cond)) { in[v] = true; vars.push_back(v); }
    cs.push_back(cond);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); ++i) if (!used[i]) {
        auto& v = varsOf(pc[i]); bool hit = false;
        for (uint32_t x : v) if (in[x]) { hit = true; break; }
        if (!hit) continue;
        used[i] = true; ch = true; cs.push_back(pc[i]);
        for (uint32_t x : v) if (!in[x]) { in[x] = true; vars.push_back(x); }
      }
    }
  }
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  auto combine = [&](const std::vector<std::pair<uint32_t, uint64_t>>& part) {
    if (!model) return;
    if (hint && model != hint) *model = *hint;
    if (model->v.size() < gVars.size()) model->v.resize(gVars.size(), 0);
    for (auto& p : part) model->v[p.first] = p.second;
  };
  std::vector<uint32_t> key; for (T t : cs) key.push_back(t->id);
  std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
  auto it = gCache.find(key);
  if (it != gCache.end() && it->second.r != Sat::Unknown) { ++gStats.hits; if (it->second.r == Sat::Yes) combine(it->second.m); return it->second.r; }
  // try recent models
  auto fits = [&](const Model& m) { Evaluator e(m); for (T t : cs) if (!e.evalBool(t)) return false; return true; };
  CacheEnt ent{Sat::Unknown, {}};
  auto take = [&](const Model& m) { ent.r = Sat::Yes; for (uint32_t v : vars) ent.m.push_back({v, m.get(v)}); };
  if (hint && fits(*hint)) { ++gStats.modelHits; take(*hint); }
  else {
    int n = 0;
    for (auto& m : gModels) { if (++n > 12) break; if (fits(m)) { ++gStats.modelHits; take(m); break; } }
  }
  if (ent.r == Sat::Unknown) {
    Model m; ent.r = check(cs, vars, &m, ms);
    if (ent.r == Sat::Yes) {
      if (!fits(m)) { fprintf(stderr, "solver: model does not satisfy the query (internal)\n"); ent.r = Sat::Unknown; if (getenv("SX_DEBUG")) { Evaluator e(m); for (T t : cs) if (!e.evalBool(t)) fprintf(stderr, "  %s\n", termStr(t, 8).c_str()); } }
      else { take(m); gModels.push_front(m); if (gModels.size() > 24) gModels.pop_back(); }
    }
  }
  if (ent.r == Sat::Yes) combine(ent.m);
  Sat r = ent.r;
  if (r != Sat::Unknown) gCache[key] = std::move(ent);
  return r;
}
}  // namespace sx
