// Equivalence of two term DAGs by SAT sweeping: random-simulation signatures propose equal nodes, bounded-depth
// local SMT queries prove them bottom up (inner proven-equal nodes are merged first), the goals follow.
#include "exec.h"
#include <algorithm>
#include <random>

namespace sx {
namespace {
struct Sim {
  std::vector<Model> models;
  std::vector<std::unordered_map<uint32_t, uint64_t>> v64;
};
uint64_t rnd(std::mt19937_64& g, int mode) {
  uint64_t r = g();
  switch (mode & 3) { case 0: case 1: case 2: return r; default: { uint64_t k = g() % 4; return k == 0 ? 0 : k == 1 ? ~0ULL : k == 2 ? (r & 0x7f) : r; } }
}
void topo(T root, std::vector<T>& out, std::unordered_map<uint32_t, bool>& seen) {
  if (seen[root->id]) return;
  std::vector<std::pair<T, unsigned>> st{{root, 0}}; seen[root->id] = true;
  while (!st.empty()) {
    auto& [t, i] = st.back();
    if (i < t->n) { T c = t->a[i++]; if (!seen[c->id]) { seen[c->id] = true; st.push_back({c, 0}); } continue; }
    out.push_back(t); st.pop_back();
  }
}
// abstract nodes: cut below `depth`
struct Cutter {
  std::unordered_map<uint32_t, T> cut; std::unordered_map<uint64_t, T> memo;
  T var(T t) {
    auto it = cut.find(t->id); if (it != cut.end()) return it->second;
    T r;
    if (t->w <= 64) r = mkVar("cut", t->w);
    else { std::vector<T> ps; unsigned left = t->w; while (left) { unsigned k = std::min(64u, left); ps.push_back(mkVar("cut", k)); left -= k; } r = mkConcat(ps); }
    return cut[t->id] = r;
  }
  T go(T t, int d) {
    if (t->isConst() || t->op == Op::Var) return t;
    bool glue = t->op == Op::Concat || t->op == Op::Extract || t->op == Op::Not || t->op == Op::SExt;
    if (d <= 0 && !glue) return var(t);
    uint64_t key = ((uint64_t)t->id << 8) | (uint8_t)(d < 0 ? 0 : d);
    auto it = memo.find(key); if (it != memo.end()) return it->second;
    std::vector<T> a; for (unsigned i = 0; i < t->n; ++i) a.push_back(go(t->a[i], glue ? d : d - 1));
    return memo[key] = rebuild(t, a);
  }
};
}  // namespace

static T expandMuls(T t, std::unordered_map<uint32_t, T>& memo) {
  // rewrite 128-bit products of two zero-extended 64-bit values into four 32x32 products (an algebraic identity)
  auto it = memo.find(t->id); if (it != memo.end()) return it->second;
  std::vector<T> a; for (unsigned i = 0; i < t->n; ++i) a.push_back(expandMuls(t->a[i], memo));
  T r = t->n ? rebuild(t, a) : t;
  if (r->op == Op::Mul && r->w == 128) {
    auto low64 = [](T x) -> T { if (x->isConst()) return constVal(x).getActiveBits() <= 64 ? mkTrunc(x, 64) : nullptr; return x->op == Op::Concat && x->a[0]->isConst() && constVal(x->a[0]).isZero() && x->a[0]->w >= 64 ? mkTrunc(x, 64) : nullptr; };
    T x = low64(r->a[0]), y = low64(r->a[1]);
    if (x && y) {
      auto z = [](T v) { return mkZExt(v, 64); };
      T xl = z(mkExtract(x, 0, 32)), xh = z(mkExtract(x, 32, 32)), yl = z(mkExtract(y, 0, 32)), yh = z(mkExtract(y, 32, 32));
      auto w = [](T v) { return mkZExt(v, 128); };
      T ll = w(mkMul(xl, yl)), lh = w(mkMul(xl, yh)), hl = w(mkMul(xh, yl)), hh = w(mkMul(xh, yh));
      T c32 = mkConst(32, 128), c64 = mkConst(64, 128);
      r = mkAdd(mkAdd(ll, mkShl(lh, c32)), mkAdd(mkShl(hl, c32), mkShl(hh, c64)));
    }
  }
  return memo[t->id] = r;
}

EqRes proveEqual(const std::vector<std::pair<T, T>>& goals0, const std::vector<T>& pc, Model* cex, const Model* hint, SweepStats& st, double budget) {
  double t0 = nowSecs(), tEnd = std::min(t0 + budget, gDeadline);
  std::vector<std::pair<T, T>> goals;
  for (auto g : goals0) { if (g.first == g.second) ++st.structural; else goals.push_back(g); }
  if (goals.empty()) return EqRes::Proved;
  std::mt19937_64 g(0x5eed1234);
  // variables
  std::vector<uint32_t> vars;
  for (auto& p : goals) for (T t : {p.first, p.second}) { auto& v = varsOf(t); vars.insert(vars.end(), v.begin(), v.end()); }
  for (T t : pc) { auto& v = varsOf(t); vars.insert(vars.end(), v.begin(), v.end()); }
  std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
  constexpr int K = 12;
  std::vector<Model> sims;
  for (int i = 0; i < K; ++i) { Model m; m.v.assign(gVars.size(), 0); for (uint32_t v : vars) m.v[v] = rnd(g, i) & maskw(gVars[v].w); sims.push_back(m); }
  if (hint) sims[0] = *hint;
  // counterexample by simulation (must satisfy pc)
  auto check = [&](const Model& m) {
    Evaluator e(m);
    for (T c : pc) if (!e.evalBool(c)) return false;
    for (auto& p : goals) if (e.eval(p.first) != e.eval(p.second)) return true;
    return false;
  };
  auto confirm = [&](const Model& m) {  // the solver decides on the pinned assignment
    *cex = m; return true;
  };
  for (auto& m : sims) if (check(m)) { confirm(m); return EqRes::Refuted; }
  if (!pc.empty()) {  // perturb the witness
    if (hint) for (int i = 0; i < 64; ++i) { Model m = *hint; m.v.resize(gVars.size(), 0); for (uint32_t v : vars) if (g() % 3 == 0) m.v[v] = g() & maskw(gVars[v].w); if (check(m)) { confirm(m); return EqRes::Refuted; } }
  } else for (int i = 0; i < 20; ++i) { Model m; m.v.assign(gVars.size(), 0); for (uint32_t v : vars) m.v[v] = rnd(g, i) & maskw(gVars[v].w); if (check(m)) { confirm(m); return EqRes::Refuted; } }
  // sweep
  std::vector<T> order; std::unordered_map<uint32_t, bool> seen;
  for (auto& p : goals) { topo(p.first, order, seen); topo(p.second, order, seen); }
  std::unordered_map<uint32_t, T> rep;
  std::vector<std::unique_ptr<Evaluator>> evs; for (auto& m : sims) evs.emplace_back(new Evaluator(m));
  std::vector<Model> sims2; std::vector<std::unique_ptr<Evaluator>> evs2;
  for (int i = 0; i < 52; ++i) { Model m; m.v.assign(gVars.size(), 0); for (uint32_t v : vars) m.v[v] = rnd(g, i) & maskw(gVars[v].w); sims2.push_back(m); }
  for (auto& m : sims2) evs2.emplace_back(new Evaluator(m));
  std::unordered_map<uint64_t, std::vector<T>> classes;
  auto sig = [&](T t) {
    uint64_t h = 0x9E37 + t->w;
    for (auto& e : evs) { if (t->w <= 64) h = (h ^ e->eval64(t)) * 0x9E3779B97F4A7C15ULL; else { APInt v = e->eval(t); for (unsigned i = 0; i < v.getNumWords(); ++i) h = (h ^ v.getRawData()[i]) * 0x9E3779B97F4A7C15ULL; } h ^= h >> 31; }
    if (t->w < 16) for (auto& e : evs2) { h = (h ^ e->eval64(t)) * 0x9E3779B97F4A7C15ULL; h ^= h >> 31; }
    return h;
  };
  auto R = [&](T t) { auto it = rep.find(t->id); return it == rep.end() ? t : it->second; };
  auto tryProve = [&](T a, T b, bool last) -> Sat {
    {  // cut at the nodes both sides share
      std::vector<T> oa, ob; std::unordered_map<uint32_t, bool> ca, cb; topo(a, oa, ca); topo(b, ob, cb);
      Cutter c; std::unordered_map<uint32_t, T> memo; size_t n = 0;
      std::function<T(T)> go = [&](T t) -> T {
        if (t->isConst() || t->op == Op::Var) return t;
        bool glue = t->op == Op::Concat || t->op == Op::Extract || t->op == Op::SExt;
        if (!glue && t != a && t != b && ca.count(t->id) && cb.count(t->id)) return c.var(t);
        auto it = memo.find(t->id); if (it != memo.end()) return it->second;
        if (++n > 3000) return memo[t->id] = c.var(t);
        std::vector<T> as; for (unsigned i = 0; i < t->n; ++i) as.push_back(go(t->a[i]));
        return memo[t->id] = rebuild(t, as);
      };
      T x = go(a), y = go(b);
      if (x == y) return Sat::No;
      ++st.queries;
      if (getenv("SX_SWEEPQ")) fprintf(stderr, "Q1 %s\n   %s\n", termStr(x, 12).c_str(), termStr(y, 12).c_str());
      if (solveRaw({mkNe(x, y)}, nullptr, 2000) == Sat::No) return Sat::No;
    }
    {  // cut at the first arithmetic node below a bitwise cone
      Cutter c; std::unordered_map<uint32_t, T> memo; size_t n = 0; bool over = false;
      std::function<T(T)> go = [&](T t) -> T {
        if (t->isConst() || t->op == Op::Var) return t;
        bool bitw = t->op == Op::Concat || t->op == Op::Extract || t->op == Op::SExt || t->op == Op::And || t->op == Op::Or || t->op == Op::Xor || t->op == Op::Not;
        if (!bitw && t != a && t != b) return c.var(t);
        auto it = memo.find(t->id); if (it != memo.end()) return it->second;
        if (++n > 400) { over = true; return t; }
        std::vector<T> as; for (unsigned i = 0; i < t->n; ++i) as.push_back(go(t->a[i]));
        return memo[t->id] = rebuild(t, as);
      };
      T x = go(a), y = go(b);
      if (!over) {
        if (x == y) return Sat::No;
        ++st.queries;
        if (solveRaw({mkNe(x, y)}, nullptr, 2000) == Sat::No) return Sat::No;
      }
    }
    static const int ds[] = {2, 4, 7, 12, 24};
    for (int d : ds) {
      if (nowSecs() > tEnd) return Sat::Unknown;
      Cutter c; T x = c.go(a, d), y = c.go(b, d);
      if (x == y) return Sat::No;
      ++st.queries;
      Sat r = solveRaw({mkNe(x, y)}, nullptr, d <= 4 ? 1000 : 2500);
      if (r == Sat::No) return Sat::No;
      if (c.cut.empty()) return r;  // exact
      if (d >= 7 && !last && a->w > 1 && r == Sat::Unknown) break;
    }
    // algebraic expansion of wide products
    if (a->w >= 8) {
      std::unordered_map<uint32_t, T> memo;
      T x = expandMuls(a, memo), y = expandMuls(b, memo);
      if (x == y) return Sat::No;
      for (int d : {6, 14}) {
        Cutter c;
        // cut at products
        std::function<T(T, int)> go = [&](T t, int dd) -> T {
          if (t->isConst() || t->op == Op::Var) return t;
          if (t->op == Op::Mul) return c.var(t);
          bool glue = t->op == Op::Concat || t->op == Op::Extract || t->op == Op::Not || t->op == Op::SExt;
          if (dd <= 0 && !glue) return c.var(t);
          std::vector<T> as; for (unsigned i = 0; i < t->n; ++i) as.push_back(go(t->a[i], glue ? dd : dd - 1));
          return rebuild(t, as);
        };
        if (x->depth > 60 || y->depth > 60) break;
        T xx = go(x, d), yy = go(y, d);
        if (xx == yy) return Sat::No;
        // products of two zero-extended 32-bit values are at most (2^32-1)^2
        std::vector<T> cs{mkNe(xx, yy)};
        for (auto& p : c.cut) {
          T m = gTerms[p.first];
          if (m->op == Op::Mul && m->w == 64 && m->umax != ~0ULL) cs.push_back(mkUle(p.second, mkConst(m->umax, 64)));
        }
        ++st.queries;
        if (solveRaw(cs, nullptr, 8000) == Sat::No) return Sat::No;
      }
    }
    return Sat::Unknown;
  };
  uint64_t tried = 0;
  for (T t : order) {
    T n = t;
    if (t->n) { std::vector<T> a; bool ch = false; for (unsigned i = 0; i < t->n; ++i) { T q = R(t->a[i]); a.push_back(q); ch |= q != t->a[i]; } if (ch) n = rebuild(t, a); }
    n = R(n);
    if (n->isConst() || n->op == Op::Var) { if (n != t) rep[t->id] = n; continue; }
    uint64_t s = sig(n);
    auto& cl = classes[s];
    bool merged = false;
    for (T o : cl) if (o == n) { merged = true; break; }
    if (!merged) {
      for (size_t i = 0; i < cl.size() && i < 3; ++i) {
        if (nowSecs() > tEnd) break;
        ++tried;
        double tq = nowSecs(); Sat r = tryProve(cl[i], n, false);
        if (getenv("SX_SWEEP")) fprintf(stderr, "sweep w%u d%u/%u r=%d %.2fs\n   %s\n   %s\n", n->w, cl[i]->depth, n->depth, (int)r, nowSecs() - tq, termStr(cl[i], 3).c_str(), termStr(n, 3).c_str());
        if (r == Sat::No) { ++st.swept; if (n != t) rep[n->id] = cl[i]; n = cl[i]; merged = true; break; }
      }
      if (!merged) cl.push_back(n);
    }
    if (n != t) rep[t->id] = n;
  }
  bool all = true;
  for (auto& p : goals) {
    T a = R(p.first), b = R(p.second);
    if (a == b) { continue; }
    if (nowSecs() > tEnd) { all = false; break; }
    Sat r = tryProve(a, b, true);
    if (r == Sat::No) continue;
    // exact query under the path condition
    std::vector<T> cs = pc; cs.push_back(mkNe(p.first, p.second));
    Model m; ++st.queries;
    double left = tEnd - nowSecs(); if (left < 0.2) { all = false; break; }
    r = solveRaw(cs, &m, (unsigned)std::min(left * 1000, 30000.0));
    if (r == Sat::Yes) { if (check(m)) { *cex = m; return EqRes::Refuted; } all = false; }
    else if (r == Sat::Unknown) all = false;
  }
  st.secs += nowSecs() - t0;
  return all ? EqRes::Proved : EqRes::Unknown;
}
}  // namespace sx
