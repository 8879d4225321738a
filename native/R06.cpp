#include "rts/operator/MergeJoin.hpp"
#include "ops.h"
static std::vector<Tup> gen(Rng& r, unsigned mx, unsigned vals, unsigned w) { std::vector<Tup> t; unsigned n = r.upto(mx); bool big = r.upto(8) == 0; for (unsigned i = 0; i < n; i++) { Tup x; x.count = big ? 1 + r.upto((1ull << 31) - 1) : 1 + r.upto(3); x.v.push_back(r.upto(vals)); for (unsigned k = 0; k < w; k++) x.v.push_back(r.upto(100)); t.push_back(x); } std::stable_sort(t.begin(), t.end(), [](const Tup& a, const Tup& b) { return a.v[0] < b.v[0]; }); return t; }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      unsigned wl = r.upto(3), wr = r.upto(3), vals = 1 + r.upto(5); auto a = gen(r, 8, vals, wl), b = gen(r, 8, vals, wr);
      unsigned mode = r.coin() ? 0 : r.upto(4); bool lo = mode & 1, ro = mode & 2;
      std::ostringstream d; d << "merge join left " << show(a) << " right " << show(b) << " optional " << lo << ro; begin_case(d.str());
      std::vector<Register> rl(1 + wl, mkreg()), rr(1 + wr, mkreg()); std::vector<Register*> pl, pr, tl, tr, all;
      for (auto& x : rl) pl.push_back(&x); for (auto& x : rr) pr.push_back(&x); tl.assign(pl.begin() + 1, pl.end()); tr.assign(pr.begin() + 1, pr.end());
      all = pl; all.insert(all.end(), pr.begin(), pr.end());
      MergeJoin j(new VecOp(a, pl), &rl[0], tl, new VecOp(b, pr), &rr[0], tr, lo, ro, 1);
      std::vector<Tup> want; const uint64_t U = ~0ull;
      for (auto& x : a) { bool m = false; for (auto& y : b) if (x.v[0] == y.v[0]) { m = true; Tup t{x.count * y.count, x.v}; t.v.insert(t.v.end(), y.v.begin(), y.v.end()); want.push_back(t); } if (!m && ro) { Tup t{x.count, x.v}; t.v.resize(2 + wl + wr, U); want.push_back(t); } }
      if (lo) for (auto& y : b) { bool m = false; for (auto& x : a) m |= x.v[0] == y.v[0]; if (!m) { Tup t{y.count, Vals(1 + wl, U)}; t.v.insert(t.v.end(), y.v.begin(), y.v.end()); want.push_back(t); } }
      for (int k = 0; k < 2; k++) {
         auto got = drain(j, all); SAMEBAG(bag(got), bag(want), "MergeJoin");
         if (!lo && !ro) for (size_t i = 1; i < got.size(); i++) CHECK(got[i - 1].v[0] <= got[i].v[0], "MergeJoin: output not in join-value order");
      }
   }
   return done(); }
