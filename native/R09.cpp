#include "rts/operator/HashJoin.hpp"
#include "rts/runtime/DomainDescription.hpp"
#include "ops.h"
static std::vector<Tup> gen(Rng& r, unsigned n, uint64_t vals, unsigned w, unsigned tails, uint64_t stride) { std::vector<Tup> t; bool big = r.upto(8) == 0; for (unsigned i = 0; i < n; i++) { Tup x; x.count = big ? 1 + r.upto(1ull << 27) : 1 + r.upto(3); x.v.push_back(r.upto(vals) * stride); for (unsigned k = 0; k < w; k++) x.v.push_back(r.upto(tails)); t.push_back(x); } return t; }
static std::string brief(const std::vector<Tup>& t) { if (t.size() <= 12) return show(t); std::ostringstream o; o << t.size() << " tuples (generated from the seed) " << show(std::vector<Tup>(t.begin(), t.begin() + 12)); return o.str(); }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      bool large = r.upto(400) == 0; uint64_t stride = r.upto(3) ? 1 : 1ull << r.upto(14);
      unsigned wl = r.upto(3), wr = r.upto(3), vals = large ? 6000 : 1 + r.upto(6), tails = 1 + r.upto(5); auto a = gen(r, large ? 1200 + r.upto(1000) : r.upto(8), vals, wl, tails, stride), b = gen(r, large ? r.upto(400) : r.upto(8), vals, wr, tails, stride);
      unsigned mode = r.coin() ? 0 : r.upto(4); bool lo = mode & 1, ro = mode & 2, dom = r.upto(4) == 0; int bits = r.upto(3) ? 0 : 1;
      std::ostringstream d; d << "case " << seed << "/" << c << " hash join left " << brief(a) << " right " << brief(b) << " optional " << lo << ro << " domain " << dom << " bitset " << bits; begin_case(d.str());
      std::vector<Register> rl(1 + wl, mkreg()), rr(1 + wr, mkreg()); std::vector<Register*> pl, pr, tl, tr, all;
      for (auto& x : rl) pl.push_back(&x); for (auto& x : rr) pr.push_back(&x); tl.assign(pl.begin() + 1, pl.end()); tr.assign(pr.begin() + 1, pr.end());
      all = pl; all.insert(all.end(), pr.begin(), pr.end());
      PotentialDomainDescription pd; std::vector<Tup> left;
      if (dom) { ObservedDomainDescription od; for (unsigned i = 0; i <= vals / 2; i++) od.add(i * stride); pd.restrictTo(od); rl[r.upto(1 + wl)].domain = &pd; }
      for (auto& x : a) { bool ok = true; for (unsigned i = 0; i <= wl; i++) if (rl[i].domain && !pd.couldQualify(x.v[i])) ok = false; if (ok) left.push_back(x); }
      HashJoin j(new VecOp(a, pl), &rl[0], tl, new VecOp(b, pr), &rr[0], tr, 0, 0, 0, lo, ro, bits);
      std::map<Vals, uint64_t> want; const uint64_t U = ~0ull; std::multimap<uint64_t, const Tup*> lk, rk;
      for (auto& x : left) lk.insert({x.v[0], &x}); for (auto& y : b) rk.insert({y.v[0], &y});
      for (auto& x : left) { auto e = rk.equal_range(x.v[0]); for (auto i = e.first; i != e.second; ++i) { Vals t = x.v; t.insert(t.end(), i->second->v.begin(), i->second->v.end()); want[t] += x.count * i->second->count; } if (e.first == e.second && ro) { Vals t = x.v; t.resize(2 + wl + wr, U); want[t] += x.count; } }
      if (lo) for (auto& y : b) if (!lk.count(y.v[0])) { Vals t(1 + wl, U); t.insert(t.end(), y.v.begin(), y.v.end()); want[t] += y.count; }
      for (int k = 0; k < 3; k++) {
         auto got = drain(j, all, 3000000);
         auto g = bag(got); if (g != want) { if (g.size() + want.size() < 60) SAMEBAG(g, want, "HashJoin"); for (auto& x : want) CHECK(g.count(x.first) && g[x.first] == x.second, "HashJoin: row %s has multiplicity %llu, expected %llu (evaluation %d)", show(x.first).c_str(), (unsigned long long)(g.count(x.first) ? g[x.first] : 0), (unsigned long long)x.second, k); for (auto& x : g) CHECK(want.count(x.first), "HashJoin: unexpected row %s (evaluation %d)", show(x.first).c_str(), k); }
         if (dom) for (auto& x : left) for (unsigned i = 0; i <= wl; i++) if (rl[i].domain) CHECK(pd.couldQualify(x.v[i]), "HashJoin: the domain of the left side no longer contains the value %llu", (unsigned long long)x.v[i]);
      }
   }
   return done(); }
