#include "rts/operator/NestedLoopJoin.hpp"
#include "rts/operator/NestedLoopFilter.hpp"
#include "ops.h"
static std::vector<Tup> gen(Rng& r, unsigned mx) { std::vector<Tup> t; unsigned n = r.upto(mx); for (unsigned i = 0; i < n; i++) { Tup x; x.count = 1 + r.upto(3); x.v.push_back(r.upto(3)); t.push_back(x); } return t; }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      {  // nested loop join: the inner sequence depends on the outer register
         auto a = gen(r, 6); std::vector<std::vector<Tup>> inner; for (int i = 0; i < 3; i++) inner.push_back(r.coin(3) ? std::vector<Tup>() : gen(r, 4));
         std::ostringstream d; d << "nested loop: outer " << show(a); for (auto& i : inner) d << " inner " << show(i); begin_case(d.str());
         Register ra = mkreg(), rb = mkreg();
         VecOp* right = new VecOp({}, {&rb}); std::function<std::vector<Tup>()> g = [&] { return inner[ra.value]; }; right->gen = &g;
         NestedLoopJoin j(new VecOp(a, {&ra}), right, 1);
         std::vector<Tup> want; for (auto& x : a) for (auto& y : inner[x.v[0]]) want.push_back(Tup{x.count * y.count, {x.v[0], y.v[0]}});
         for (int k = 0; k < 2; k++) SAMEBAG(bag(drain(j, {&ra, &rb})), bag(want), "NestedLoopJoin");
      }
      {  std::vector<uint64_t> vals; unsigned m = r.upto(5); std::set<uint64_t> sv; for (unsigned i = 0; i < m; i++) sv.insert(r.upto(6)); vals.assign(sv.begin(), sv.end()); for (size_t i = 1; i < vals.size(); i++) std::swap(vals[i], vals[r.upto(i + 1)]);
         std::vector<std::vector<Tup>> inner; for (int i = 0; i < 6; i++) inner.push_back(r.coin(2) ? std::vector<Tup>() : gen(r, 4));
         std::ostringstream d; d << "filter values " << show(vals); for (auto& i : inner) d << " input " << show(i); begin_case(d.str());
         Register f = mkreg(), rb = mkreg(); VecOp* in = new VecOp({}, {&rb});
         std::function<std::vector<Tup>()> g = [&] { CHECK(f.value < 6, "input restarted with filter value %llu", (unsigned long long)f.value); return inner[f.value]; }; in->gen = &g;
         NestedLoopFilter nf(in, &f, vals, 1);
         std::vector<Tup> want; for (auto v : vals) for (auto& y : inner[v]) want.push_back(Tup{y.count, {v, y.v[0]}});
         for (int k = 0; k < 2; k++) { SAMEBAG(bag(drain(nf, {&f, &rb})), bag(want), "NestedLoopFilter"); CHECK(nf.next() == 0, "NestedLoopFilter: a tuple after the end"); }
      }
   }
   return done(); }
