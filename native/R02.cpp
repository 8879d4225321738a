#include "rts/operator/MergeUnion.hpp"
#include "ops.h"
static std::vector<Tup> gen(Rng& r) { std::vector<Tup> t; unsigned n = r.upto(7); uint64_t v = r.coin(8) ? UINT64_MAX - 6 : r.upto(4); for (unsigned i = 0; i < n; i++) { Tup x; x.count = 1 + r.upto(3); x.v.push_back(v); t.push_back(x); uint64_t d = r.upto(3); if (v + d >= v) v += d; } return t; }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      auto a = gen(r), b = gen(r);
      begin_case("left " + show(a) + " right " + show(b));
      Register ra = mkreg(), rb = mkreg(), res = mkreg();
      MergeUnion u(&res, new VecOp(a, {&ra}), &ra, new VecOp(b, {&rb}), &rb, 1);
      auto want = bag(a); for (auto& x : bag(b)) want[x.first] += x.second;
      for (int k = 0; k < 2; k++) {
         auto got = drain(u, {&res});
         SAMEBAG(bag(got), want, k ? "MergeUnion restarted" : "MergeUnion");
         for (size_t i = 1; i < got.size(); i++) CHECK(got[i - 1].v[0] <= got[i].v[0], "MergeUnion output is not sorted: %s", show(got).c_str());
         if (r.coin()) CHECK(u.next() == 0, "MergeUnion: a tuple after the end");
      }
   }
   return done(); }
