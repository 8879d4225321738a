#include "rts/operator/DuplLimit.hpp"
#include "ops.h"
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      std::vector<Tup> a; unsigned k = r.upto(6); for (unsigned i = 0; i < k; i++) { Tup t; t.count = 1 + (r.coin() ? r.upto(4) : 0); t.v.push_back(10 + i); a.push_back(t); }
      bool dup = r.coin(); uint64_t lim = r.coin(3) ? UINT64_MAX : r.upto(8), off = r.coin(3) ? 0 : r.upto(8);
      std::ostringstream d; d << "input " << show(a) << " duplicates=" << dup << " limit=" << lim << " offset=" << off; begin_case(d.str());
      std::vector<uint64_t> want, exp; for (auto& t : a) for (uint64_t i = 0; i < (dup ? t.count : 1); i++) exp.push_back(t.v[0]);
      for (uint64_t i = off; i < exp.size() && want.size() < lim; i++) want.push_back(exp[i]);
      Register ra = mkreg(); std::vector<Register*> regs(1, &ra);
      DuplLimit u(new VecOp(a, {&ra}), regs, dup ? DuplLimit::Duplicates : DuplLimit::NoDuplicates, lim, off);
      std::vector<uint64_t> got; for (auto& t : drain(u, {&ra})) { CHECK(t.count == 1, "count %llu", (unsigned long long)t.count); got.push_back(t.v[0]); }
      CHECK(got == want, "rows %s expected %s", show(got).c_str(), show(want).c_str());
   }
   return done(); }
