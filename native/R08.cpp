#include "rts/operator/NestedLoopJoin.hpp"
#include "rts/operator/MergeUnion.hpp"
#include "rts/operator/DuplLimit.hpp"
#include "ops.h"
static std::vector<Tup> gen(Rng& r, unsigned mx, unsigned vals) { std::vector<Tup> t; unsigned n = r.upto(mx); for (unsigned i = 0; i < n; i++) t.push_back(Tup{1 + r.upto(3), Vals(1, r.upto(vals))}); return t; }
static void same(Operator& op, const std::vector<Register*>& regs, const std::vector<Tup>& want, const char* what) {
   for (int k = 0; k < 2; k++) { auto got = drain(op, regs); SAMEBAG(bag(got), bag(want), what); CHECK(got.size() == want.size(), "%s: %zu tuples instead of %zu", what, got.size(), want.size()); for (size_t i = 0; i < got.size(); i++) CHECK(got[i].v == want[i].v && got[i].count == want[i].count, "%s: tuple %zu differs", what, i); } }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c); std::ostringstream d;
      switch (c % 3) {
      case 0: { auto a = gen(r, 6, 5); std::vector<std::vector<Tup>> byv; for (int i = 0; i < 5; i++) byv.push_back(gen(r, 4, 9)); d << "nested loops " << show(a) << " with"; for (auto& b : byv) d << " " << show(b); begin_case(d.str());
         Register l = mkreg(), q = mkreg(); std::vector<Tup> want; for (auto& x : a) for (auto& y : byv[x.v[0]]) want.push_back(Tup{x.count * y.count, Vals{x.v[0], y.v[0]}});
         VecOp* R = new VecOp({}, {&q}); std::function<std::vector<Tup>()> g = [&]() { CHECK(l.value < 5, "NestedLoopJoin: right side evaluated without a left tuple"); return byv[l.value]; }; R->gen = &g;
         NestedLoopJoin j(new VecOp(a, {&l}), R, 1); same(j, {&l, &q}, want, "NestedLoopJoin"); break; }
      case 1: { auto a = gen(r, 7, 8), b = gen(r, 7, 8); auto lt = [](const Tup& p, const Tup& q) { return p.v < q.v; }; std::stable_sort(a.begin(), a.end(), lt); std::stable_sort(b.begin(), b.end(), lt); bool al = r.coin();
         d << "merge union " << show(a) << " and " << show(b) << (al ? " shared register" : ""); begin_case(d.str()); Register l = mkreg(), q = mkreg(), res = mkreg(); Register* out = al ? &l : &res;
         std::vector<Tup> want; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { bool tl = i < a.size() && (j == b.size() || a[i].v <= b[j].v), tr = j < b.size() && (i == a.size() || b[j].v <= a[i].v); want.push_back(Tup{(tl ? a[i].count : 0) + (tr ? b[j].count : 0), tl ? a[i].v : b[j].v}); i += tl; j += tr; }
         MergeUnion u(out, new VecOp(a, {&l}), &l, new VecOp(b, {&q}), &q, 1); same(u, {out}, want, "MergeUnion"); CHECK(u.next() == 0 || want.empty(), "MergeUnion: a tuple after the end"); break; }
      case 2: { auto a = gen(r, 6, 9); bool dup = r.coin(); uint64_t lim = r.coin() ? UINT64_MAX : r.upto(8), off = r.coin() ? 0 : r.upto(6); d << "limit " << lim << " offset " << off << (dup ? " duplicates of " : " distinct of ") << show(a); begin_case(d.str());
         std::vector<Tup> flat, want; for (auto& x : a) for (uint64_t k = 0; k < (dup ? x.count : 1); k++) flat.push_back(Tup{1, x.v}); for (uint64_t k = off; k < flat.size() && k - off < lim; k++) want.push_back(flat[k]);
         Register l = mkreg(); DuplLimit dl(new VecOp(a, {&l}), {&l}, dup ? DuplLimit::Duplicates : DuplLimit::NoDuplicates, lim, off); same(dl, {&l}, want, "DuplLimit"); break; }
      }
   }
   return done(); }
