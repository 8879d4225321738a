#include "rts/operator/ValuesScan.hpp"
#include "rts/operator/Filter.hpp"
#include "rts/operator/Union.hpp"
#include "rts/operator/Minus.hpp"
#include "rts/operator/CartProd.hpp"
#include "rts/operator/Assignment.hpp"
#include "rts/operator/EmptyScan.hpp"
#include "rts/operator/SingletonScan.hpp"
#include "rts/runtime/DomainDescription.hpp"
#include "ops.h"
static std::vector<Tup> gen(Rng& r, unsigned mx, unsigned w, unsigned vals) { std::vector<Tup> t; unsigned n = r.upto(mx); for (unsigned i = 0; i < n; i++) { Tup x; x.count = 1 + r.upto(3); for (unsigned k = 0; k < w; k++) x.v.push_back(r.upto(vals)); t.push_back(x); } return t; }
static std::vector<Register*> ptrs(std::vector<Register>& r) { std::vector<Register*> p; for (auto& x : r) p.push_back(&x); return p; }
static void same(Operator& op, const std::vector<Register*>& regs, const std::vector<Tup>& want, const char* what, bool seq = true) {
   for (int k = 0; k < 2; k++) { auto got = drain(op, regs); SAMEBAG(bag(got), bag(want), what); if (seq) { CHECK(got.size() == want.size(), "%s: %zu tuples instead of %zu", what, got.size(), want.size()); for (size_t i = 0; i < got.size(); i++) CHECK(got[i].v == want[i].v && got[i].count == want[i].count, "%s: tuple %zu differs", what, i); } } }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   const uint64_t U = ~0ull;
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      switch (c % 7) {
      case 0: { unsigned w = r.upto(4), rows = r.upto(6); Vals v; std::vector<Tup> want; std::vector<Register> rg(w, mkreg());
         for (unsigned i = 0; i < rows; i++) { Tup t; t.count = 1; for (unsigned k = 0; k < w; k++) { t.v.push_back(r.upto(5)); v.push_back(t.v.back()); } if (w) want.push_back(t); }
         std::ostringstream d; d << "VALUES of " << w << " columns " << show(v); begin_case(d.str());
         ValuesScan s(ptrs(rg), v, 1); same(s, ptrs(rg), want, "ValuesScan"); CHECK(s.next() == 0, "ValuesScan: a row after the end"); break; }
      case 1: { auto a = gen(r, 8, 2, 12); Vals v; unsigned m = r.upto(4); uint64_t base = r.coin(3) ? ~0ull - 11 : r.coin(3) ? 4096 + 4085 : 0; for (auto& t : a) t.v[0] += base; for (unsigned i = 0; i < m; i++) v.push_back(base + r.upto(12)); bool ex = r.coin(), dom = r.coin(4);
         std::ostringstream d; d << "filter " << (ex ? "not in " : "in ") << show(v) << (dom ? " with domain " : " ") << show(a); begin_case(d.str());
         std::vector<Register> rg(2, mkreg()); PotentialDomainDescription pd; if (dom) rg[0].domain = &pd;
         std::vector<Tup> want; for (auto& t : a) if ((std::find(v.begin(), v.end(), t.v[0]) != v.end()) != ex) want.push_back(t);
         Filter f(new VecOp(a, ptrs(rg)), &rg[0], v, ex, 1); same(f, ptrs(rg), want, "Filter");
         if (dom) for (auto& t : want) CHECK(pd.couldQualify(t.v[0]), "Filter: the domain of the register excludes the listed value %llu", (unsigned long long)t.v[0]);
         break; }
      case 2: { unsigned np = r.upto(4); std::ostringstream d; d << "union"; std::vector<Register> out(3, mkreg()); std::vector<std::vector<Register>> in(np, std::vector<Register>(2, mkreg()));
         std::vector<Operator*> parts; std::vector<std::vector<Register*>> maps, inits; std::vector<Tup> want;
         for (unsigned p = 0; p < np; p++) { auto a = gen(r, 4, 2, 5); unsigned nm = r.upto(3); std::vector<Register*> m, in2; d << " part " << show(a) << " mapped " << nm;
            unsigned perm[3] = {0, 1, 2}; for (int i = 2; i > 0; i--) std::swap(perm[i], perm[r.upto(i + 1)]);
            for (unsigned k = 0; k < nm; k++) { m.push_back(&in[p][k]); m.push_back(&out[perm[k]]); } for (unsigned k = nm; k < 3; k++) in2.push_back(&out[perm[k]]);
            for (auto& t : a) { Tup x; x.count = t.count; x.v.assign(3, U); for (unsigned k = 0; k < nm; k++) x.v[perm[k]] = t.v[k]; want.push_back(x); }
            parts.push_back(new VecOp(a, ptrs(in[p]))); maps.push_back(m); inits.push_back(in2); }
         begin_case(d.str()); Union u(parts, maps, inits, 1); same(u, ptrs(out), want, "Union"); break; }
      case 3: { unsigned w = r.upto(3), vals = 1 + r.upto(3); auto a = gen(r, 8, 2, vals), b = gen(r, 6, 2, vals); std::vector<Register> ra(2, mkreg()), rb(2, mkreg()); std::vector<std::pair<Register*, Register*>> chk; for (unsigned k = 0; k < w; k++) chk.push_back({&ra[k], &rb[k]});
         std::ostringstream d; d << "minus on " << w << " variables: " << show(a) << " minus " << show(b); begin_case(d.str());
         std::vector<Tup> want; for (auto& t : a) { bool hit = false; for (auto& y : b) { bool eq = w > 0; for (unsigned k = 0; k < w; k++) eq &= t.v[k] == y.v[k]; hit |= eq; } if (!hit) want.push_back(t); }
         Minus m(new VecOp(a, ptrs(ra)), new VecOp(b, ptrs(rb)), chk, 1); same(m, ptrs(ra), want, "Minus"); break; }
      case 4: { unsigned wl = r.upto(3), wr = r.upto(3); auto a = gen(r, 5, wl, 5), b = gen(r, 5, wr, 5); bool lo = r.coin(4), ro = r.coin(4); std::vector<Register> ra(wl, mkreg()), rb(wr, mkreg());
         std::ostringstream d; d << "cross product " << show(a) << " x " << show(b) << " optional " << lo << ro; begin_case(d.str());
         const uint64_t UB = ~0ull; std::vector<Tup> A = a, B = b, want; if (A.empty() && lo) A.push_back(Tup{1, Vals(wl, UB)}); if (B.empty() && ro) B.push_back(Tup{1, Vals(wr, UB)});
         for (auto& x : A) for (auto& y : B) { Tup t{x.count * y.count, x.v}; t.v.insert(t.v.end(), y.v.begin(), y.v.end()); want.push_back(t); }
         CartProd cp(new VecOp(a, ptrs(ra)), ptrs(ra), new VecOp(b, ptrs(rb)), ptrs(rb), 1, lo, ro, 0); auto all = ptrs(ra); for (auto p : ptrs(rb)) all.push_back(p); same(cp, all, want, "CartProd"); break; }
      case 5: { auto a = gen(r, 6, 2, 5); std::vector<Register> ri(2, mkreg()), ro(3, mkreg()); std::vector<Assignment::AssignmentArgument> args; for (int k = 0; k < 3; k++) { Assignment::AssignmentArgument x; x.reg = r.coin(3) ? 0 : &ri[r.upto(2)]; x.defaultValue = r.upto(100); args.push_back(x); }
         std::ostringstream d; d << "bind " << show(a); for (auto& x : args) d << " " << (x.reg ? (long)(x.reg - &ri[0]) : -1) << "/" << x.defaultValue; begin_case(d.str());
         std::vector<Tup> want; for (auto& t : a) { Tup x = t; for (auto& g : args) x.v.push_back(g.reg ? t.v[g.reg - &ri[0]] : g.defaultValue); want.push_back(x); }
         Assignment as(new VecOp(a, ptrs(ri)), args, ptrs(ro), 1); auto all = ptrs(ri); for (auto p : ptrs(ro)) all.push_back(p); same(as, all, want, "Assignment"); break; }
      case 6: { begin_case("empty and singleton"); EmptyScan e; same(e, {}, {}, "EmptyScan"); CHECK(e.next() == 0, "EmptyScan: a row"); SingletonScan s; same(s, {}, {Tup{1, {}}}, "SingletonScan"); break; }
      }
   }
   return done(); }
