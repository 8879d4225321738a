// Table-driven operators for the native oracles (public Operator interface only).
#pragma once
#include "rts/operator/Operator.hpp"
#include "rts/operator/PlanPrinter.hpp"
#include "rts/runtime/Runtime.hpp"
#include <functional>
#include "oracle.h"
typedef std::vector<uint64_t> Vals;
struct Tup { uint64_t count; Vals v; };
static std::ostream& operator<<(std::ostream& o, const Tup& t) { o << t.count << "x"; for (size_t i = 0; i < t.v.size(); i++) o << (i ? "." : "") << t.v[i]; return o; }
struct VecOp : Operator {
   std::vector<Tup> t; std::vector<Register*> regs; size_t pos; bool live; unsigned firsts; std::function<std::vector<Tup>()>* gen;
   VecOp(const std::vector<Tup>& t, const std::vector<Register*>& regs) : Operator(1), t(t), regs(regs), pos(0), live(false), firsts(0), gen(0) {}
   uint64_t step() { if (pos < t.size()) { for (size_t i = 0; i < regs.size(); i++) regs[i]->value = t[pos].v[i]; live = true; return t[pos++].count; } live = false; return 0; }
   uint64_t first() { firsts++; if (gen) t = (*gen)(); pos = 0; return step(); }
   uint64_t next() { CHECK(live, "next() called on an input that is exhausted or was never started"); return step(); }
   void print(PlanPrinter&) {} void addMergeHint(Register*, Register*) {} void getAsyncInputCandidates(Scheduler&) {}
};
static Register mkreg() { Register r; r.value = 0xDEADBEEFull; r.domain = 0; return r; }
static std::vector<Tup> drain(Operator& op, const std::vector<Register*>& regs, size_t lim = 100000) {
   std::vector<Tup> out;
   for (uint64_t c = op.first(); c; c = op.next()) { Tup t; t.count = c; for (auto r : regs) t.v.push_back(r->value); out.push_back(t); CHECK(out.size() <= lim, "the operator does not stop: more than %zu tuples", lim); }
   return out; }
static std::map<Vals, uint64_t> bag(const std::vector<Tup>& t) { std::map<Vals, uint64_t> m; for (auto& x : t) m[x.v] += x.count; return m; }
static std::string showbag(const std::map<Vals, uint64_t>& m) { std::ostringstream o; for (auto& x : m) { o << "{"; for (auto v : x.first) o << v << " "; o << "}x" << x.second << " "; } return o.str(); }
#define SAMEBAG(got, want, what) do { auto g_ = (got); auto w_ = (want); CHECK(g_ == w_, "%s: got %s expected %s", what, showbag(g_).c_str(), showbag(w_).c_str()); } while (0)
