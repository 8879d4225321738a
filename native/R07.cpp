// Scan operators over a table of stored triples; the storage stand-in follows DBLayer::Scan (seek to a prefix, aggregate,
// use the operator's hint to skip ahead) and the expected rows are computed by filtering the whole table.
#include "rts/operator/IndexScan.hpp"
#include "rts/operator/AggregatedIndexScan.hpp"
#include "rts/operator/FullyAggregatedIndexScan.hpp"
#include "rts/runtime/DomainDescription.hpp"
#include "dblayer.hpp"
#include "ops.h"
typedef std::vector<uint64_t> Row;
static const char* ORD[12] = {"SPO", "SOP", "OPS", "OSP", "PSO", "POS", "SPO", "SOP", "OPS", "OSP", "POS", "PSO"};
static int col(char c) { return c == 'S' ? 0 : c == 'P' ? 1 : 2; }
struct VecScan : DBLayer::Scan {
   std::vector<Row> all; std::vector<uint64_t> cnt; unsigned k; bool exact, skip; DBLayer::Hint* hint; std::vector<size_t> seq; size_t pos; bool live; unsigned calls;
   VecScan(std::vector<Row> t, unsigned order, unsigned aggr, bool exact, bool skip, DBLayer::Hint* h) : k(3 - aggr), exact(exact), skip(skip), hint(h), pos(0), live(false), calls(0) {
      std::map<Row, uint64_t> m; for (auto& r : t) { Row x; for (unsigned j = 0; j < k; j++) x.push_back(r[col(ORD[order][j])]); m[x]++; }
      for (auto& e : m) { all.push_back(e.first); cnt.push_back(k == 3 ? 1 : e.second); } }
   bool start(std::vector<uint64_t> c) { seq.clear();
      for (size_t i = 0; i < all.size(); i++) { Row p(all[i].begin(), all[i].begin() + c.size()); if (exact ? p == c : p >= c) seq.push_back(i); }
      pos = 0; return live = !seq.empty(); }
   bool next() { CHECK(live, "storage: next() on a scan that does not stand on a tuple"); pos++;
      if (skip && hint && pos < seq.size() && calls++ % 2) { Row v = all[seq[pos]], w = v; if (k == 3) hint->next(w[0], w[1], w[2]); else if (k == 2) hint->next(w[0], w[1]); else hint->next(w[0]);
         CHECK(w >= v, "the hint goes backwards"); while (pos < seq.size() && all[seq[pos]] < w) pos++; }
      return live = pos < seq.size(); }
   uint64_t val(unsigned j) { CHECK(live && j < k, "storage: value read from a scan that does not stand on a tuple"); return all[seq[pos]][j]; }
   uint64_t getValue1() { return val(0); } uint64_t getValue2() { return val(1); } uint64_t getValue3() { return val(2); }
   uint64_t getCount() { val(0); return cnt[seq[pos]]; }
   static void lead(std::vector<uint64_t>& c, uint64_t v, bool b, bool& on) { if (b && on) c.push_back(v); else { CHECK(!b, "storage: constants do not form a prefix"); on = false; } }
   bool first() { return start({}); }
   bool first(uint64_t a, bool x) { std::vector<uint64_t> c; bool on = true; lead(c, a, x, on); CHECK(k >= 1, "x"); return start(c); }
   bool first(uint64_t a, bool x, uint64_t b, bool y) { std::vector<uint64_t> c; bool on = true; lead(c, a, x, on); lead(c, b, y, on); return start(c); }
   bool first(uint64_t a, bool x, uint64_t b, bool y, uint64_t d, bool z) { std::vector<uint64_t> c; bool on = true; lead(c, a, x, on); lead(c, b, y, on); lead(c, d, z, on); return start(c); }
};
struct DB : DBLayer {
   std::vector<Row> t; bool exact, skip; unsigned order, aggr;
   bool lookup(const std::string&, ::Type::ID, unsigned, uint64_t&) { return false; }
   bool lookupById(uint64_t, const char*&, const char*&, ::Type::ID&, unsigned&) { return false; }
   bool lookupById(uint64_t, char*, size_t&, ::Type::ID&, unsigned&) { return false; }
   uint64_t getNextId() { return 0; }
   double getScanCost(DBLayer::DataOrder, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t) { return 0; }
   double getScanCost(DBLayer::DataOrder, uint64_t, uint64_t, uint64_t, uint64_t) { return 0; }
   double getJoinSelectivity(bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t, bool, uint64_t) { return 0; }
   double getScanCost(DBLayer::DataOrder, uint64_t, uint64_t) { return 0; }
   uint64_t getCardinality(uint64_t, uint64_t, uint64_t) { return 0; }
   uint64_t getCardinality() { return 0; }
   std::unique_ptr<DBLayer::Scan> getScan(const DataOrder o, const Aggr_t a, Hint* h) { order = o; aggr = a; return std::unique_ptr<DBLayer::Scan>(new VecScan(t, o, a, exact, skip, h)); }
};
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      unsigned k = 1 + r.upto(3), order = r.upto(12), vals = 1 + r.upto(4), nt = r.upto(14); uint64_t base = r.upto(4) ? 0 : ~0ull - 6;
      std::set<Row> ts; for (unsigned i = 0; i < nt; i++) ts.insert(Row{base + r.upto(vals), base + r.upto(vals), base + r.upto(vals)});
      DB db; db.t.assign(ts.begin(), ts.end()); db.exact = r.coin(); db.skip = r.coin();
      Register reg[3] = {mkreg(), mkreg(), mkreg()}, other = mkreg(); bool used[3] = {false, false, false}, bound[3] = {false, false, false}; std::vector<Register*> rs;
      PotentialDomainDescription dom[3]; std::set<uint64_t> in[3]; bool hasdom[3] = {false, false, false};
      std::vector<bool> b; for (unsigned j = 0; j < k; j++) { int x = col(ORD[order][j]); used[x] = true; bound[x] = r.coin(); b.push_back(bound[x]); reg[x].value = bound[x] ? base + r.upto(vals + 1) : ~0ull; rs.push_back(&reg[x]);
         if (r.upto(3) == 0) { hasdom[x] = true; ObservedDomainDescription ob; for (unsigned i = r.upto(4); i > 0; i--) { uint64_t v = base + r.upto(vals); in[x].insert(v); ob.add(v); } dom[x].restrictTo(ob); reg[x].domain = &dom[x]; } }
      std::ostringstream d; d << "scan of " << k << " columns in order " << ORD[order] << (order > 5 ? " (unsorted)" : "") << " table "; for (auto& x : ts) d << show(x); d << " bound "; for (unsigned j = 0; j < k; j++) d << (b[j] ? std::to_string(rs[j]->value) : std::string("-")) << " ";
      d << " exact " << db.exact << " skipping " << db.skip; begin_case(d.str());
      Register* s = used[0] ? &reg[0] : 0; Register* p = used[1] ? &reg[1] : 0; Register* o = used[2] ? &reg[2] : 0; std::unique_ptr<Operator> op; DBLayer::DataOrder od = (DBLayer::DataOrder)order;
      if (k == 3) op.reset(IndexScan::create(db, od, s, bound[0], p, bound[1], o, bound[2], 1));
      else if (k == 2) op.reset(AggregatedIndexScan::create(db, od, s, bound[0], p, bound[1], o, bound[2], 1));
      else op.reset(FullyAggregatedIndexScan::create(db, od, s, bound[0], p, bound[1], o, bound[2], 1));
      CHECK(db.order == order && db.aggr == 3 - k, "the storage is asked for order %u aggregation %u", db.order, db.aggr);
      uint64_t least = 0; unsigned mslot = r.upto(k); bool merge = r.upto(3) == 0; if (merge) { least = base + r.upto(vals); other.value = least; op->addMergeHint(rs[mslot], &other); }
      std::vector<uint64_t> keys; for (auto x : rs) keys.push_back(x->value);
      // rows: all (k-column projections with their number of triples) matching the bound positions
      std::map<Row, uint64_t> want, must; for (auto& t : ts) { Row x; bool ok = true, need = true; for (unsigned j = 0; j < k; j++) { int cc = col(ORD[order][j]); uint64_t v = t[cc]; x.push_back(v); if (b[j] && v != keys[j]) ok = false; if (hasdom[cc] && !in[cc].count(v)) need = false; if (merge && j == mslot && v < least) need = false; } if (ok) { want[x] = k == 3 ? 1 : want[x] + 1; if (need) must[x] = 0; } }
      for (int rep = 0; rep < 2; rep++) {
         for (unsigned j = 0; j < k; j++) if (!b[j]) rs[j]->value = ~0ull;
         std::map<Row, uint64_t> got; Row prev;
         uint64_t steps = 0;
         for (uint64_t cn = op->first(); cn; cn = op->next()) { CHECK(++steps < 1000, "does not stop"); Row x; for (auto q : rs) x.push_back(q->value); CHECK(!got.count(x), "tuple delivered twice: %s", show(x).c_str()); CHECK(got.empty() || prev < x, "tuples out of order"); got[x] = cn; prev = x; CHECK(want.count(x) && want[x] == cn, "tuple %s with count %llu is not a matching stored tuple", show(x).c_str(), (unsigned long long)cn); }
         if (!db.skip) { if (got != want) for (auto& w : want) CHECK(got.count(w.first), "matching tuple %s is not delivered", show(w.first).c_str()); }
         else for (auto& w : must) CHECK(got.count(w.first), "tuple %s, which matches and lies in all domains, is skipped", show(w.first).c_str());
      }
   }
   return done(); }
