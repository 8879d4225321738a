#include <trident/iterators/arrayitr.h>
#include "tables.h"
static void walk(Rng& r, ArrayItr& t, Model m, const char* what, size_t distinct) {
   bool marked = false; size_t mk = 0; unsigned steps = 0;
   while (true) {
      if (r.coin(4)) { size_t w = m.ign ? distinct : m.rows.size(); uint64_t g = t.getCardinality(); CHECK(g == w, "%s: getCardinality %llu instead of %zu", what, (unsigned long long)g, w); }
      if (r.coin() || !m.started) CHECK(t.hasNext() == m.hasNext(), "%s: hasNext is %d at row %zu of %zu", what, (int)t.hasNext(), m.pos, m.rows.size());
      if (m.started && r.coin(4) && steps < 60) {
         int64_t c1 = m.rows.empty() ? 1 : probe(r, m.rows, true), c2 = m.ign ? 0 : (m.rows.empty() ? 0 : probe(r, m.rows, false)); if (c1 < 0) c1 = 0; if (c2 < 0 || r.coin(5)) c2 = 0;
         begin_case(g_case.substr(0, g_case.find(" then")) + " then moveto " + std::to_string(c1) + "," + std::to_string(c2) + " with next row " + std::to_string(m.pos));
         t.moveto(c1, c2); m.moveto(c1, c2); steps++;
         CHECK(t.hasNext() == m.hasNext(), "%s: after moveto(%lld,%lld) hasNext is %d", what, (long long)c1, (long long)c2, (int)t.hasNext());
      }
      CHECK(t.hasNext() == m.hasNext(), "%s: hasNext is %d at row %zu of %zu", what, (int)t.hasNext(), m.pos, m.rows.size());
      if (!m.ign && r.coin(10)) { t.mark(); marked = true; mk = m.pos; }
      if (marked && r.coin(10)) { t.reset(r.upto(2)); m.pos = mk; marked = false; CHECK(t.hasNext() == m.hasNext(), "%s: hasNext is %d after reset", what, (int)t.hasNext()); }
      if (!m.hasNext()) break;
      int64_t a, b, c; m.next(a, b, c); t.next();
      CHECK(t.getValue1() == a, "%s: first column %lld instead of %lld at row %zu", what, (long long)t.getValue1(), (long long)a, m.pos);
      if (!m.ign) CHECK(t.getValue2() == b, "%s: second column %lld instead of %lld at row %zu", what, (long long)t.getValue2(), (long long)b, m.pos);
      if (m.ign) for (unsigned k = r.upto(3); k; k--) CHECK(t.getCount() == c, "%s: getCount %lld instead of %lld for %lld", what, (long long)t.getCount(), (long long)c, (long long)a);
      CHECK(steps++ < 100000, "%s: the iteration does not end", what);
   } }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      Rows rows = r.coin(30) ? Rows() : genrows(r, maxval(5), maxval(5), 100);
      std::shared_ptr<Pairs> p(new Pairs(rows.begin(), rows.end()));
      std::string base = "ArrayItr over " + show(rows); begin_case(base);
      ArrayItr t;
      for (int k = 0; k < 4; k++) {
         int mode = r.upto(3); int64_t c1 = -1, c2 = -1;
         if (mode) { if (rows.empty()) { c1 = r.upto(3); c2 = mode == 2 ? (int64_t)r.upto(3) : -1; } else { const PR& q = rows[r.upto(rows.size())]; c1 = r.coin() ? q.first : probe(r, rows, true); if (c1 < 0) c1 = 0; if (mode == 2) { c2 = r.coin() ? q.second : probe(r, rows, false); if (c2 < 0) c2 = 0; } } }
         Rows sub; std::set<int64_t> d; for (auto& q : rows) if ((c1 < 0 || q.first == c1) && (c2 < 0 || q.second == c2)) { sub.push_back(q); d.insert(q.first); }
         begin_case(base + " init(" + std::to_string(c1) + "," + std::to_string(c2) + ")");
         t.init(p, c1, c2); Model m(sub);
         if (mode < 2 && r.coin()) { if (r.coin()) CHECK(t.hasNext() == m.hasNext(), "hasNext after init"); t.ignoreSecondColumn(); m.ign = true; }
         walk(r, t, m, m.ign ? "second column ignored" : "both columns", d.size());
      }
   }
   return done(); }
