#include <cstring>
#include <trident/binarytables/binarytablereaders.h>
#include <trident/binarytables/newclustertable.h>
#include "tables.h"
template <class T> static void walk(Rng& r, T& t, Model m, const char* what, int64_t key, bool one) {
   bool marked = false; Model mk = m; unsigned steps = 0;
   while (true) {
      CHECK(t.hasNext() == m.hasNext(), "%s: hasNext is %d at row %zu of %zu", what, (int)t.hasNext(), m.pos, m.rows.size());
      if (r.coin(4)) { std::set<int64_t> d; for (auto& p : m.rows) d.insert(p.first); size_t w = m.ign ? d.size() : m.rows.size(); uint64_t g = t.getCardinality(); CHECK(g == w, "%s: getCardinality is %llu instead of %zu", what, (unsigned long long)g, w); CHECK(t.hasNext() == m.hasNext(), "%s: getCardinality disturbed the iteration", what); }
      if (m.started && r.coin(4) && steps < 60) {
         int64_t c1 = m.rows.empty() ? 1 : probe(r, m.rows, true), c2 = m.ign ? (int64_t)r.upto(2) - 1 : (m.rows.empty() ? 0 : probe(r, m.rows, false)); if (c1 < 0) c1 = 0; if (r.coin(5)) c2 = 0;
         begin_case(g_case.substr(0, g_case.find(" then")) + " then moveto " + std::to_string(c1) + "," + std::to_string(c2) + " with next row " + std::to_string(m.pos));
         t.moveto(c1, c2); m.moveto(c1, c2); steps++;
         CHECK(t.hasNext() == m.hasNext(), "%s: after moveto(%lld,%lld) hasNext is %d", what, (long long)c1, (long long)c2, (int)t.hasNext());
         if (!m.hasNext()) break;
         if (r.coin(5)) { t.mark(); marked = true; mk = m; }
      } else if (r.coin(10)) { t.mark(); marked = true; mk = m; }
      if (marked && r.coin(10)) { t.reset(1); m = mk; m.started = false; marked = false; }
      if (!m.hasNext()) break;
      int64_t a, b, c; m.next(a, b, c);
      if (r.coin()) { int64_t x = -7, y = -7, z = -7; bool more = t.next(x, y, z); CHECK(x == key && y == a && (m.ign || z == b), "%s: next returned (%lld,%lld,%lld), expected (%lld,%lld,%lld)", what, (long long)x, (long long)y, (long long)z, (long long)key, (long long)a, (long long)b); CHECK(more == m.hasNext(), "%s: next(v1,v2,v3) says more=%d", what, (int)more); }
      else t.next();
      CHECK(t.getValue1() == a, "%s: first value %lld instead of %lld at row %zu", what, (long long)t.getValue1(), (long long)a, m.pos);
      if (!m.ign) CHECK(t.getValue2() == b, "%s: second value %lld instead of %lld at row %zu", what, (long long)t.getValue2(), (long long)b, m.pos);
      CHECK(t.getCount() == c, "%s: getCount %lld instead of %lld for %lld", what, (long long)t.getCount(), (long long)c, (long long)a);
      CHECK(steps++ < 100000, "%s: the iteration does not end", what);
   } }
template <class A, class B, class C> static void test(Rng& r, int b1, int b2, int bc) {
   Rows rows = genrows(r, maxval(b1), maxval(b2), 400);
   std::vector<uint8_t> v; Rows keep;
   for (size_t i = 0; i < rows.size();) { size_t e = i; while (e < rows.size() && rows[e].first == rows[i].first) e++; size_t n = std::min<size_t>(e - i, maxval(bc)); put(v, rows[i].first, b1); put(v, n, bc); for (size_t k = 0; k < n; k++) { put(v, rows[i + k].second, b2); keep.push_back(rows[i + k]); } i = e; }
   rows = keep;
   std::unique_ptr<char[]> buf(new char[v.size()]); memcpy(buf.get(), v.data(), v.size());
   const char *s = buf.get(), *e = s + v.size();
   std::ostringstream d; d << "NewClusterTable<" << b1 << "," << b2 << "," << bc << "> rows " << show(rows.size() > 200 ? Rows(rows.begin(), rows.begin() + 200) : rows); d << " (" << rows.size() << ")"; std::string base = d.str(); begin_case(base);
   NewClusterTable<A, B, C> t; int64_t key = r.upto(1000); t.setKey(key);
   CHECK(t.getReaderSize1() == b1 && t.getReaderSize2() == b2 && t.getReaderCountSize() == bc, "reader sizes");
   { t.setup(s, e); Model m(rows); if (r.coin(3)) { t.ignoreSecondColumn(); m.ign = true; } walk(r, t, m, "setup(all)", key, false); }
   for (int k = 0; k < 3; k++) {
      int64_t c1 = probe(r, rows, true); if (r.coin(6)) c1 = rndval(r, maxval(b1), 3); if (c1 < 0) c1 = 0;
      begin_case(base + " setup c1=" + std::to_string(c1));
      t.setup(c1, s, e); Rows sub; for (auto& p : rows) if (p.first == c1) sub.push_back(p); Model m(sub); if (r.coin(3)) { t.ignoreSecondColumn(); m.ign = true; } walk(r, t, m, "setup(c1)", key, false);
      int64_t c2 = r.coin() ? rows[r.upto(rows.size())].second : probe(r, rows, false); if (r.coin()) { const PR& p = rows[r.upto(rows.size())]; c1 = p.first; c2 = p.second + (r.coin(3) ? 1 : 0); }
      if (c2 < 0) c2 = 0;
      begin_case(base + " setup c1=" + std::to_string(c1) + " c2=" + std::to_string(c2));
      t.setup(c1, c2, s, e); sub.clear(); for (auto& p : rows) if (p == PR(c1, c2)) sub.push_back(p); walk(r, t, Model(sub), "setup(c1,c2)", key, true);
   }
   begin_case(base + " ignoreSecondColumn while iterating");
   { t.setup(s, e); size_t n = r.upto(rows.size()) + 1; for (size_t i = 0; i < n; i++) t.next(); t.ignoreSecondColumn(); Model m(rows); m.pos = n; m.pos = m.groupEnd(n - 1); m.started = true; m.ign = true; walk(r, t, m, "ignoreSecondColumn while iterating", key, false); }
}
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      switch (c % 32) {
#define T(k, A, B, a, b) case k: test<A, B, ByteReader>(r, a, b, 1); break; case k + 16: test<A, B, IntReader>(r, a, b, 4); break;
      T(0, ByteReader, ByteReader, 1, 1) T(1, ByteReader, ShortReader, 1, 2) T(2, ByteReader, IntReader, 1, 4) T(3, ByteReader, LongIntReader, 1, 5)
      T(4, ShortReader, ByteReader, 2, 1) T(5, ShortReader, ShortReader, 2, 2) T(6, ShortReader, IntReader, 2, 4) T(7, ShortReader, LongIntReader, 2, 5)
      T(8, IntReader, ByteReader, 4, 1) T(9, IntReader, ShortReader, 4, 2) T(10, IntReader, IntReader, 4, 4) T(11, IntReader, LongIntReader, 4, 5)
      T(12, LongIntReader, ByteReader, 5, 1) T(13, LongIntReader, ShortReader, 5, 2) T(14, LongIntReader, IntReader, 5, 4) T(15, LongIntReader, LongIntReader, 5, 5)
      }
   }
   return done(); }
