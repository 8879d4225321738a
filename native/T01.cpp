#include <cstring>
#include <trident/binarytables/binarytablereaders.h>
#include <trident/binarytables/newrowtable.h>
#include "tables.h"
template <class T> static void walk(Rng& r, T& t, Model m, const char* what, int64_t key) {
   bool marked = false; size_t mk = 0; unsigned steps = 0;
   if (!m.ign && r.coin(4)) CHECK(t.getCardinality() == m.rows.size(), "%s: getCardinality %llu instead of %zu", what, (unsigned long long)t.getCardinality(), m.rows.size());
   while (true) {
      CHECK(t.hasNext() == m.hasNext(), "%s: hasNext is %d at row %zu of %zu", what, (int)t.hasNext(), m.pos, m.rows.size());
      if (m.ign && r.coin(3)) { std::set<int64_t> d; for (size_t i = m.pos; i < m.rows.size(); i++) d.insert(m.rows[i].first); size_t w = d.size() + (m.started ? 1 : 0); uint64_t g = t.getCardinality(); CHECK(g == w, "%s: getCardinality with the second column ignored is %llu instead of %zu", what, (unsigned long long)g, w); CHECK(t.hasNext() == m.hasNext(), "%s: getCardinality consumed the iterator", what); }
      if (m.started && r.coin(4) && steps < 60) {
         int64_t c1, c2; c1 = m.rows.empty() ? 1 : probe(r, m.rows, true); c2 = m.ign ? (int64_t)r.upto(2) - 1 : (m.rows.empty() ? 0 : probe(r, m.rows, false)); if (c1 < 0) c1 = 0; if (r.coin(5)) c2 = 0;
         begin_case(g_case.substr(0, g_case.find(" then")) + " then moveto " + std::to_string(c1) + "," + std::to_string(c2) + " with next row " + std::to_string(m.pos));
         t.moveto(c1, c2); m.moveto(c1, c2); steps++;
         CHECK(t.hasNext() == m.hasNext(), "%s: after moveto(%lld,%lld) hasNext is %d", what, (long long)c1, (long long)c2, (int)t.hasNext());
         if (!m.hasNext()) break;
      }
      if (r.coin(10)) { t.mark(); marked = true; mk = m.pos; }
      if (marked && !m.ign && r.coin(10)) { t.reset(1); m.pos = mk; marked = false; }
      if (!m.hasNext()) break;
      int64_t a, b, c; m.next(a, b, c);
      if (r.coin()) { int64_t x = -7, y = -7, z = -7; bool more = t.next(x, y, z); CHECK(x == key && y == a && (m.ign || z == b), "%s: next returned (%lld,%lld,%lld), expected (%lld,%lld,%lld)", what, (long long)x, (long long)y, (long long)z, (long long)key, (long long)a, (long long)b); CHECK(more == m.hasNext(), "%s: next(v1,v2,v3) says more=%d", what, (int)more); }
      else t.next();
      CHECK(t.getValue1() == a, "%s: first column %lld instead of %lld at row %zu", what, (long long)t.getValue1(), (long long)a, m.pos);
      if (!m.ign) CHECK(t.getValue2() == b, "%s: second column %lld instead of %lld at row %zu", what, (long long)t.getValue2(), (long long)b, m.pos);
      CHECK(t.getCount() == c, "%s: getCount %lld instead of %lld for %lld", what, (long long)t.getCount(), (long long)c, (long long)a);
      CHECK(steps++ < 100000, "%s: the iteration does not end", what);
   } }
template <class A, class B> static void test(Rng& r, int b1, int b2) {
   Rows rows = genrows(r, maxval(b1), maxval(b2), 700);
   std::vector<uint8_t> v; for (auto& p : rows) { put(v, p.first, b1); put(v, p.second, b2); }
   std::unique_ptr<char[]> buf(new char[v.size()]); memcpy(buf.get(), v.data(), v.size());
   const char *s = buf.get(), *e = s + v.size();
   std::ostringstream d; d << "NewRowTable<" << b1 << "," << b2 << "> rows " << show(rows.size() > 200 ? Rows(rows.begin(), rows.begin() + 200) : rows); d << " (" << rows.size() << ")"; std::string base = d.str(); begin_case(base);
   NewRowTable<A, B> t; int64_t key = r.upto(1000); t.setKey(key);
   CHECK(t.getReaderSize1() == b1 && t.getReaderSize2() == b2 && t.getReaderCountSize() == 0, "reader sizes");
   { t.setup(s, e); Model m(rows); if (r.coin(3)) { t.ignoreSecondColumn(); m.ign = true; } walk(r, t, m, "setup(all)", key); }
   for (int k = 0; k < 3; k++) {
      int64_t c1 = probe(r, rows, true); if (r.coin(6)) c1 = rndval(r, maxval(b1), 3); if (c1 < 0) c1 = 0;
      begin_case(base + " setup c1=" + std::to_string(c1));
      t.setup(c1, s, e); Rows sub; for (auto& p : rows) if (p.first == c1) sub.push_back(p); Model m(sub); if (r.coin(3)) { t.ignoreSecondColumn(); m.ign = true; } walk(r, t, m, "setup(c1)", key);
      int64_t c2 = r.coin() ? rows[r.upto(rows.size())].second : probe(r, rows, false); if (r.coin()) { const PR& p = rows[r.upto(rows.size())]; c1 = p.first; c2 = p.second + (r.coin(3) ? 1 : 0); }
      if (c2 < 0) c2 = 0;
      begin_case(base + " setup c1=" + std::to_string(c1) + " c2=" + std::to_string(c2));
      t.setup(c1, c2, s, e); sub.clear(); for (auto& p : rows) if (p == PR(c1, c2)) sub.push_back(p); walk(r, t, Model(sub), "setup(c1,c2)", key);
   }
   begin_case(base + " ignoreSecondColumn after the first tuple");
   { t.setup(s, e); t.next(); t.ignoreSecondColumn(); Model m(rows); m.ign = true; int64_t a, b, c; m.next(a, b, c); CHECK(t.getValue1() == a && t.getCount() == c, "ignoreSecondColumn after the first tuple: count %lld instead of %lld", (long long)t.getCount(), (long long)c); walk(r, t, m, "ignoreSecondColumn after the first tuple", key); }
   for (int k = 0; k < 3; k++) { size_t i = r.upto(rows.size()); CHECK((NewRowTable<A, B>::s_getValue1AtRow(s, i) == rows[i].first), "s_getValue1AtRow(%zu)", i); uint64_t x, y; NewRowTable<A, B>::s_getValue12AtRow(v.size(), 0, s, i, x, y); CHECK((int64_t)x == rows[i].first && (int64_t)y == rows[i].second, "s_getValue12AtRow(%zu)", i); }
}
template <class R> static void reader(Rng& r, int n) { unsigned char b[8]; uint64_t w = 0; for (int i = 0; i < n; i++) { b[i] = r.coin(3) ? (r.coin() ? 0xFF : 0x80) : r.next(); w = w << 8 | b[i]; } std::ostringstream d; d << n << "-byte value " << std::hex << w; begin_case(d.str()); std::unique_ptr<char[]> x(new char[n]); memcpy(x.get(), b, n); CHECK(R::size() == n, "size"); CHECK(R::read(x.get()) == w, "the %d-byte reader returned %llx", n, (unsigned long long)R::read(x.get())); }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      reader<ByteReader>(r, 1); reader<ShortReader>(r, 2); reader<IntReader>(r, 4); reader<LongIntReader>(r, 5); reader<LongReader>(r, 8);
      switch (c % 16) {
#define T(k, A, B, a, b) case k: test<A, B>(r, a, b); break;
      T(0, ByteReader, ByteReader, 1, 1) T(1, ByteReader, ShortReader, 1, 2) T(2, ByteReader, IntReader, 1, 4) T(3, ByteReader, LongIntReader, 1, 5)
      T(4, ShortReader, ByteReader, 2, 1) T(5, ShortReader, ShortReader, 2, 2) T(6, ShortReader, IntReader, 2, 4) T(7, ShortReader, LongIntReader, 2, 5)
      T(8, IntReader, ByteReader, 4, 1) T(9, IntReader, ShortReader, 4, 2) T(10, IntReader, IntReader, 4, 4) T(11, IntReader, LongIntReader, 4, 5)
      T(12, LongIntReader, ByteReader, 5, 1) T(13, LongIntReader, ShortReader, 5, 2) T(14, LongIntReader, IntReader, 5, 4) T(15, LongIntReader, LongIntReader, 5, 5)
      }
   }
   return done(); }
