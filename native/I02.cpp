#include <trident/iterators/rmitr.h>
#include <trident/iterators/arrayitr.h>
#include "tables.h"
// a conforming input over several keys
struct Row3 { int64_t k, a, b; bool operator<(const Row3& o) const { return k != o.k ? k < o.k : a != o.a ? a < o.a : b < o.b; } bool operator==(const Row3& o) const { return k == o.k && a == o.a && b == o.b; } };
typedef std::vector<Row3> Rows3;
static std::ostream& operator<<(std::ostream& o, const Row3& p) { return o << p.k << "/" << p.a << "," << p.b; }
struct SeqItr : PairItr {
   const Rows3& r; size_t pos, cur; bool ign, started, counts; uint64_t est;
   SeqItr(const Rows3& r, bool counts) : r(r), pos(0), cur(0), ign(false), started(false), counts(counts) { key = -1; est = r.size(); }
   size_t end(size_t i) { size_t e = i; while (e < r.size() && r[e].k == r[i].k && r[e].a == r[i].a) e++; return e; }
   int getTypeItr() { return 0; }
   int64_t getValue1() { return started ? r[cur].a : -1; }
   int64_t getValue2() { return started ? (ign ? -7 : r[cur].b) : -1; }
   bool hasNext() { return pos < r.size(); }
   void next() { if (pos >= r.size()) fail("next() past the end of an input"); cur = pos; started = true; key = r[cur].k; pos = ign ? end(pos) : pos + 1; }
   void ignoreSecondColumn() { ign = true; if (started) { while (cur && r[cur - 1].k == r[cur].k && r[cur - 1].a == r[cur].a) cur--; pos = end(cur); } }
   int64_t getCount() { return ign && started ? (int64_t)(end(cur) - cur) : 1; }
   uint64_t groups() { uint64_t n = 0; for (size_t i = 0; i < r.size(); i = end(i)) n++; return n; }
   uint64_t getCardinality() { return ign ? groups() : r.size(); }
   uint64_t estCardinality() { return est; }
   void clear() {} void mark() {} void reset(const char) {}
   void moveto(const int64_t c1, const int64_t c2) { if (!started) fail("moveto() on an input before its first element"); pos = cur; while (pos < r.size() && (r[pos].a < c1 || (r[pos].a == c1 && !ign && r[pos].b < c2))) pos++; }
};
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      bool one = r.coin(); std::set<Row3> s; int64_t big = r.coin(4) ? (1ll << 62) : 0;
      size_t cnt = r.coin(20) ? 0 : r.upto(r.coin(4) ? 60 : 9); int64_t ka = 1 + r.upto(4), kb = 1 + r.upto(6);
      for (size_t i = 0; i < cnt; i++) { Row3 x = {one ? 5 : (int64_t)r.upto(3), (int64_t)r.upto(ka), (int64_t)r.upto(kb)}; if (r.coin(3)) x.a += big; if (r.coin(3)) x.b += big; s.insert(x); }
      Rows3 rows(s.begin(), s.end()), rm, left; unsigned p = 1 + r.upto(4); bool none = r.coin(10), all = r.coin(10);
      for (auto& x : rows) if (!none && (all || r.coin(p))) rm.push_back(x); else left.push_back(x);
      bool ign = r.coin(), arr = one && r.coin() ; unsigned script = r.next() & 0xffff;
      begin_case("RmItr over " + show(rows) + " minus " + show(rm) + (ign ? " groups" : "") + (arr ? " (removals from an ArrayItr)" : "") + " script " + std::to_string(script));
      std::string base = g_case;
      SeqItr m(rows, true), d(rm, true); ArrayItr ad; std::shared_ptr<Pairs> ps(new Pairs());
      for (auto& x : rm) ps->push_back(std::make_pair(x.a, x.b));
      if (arr) { ad.init(ps, -1, -1); ad.setKey(5); }
      bool useArr = arr && !rm.empty();   // ArrayItr::getCount needs a current element
      PairItr* di = useArr ? (PairItr*)&ad : (PairItr*)&d;
      RmItr t;
      size_t gm = m.groups(), gl; { SeqItr l(left, true); gl = l.groups(); }
      t.init(&m, di, gm - gl);
      if (ign) t.ignoreSecondColumn();
      CHECK(t.getCardinality() == (ign ? gl : left.size()), "getCardinality is %llu instead of %zu", (unsigned long long)t.getCardinality(), ign ? gl : left.size());
      if (!useArr) { m.est = r.upto(20); d.est = r.upto(20); uint64_t e = t.estCardinality(); CHECK(e <= m.est, "estCardinality is %llu, the main input estimates %llu", (unsigned long long)e, (unsigned long long)m.est); }
      size_t pos = 0; unsigned steps = 0; bool moved = false;
      auto gend = [&](size_t i) { size_t e = i; while (e < left.size() && left[e].k == left[i].k && left[e].a == left[i].a) e++; return e; };
      while (true) {
         for (unsigned q = 1 + r.upto(2); q; q--) CHECK(t.hasNext() == (pos < left.size()), "hasNext is %d at element %zu of %zu", (int)t.hasNext(), pos, left.size());
         if (pos >= left.size()) break;
         t.next(); Row3 w = left[pos]; size_t e = gend(pos);
         CHECK(t.getKey() == w.k && t.getValue1() == w.a && (ign || t.getValue2() == w.b), "element %lld/%lld,%lld instead of number %zu", (long long)t.getKey(), (long long)t.getValue1(), (long long)t.getValue2(), pos);
         if (ign) CHECK(t.getCount() == (int64_t)(e - pos), "getCount is %lld instead of %zu", (long long)t.getCount(), e - pos);
         pos = ign ? e : pos + 1;
         if (one && r.coin(3)) {
            bool ask = r.coin();
            if (ask) { bool h = t.hasNext(); CHECK(h == (pos < left.size()), "hasNext is %d at element %zu", (int)h, pos); }
            Row3 g = w; if (r.coin() || ign) g.a += 1 + (r.coin(5) ? big / 2 : r.upto(2)); else g.b += 1 + r.upto(3);
            if (g.a > w.a) g.b = ign ? 0 : r.upto(kb + 1);
            begin_case(base + " moveto(" + std::to_string(g.a) + "," + std::to_string(g.b) + ") at " + std::to_string(w.a) + "," + std::to_string(w.b) + (ask ? " after hasNext" : ""));
            t.moveto(g.a, g.b);
            while (pos < left.size() && (left[pos].a < g.a || (left[pos].a == g.a && !ign && left[pos].b < g.b))) pos++;
         }
         CHECK(steps++ < 1000, "the iteration does not end");
      }
   }
   return done(); }
