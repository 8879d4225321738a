// Reference model of a sorted pair table, shared by the table oracles.
#pragma once
#include "oracle.h"
#include <memory>
typedef std::pair<int64_t, int64_t> PR;
typedef std::vector<PR> Rows;
static uint64_t maxval(int bytes) { return bytes >= 8 ? (1ull << 62) : (1ull << (8 * bytes)) - 1; }
static void put(std::vector<uint8_t>& b, uint64_t v, int n) { for (int i = n - 1; i >= 0; i--) b.push_back((uint8_t)(v >> (8 * i))); }
static int64_t rndval(Rng& r, uint64_t mx, int style) {
   switch (style) { case 0: return r.upto(std::min<uint64_t>(mx, 3) + 1); case 1: return r.upto(std::min<uint64_t>(mx, 200) + 1); case 2: return mx - r.upto(std::min<uint64_t>(mx, 5) + 1); default: return r.next() & mx & ~(1ull << 63); }
}
static Rows genrows(Rng& r, uint64_t m1, uint64_t m2, size_t maxn) {
   std::set<PR> s; size_t n = r.coin(3) ? 1 + r.upto(maxn) : 1 + r.upto(12); int s1 = r.upto(4), s2 = r.upto(4);
   for (size_t i = 0; i < n; i++) s.insert(PR(rndval(r, m1, r.coin(8) ? (int)r.upto(4) : s1), rndval(r, m2, r.coin(8) ? (int)r.upto(4) : s2)));
   if (r.coin(6)) { int64_t g = rndval(r, m1, s1); for (uint64_t i = 0; i < 1 + r.upto(200); i++) s.insert(PR(g, std::min<uint64_t>(i, m2))); }
   return Rows(s.begin(), s.end()); }
static int64_t probe(Rng& r, const Rows& t, bool first) { const PR& p = t[r.upto(t.size())]; return (first ? p.first : p.second) + (int64_t)r.upto(3) - 1; }
// the documented iterator behaviour, on the rows it covers
struct Model {
   Rows rows; bool ign; size_t pos; bool started;      // pos: next row
   Model(const Rows& r) : rows(r), ign(false), pos(0), started(false) {}
   bool hasNext() { return pos < rows.size(); }
   size_t groupEnd(size_t i) { size_t e = i; while (e < rows.size() && rows[e].first == rows[i].first) e++; return e; }
   void next(int64_t& a, int64_t& b, int64_t& c) { started = true; a = rows[pos].first; b = rows[pos].second; c = 1; if (ign) { size_t e = groupEnd(pos); c = e - pos; pos = e; } else pos++; }
   void moveto(int64_t c1, int64_t c2) {   // after at least one next()
      size_t cur = pos - 1; if (ign) while (cur > 0 && rows[cur - 1].first == rows[cur].first) cur--;
      while (cur < rows.size() && rows[cur] < PR(c1, c2)) cur++;
      pos = cur; }
};
