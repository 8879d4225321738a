#include "rts/runtime/DomainDescription.hpp"
#include "oracle.h"
// Oracle over the public interface only: an explicit set of added values and an independent model of the filter.
struct Model { uint64_t mn, mx; std::vector<bool> b; Model(bool pot) : mn(pot ? 0 : UINT64_MAX), mx(pot ? UINT64_MAX : 0), b(8192, pot) {}
   bool has(uint64_t v) const { return v >= mn && v <= mx && b[v % 8192]; }
   void add(uint64_t v) { mn = std::min(mn, v); mx = std::max(mx, v); b[v % 8192] = true; }
   void meet(const Model& o) { mn = std::max(mn, o.mn); mx = std::min(mx, o.mx); for (int i = 0; i < 8192; i++) b[i] = b[i] && o.b[i]; }
   uint64_t next(uint64_t v) const { if (v < mn) v = mn; for (int i = 0; i <= 8192; i++) { if (has(v)) return v; if (v == UINT64_MAX || v >= mx) break; v++; } return UINT64_MAX; } };
static std::vector<uint64_t> gen(Rng& r) {
   std::vector<uint64_t> v; unsigned n = r.upto(12); uint64_t base = 0;
   switch (r.upto(6)) { case 0: base = r.upto(100); break; case 1: base = 8192 * r.upto(5) + r.upto(3) - 1; break; case 2: base = UINT64_MAX - r.upto(20000); break; case 3: base = r.next(); break; case 4: base = (1ull << 32) - r.upto(200); break; default: base = r.upto(20000); }
   for (unsigned i = 0; i < n; i++) { uint64_t sp = r.coin(3) ? 70 : r.coin() ? 9000 : 600; v.push_back(base + r.upto(sp)); }
   return v; }
static void probe(Rng& r, const PotentialDomainDescription& p, const Model& m, const char* what, const std::vector<uint64_t>& pts) {
   for (int k = 0; k < 24; k++) {
      uint64_t v; switch (r.upto(7)) { case 0: v = r.upto(9000); break; case 1: v = UINT64_MAX - r.upto(9000); break; case 2: v = m.mn - 1 + r.upto(3); break; case 3: v = m.mx - 1 + r.upto(3); break; default: v = pts.empty() ? r.next() : pts[r.upto(pts.size())] + r.upto(200) - 100; }
      CHECK(p.couldQualify(v) == m.has(v), "%s: couldQualify(%llu) is %d, expected %d", what, (unsigned long long)v, (int)p.couldQualify(v), (int)m.has(v));
      uint64_t got = p.nextCandidate(v), want = m.next(v);
      CHECK(got == want, "%s: nextCandidate(%llu) is %llu, expected %llu", what, (unsigned long long)v, (unsigned long long)got, (unsigned long long)want);
   } }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c);
      auto a = gen(r), b = gen(r), d = gen(r);
      if (r.coin(3)) { b = a; b.resize(r.upto(b.size() + 1)); } 
      else if (r.coin(4)) { uint64_t top = UINT64_MAX - r.upto(9000); a.assign(1, top - r.upto(12000)); b = a; a.push_back(top); b.push_back(top - r.upto(3) * r.upto(UINT64_MAX - top + 1) + r.upto(UINT64_MAX - top + 1)); }
      else if (r.coin(3) && !a.empty()) { b.push_back(a[r.upto(a.size())]); b.push_back(a[0] + r.upto(300)); }
      begin_case("values " + show(a) + " / " + show(b) + " / " + show(d));
      PotentialDomainDescription p, q; Model mp(true), mq(true);
      ObservedDomainDescription oa, ob, od; Model ma(false), mb(false), md(false);
      for (auto v : a) { oa.add(v); ma.add(v); } for (auto v : b) { ob.add(v); mb.add(v); } for (auto v : d) { od.add(v); md.add(v); }
      for (auto v : a) CHECK(oa.couldQualify(v), "an added value %llu does not qualify", (unsigned long long)v);
      for (int k = 0; k < 20; k++) { uint64_t v = a.empty() ? r.next() : a[r.upto(a.size())] + r.upto(300) - 150; CHECK(oa.couldQualify(v) == ma.has(v), "observed domain: couldQualify(%llu)", (unsigned long long)v); }
      std::vector<uint64_t> pts(a); pts.insert(pts.end(), b.begin(), b.end()); pts.insert(pts.end(), d.begin(), d.end());
      probe(r, p, mp, "fresh", pts);
      p.restrictTo(oa); mp.meet(ma); probe(r, p, mp, "restrictTo", pts);
      q.restrictTo(ob); mq.meet(mb); 
      if (r.coin()) { q.restrictTo(od); mq.meet(md); }
      PotentialDomainDescription q2(q); Model mq2 = mq;
      p.sync(q); mp.meet(mq); mq = mp; probe(r, p, mp, "sync/this", pts); probe(r, q, mq, "sync/other", pts);
      probe(r, q2, mq2, "copy", pts);
      q2 = p; probe(r, q2, mp, "assigned", pts);
   }
   return done(); }
