#include "oracle.h"
#include <cstddef>
#include <cstring>
#include <new>
// stand-in for the string buffer of the dictionary
#define STRINGBUFFER_H_
#include <trident/kb/consts.h>
#include <kognac/consts.h>
class StringBuffer { public: std::map<int64_t, std::string> m; int64_t end = 0; int64_t getSize() { return end; } void append(char* s, int n) { m[end] = std::string(s, n); end += n + 2; } char* get(int64_t p, int& n) { auto i = m.find(p); if (i == m.end()) { n = -1; return 0; } n = (int)i->second.size(); return (char*)i->second.data(); } int cmp(int64_t p, char* s, int n) { auto i = m.find(p); CHECK(i != m.end(), "text key: no text is stored at position %lld", (long long)p); return i->second.compare(std::string(s, n)); } };
#include "src/trident/tree/node.cpp"
class VNode : public Node { public: VNode(TreeContext* c) : Node(c) {}
   int unserialize(char* b, int p) { return Node::unserialize(b, p); } int64_t smallestNumericKey() { return localSmallestNumericKey(); } int64_t largestNumericKey() { return localLargestNumericKey(); }
   tTerm* smallestTextualKey(int* s) { return localSmallestTextualKey(s); } tTerm* largestTextualKey(int* s) { return localLargestTextualKey(s); }
   bool get(nTerm, int64_t&) { return false; } bool get(tTerm*, int, nTerm*) { return false; } bool get(nTerm, TermCoordinates*) { return false; } Node* put(nTerm, int64_t) { return 0; } Node* put(tTerm*, int, nTerm) { return 0; } Node* append(tTerm*, int, nTerm) { return 0; } Node* append(nTerm, int64_t) { return 0; } Node* append(nTerm, TermCoordinates*) { return 0; } Node* putOrGet(tTerm*, int, nTerm&, bool&) { return 0; } Node* put(nTerm, TermCoordinates*) { return 0; }
   using Node::pos; using Node::keyAt; using Node::shouldSplit; using Node::split; using Node::removeKeyAtPos; };
static StringBuffer* SB; static bool text; static Rng* R;
typedef std::vector<int64_t> Keys;   // numbers, or positions of texts (in the order of the texts)
static std::string textAt(int64_t p) { return SB->m[p]; }
static void same(VNode& n, const Keys& k, const char* w) {
   CHECK(n.getCurrentSize() == (int)k.size(), "%s: the node holds %d keys, expected %d", w, n.getCurrentSize(), (int)k.size());
   for (size_t i = 0; i < k.size(); i++) CHECK(n.keyAt(i) == k[i], "%s: key %d is %lld, expected %lld", w, (int)i, (long long)n.keyAt(i), (long long)k[i]);
   if (k.empty()) return;
   if (!text) { CHECK(n.smallestNumericKey() == k[0] && n.largestNumericKey() == k.back(), "%s: smallest/largest key", w); }
   else { int s; tTerm* t = n.smallestTextualKey(&s); CHECK(t && std::string((char*)t, s) == textAt(k[0]), "%s: smallest text", w); t = n.largestTextualKey(&s); CHECK(t && std::string((char*)t, s) == textAt(k.back()), "%s: largest text", w); } }
static void search(VNode& n, const Keys& k) {
   for (int q = 0; q < 6; q++) {
      int got, want; size_t i = 0; std::ostringstream d;
      if (!text) { int64_t x = k.empty() || R->coin(4) ? R->upto(2000) : k[R->upto(k.size())] + R->range(-1, 1); if (x < 0) x = 0; while (i < k.size() && k[i] < x) i++; want = i < k.size() && k[i] == x ? (int)i : -(int)i - 1; got = n.pos(x); d << x; }
      else { std::string x; if (k.empty() || R->coin()) { for (int l = 1 + R->upto(3); l--;) x += (char)('a' + R->upto(4)); } else x = textAt(k[R->upto(k.size())]); while (i < k.size() && textAt(k[i]) < x) i++; want = i < k.size() && textAt(k[i]) == x ? (int)i : -(int)i - 1; got = n.pos((tTerm*)x.data(), x.size()); d << x; }
      CHECK(got == want, "pos(%s) = %d, expected %d", d.str().c_str(), got, want); } }
int main(int argc, char** argv) {
   setup_oracle(); uint64_t seed = atoll(argv[1]), n = atoll(argv[2]);
   for (uint64_t c = 0; c < n; c++) {
      Rng r(seed * 1000003 + c); R = &r; text = r.upto(3) == 0; int max = 2 * (1 + r.upto(r.coin() ? 4 : 20));
      StringBuffer sb; SB = &sb; PreallocatedArraysFactory<int64_t> f(max); TreeContext ctx(0, &sb, false, max, text, false, 0, 0, &f);
      std::ostringstream d; d << "case " << seed << "/" << c << (text ? " texts" : " numbers") << ", up to " << max << " keys:"; begin_case(d.str());
      std::vector<VNode*> nodes{new VNode(&ctx)}; std::vector<Keys> ks(1);
      int64_t stride = r.upto(3) ? 1 + r.upto(4) : 1 + r.upto(300), base = r.upto(1000);
      auto mk = [&](size_t i, int& at) -> int64_t {  // a new key and its position
         Keys& k = ks[i];
         if (text) { std::string x; for (int t = 0; t < 20; t++) { x.clear(); for (int l = 1 + r.upto(4); l--;) x += (char)('a' + r.upto(4)); bool dup = false; for (auto& kk : ks) for (auto p : kk) if (textAt(p) == x) dup = true; if (!dup) break; if (t == 19) return -1; }
            if (r.coin()) sb.end += stride; at = 0; while (at < (int)k.size() && textAt(k[at]) < x) at++; int64_t p = sb.getSize(); if (r.coin()) { nodes[i]->putkeyAt((tTerm*)x.data(), (int)x.size(), at); CHECK(sb.m.count(p) && sb.m[p] == x, "putkeyAt: the text was not stored"); } else { sb.append((char*)x.data(), x.size()); nodes[i]->putkeyAt((nTerm)p, at); } return p; }
         int64_t x; if (!k.empty() && r.upto(4)) x = k.back() + (r.upto(6) ? stride : r.upto(500) + 1); else if (!k.empty() && r.coin()) x = k[0] - stride; else x = base + r.upto(1000); if (x < 0) return -1;
         at = 0; while (at < (int)k.size() && k[at] < x) at++; if (at < (int)k.size() && k[at] == x) return -1; nodes[i]->putkeyAt((nTerm)x, at); return x; };
      for (int step = 0, N = 4 + r.upto(60); step < N; step++) {
         size_t i = r.upto(nodes.size()); VNode& v = *nodes[i]; Keys& k = ks[i]; CHECK(v.shouldSplit() == ((int)k.size() == max), "shouldSplit");
         unsigned op = r.upto(10); std::ostringstream o;
         if (op < 6 && (int)k.size() < max) { int at = 0; int64_t x = mk(i, at); if (x < 0) continue; k.insert(k.begin() + at, x); o << " put " << x << " at " << at; g_case += o.str(); same(v, k, "putkeyAt"); }
         else if (op < 8 && !k.empty()) { int at = r.upto(3) ? r.upto(k.size()) : r.coin() ? 0 : (int)k.size() - 1; o << " remove " << at; g_case += o.str(); if (at == 0 && r.coin()) v.removeFirstKey(); else if (at == (int)k.size() - 1 && r.coin()) v.removeLastKey(); else v.removeKeyAtPos(at); k.erase(k.begin() + at); same(v, k, "removeKeyAtPos"); }
         else if ((int)k.size() == max && (op < 8 || r.coin())) { VNode* m; Keys mk2; size_t t = nodes.size(); if (t > 1 && r.coin()) { t = r.upto(nodes.size()); if (t == i) continue; } o << " split into " << t; g_case += o.str(); if (t == nodes.size()) { nodes.push_back(new VNode(&ctx)); ks.push_back({}); } m = nodes[t]; Keys& kk = ks[i]; v.split(m); ks[t].assign(kk.begin() + max / 2, kk.end()); kk.resize(max / 2); same(v, kk, "split, first half"); same(*m, ks[t], "split, second half"); }
         else if (op >= 8) { std::vector<char> b(32 + 10 * max); size_t t = r.coin() || nodes.size() == 1 ? nodes.size() : r.upto(nodes.size()); o << " store and load into " << t; g_case += o.str(); int p0 = r.upto(4); Keys kk = k; int e = v.serialize(b.data(), p0); if (t == nodes.size()) { nodes.push_back(new VNode(&ctx)); ks.push_back({}); } int e2 = nodes[t]->unserialize(b.data(), p0); CHECK(e == e2, "unserialize ends at %d, serialize at %d", e2, e); ks[t] = kk; same(*nodes[t], kk, "serialize and unserialize"); if (t != i) same(*nodes[i], kk, "serialize"); }
         i = r.upto(nodes.size()); search(*nodes[i], ks[i]); same(*nodes[i], ks[i], "other node");
      }
      for (auto x : nodes) delete x;
   }
   return done(); }
