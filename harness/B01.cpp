#define VP_CONTRACTS
#include <cstddef>
#include <new>
// stand-in for the string buffer of the dictionary (a dependency with an assumed contract)
#define STRINGBUFFER_H_
#include <trident/kb/consts.h>
#include <kognac/consts.h>
extern "C" { int64_t vp_sb_size(void*); void vp_sb_append(void*, char*, int); char* vp_sb_get(void*, int64_t, int*); int vp_sb_cmp(void*, int64_t, char*, int); }
class StringBuffer { public: int64_t getSize() { return vp_sb_size(this); } void append(char* s, int n) { vp_sb_append(this, s, n); } char* get(int64_t p, int& n) { return vp_sb_get(this, p, &n); } int cmp(int64_t p, char* s, int n) { return vp_sb_cmp(this, p, s, n); } };
#include "src/trident/tree/node.cpp"
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(Node, x);
F(context) F(currentSize) F(firstKey) F(keys) F(consecutive) F(consecutiveStep) F(state)
#define C(x) extern const unsigned long K_c_##x = offsetof(TreeContext, x);
C(buffer) C(maxNElementsPerNode) C(minNElementsPerNode) C(textualKeys) C(nodeKeyFactory)
extern const unsigned long K_size = sizeof(Node);
extern const unsigned long K_c_size = sizeof(TreeContext);
int64_t vp_keyAt(Node* n, int p) { return n->keyAt(p); }
int vp_pos(Node* n, int64_t key) { return n->pos(key); }
int vp_postext(Node* n, tTerm* key, int size) { return n->pos(key, size); }
int64_t vp_smallest(Node* n) { return n->localSmallestNumericKey(); }
int64_t vp_largest(Node* n) { return n->localLargestNumericKey(); }
void* vp_smallesttext(Node* n, int* s) { return n->localSmallestTextualKey(s); }
void* vp_largesttext(Node* n, int* s) { return n->localLargestTextualKey(s); }
void vp_put(Node* n, nTerm key, int p) { n->putkeyAt(key, p); }
void vp_puttext(Node* n, tTerm* key, int s, int p) { n->putkeyAt(key, s, p); }
void vp_remove(Node* n, int p) { n->removeKeyAtPos(p); }
void vp_removefirst(Node* n) { n->removeFirstKey(); }
void vp_removelast(Node* n) { n->removeLastKey(); }
void vp_split(Node* n, Node* o) { n->split(o); }
bool vp_should(Node* n) { return n->shouldSplit(); }
int vp_roundtrip(Node* a, Node* b, char* bytes, int p) { int e = a->Node::serialize(bytes, p); int f = b->Node::unserialize(bytes, p); return e == f; }
}
