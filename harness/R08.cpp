#include <cstddef>
#include <new>
#include "ops.h"
#include "rdf3x/src/rts/NestedLoopJoin.cpp"
#include "rdf3x/src/rts/MergeUnion.cpp"
#include "rdf3x/src/rts/DuplLimit.cpp"
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(c,x) extern const unsigned long K_##c##_##x = offsetof(c, x);
#define Z(c) extern const unsigned long K_##c##_size = sizeof(c);
#define C(c,x) extern const unsigned long K_##c##_##x = c::x;
F(NestedLoopJoin, left) F(NestedLoopJoin, right) F(NestedLoopJoin, leftCount) Z(NestedLoopJoin)
F(MergeUnion, left) F(MergeUnion, right) F(MergeUnion, leftReg) F(MergeUnion, rightReg) F(MergeUnion, result) F(MergeUnion, leftValue) F(MergeUnion, rightValue) F(MergeUnion, leftCount) F(MergeUnion, rightCount) F(MergeUnion, state) Z(MergeUnion)
C(MergeUnion, done) C(MergeUnion, stepLeft) C(MergeUnion, stepRight) C(MergeUnion, stepBoth) C(MergeUnion, leftEmpty) C(MergeUnion, rightEmpty)
F(DuplLimit, input) F(DuplLimit, duplicateHandling) F(DuplLimit, limit) F(DuplLimit, offset) F(DuplLimit, entryCount) F(DuplLimit, currentCount) F(DuplLimit, observedOutputCardinality) Z(DuplLimit)
C(DuplLimit, Duplicates) C(DuplLimit, NoDuplicates)
void vp_nlj(void* p, Operator* l, Operator* r) { new (p) NestedLoopJoin(l, r, 1); }
void vp_mu(void* p, Register* res, Operator* l, Register* lr, Operator* r, Register* rr) { new (p) MergeUnion(res, l, lr, r, rr, 1); }
void vp_dl(void* p, Operator* in, const std::vector<Register*>& o, DuplLimit::DuplicateHandling d, uint64_t lim, uint64_t off) { new (p) DuplLimit(in, o, d, lim, off); }
}
