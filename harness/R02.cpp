#include <cstddef>
#include <new>
#include "ops.h"
#include "rdf3x/src/rts/MergeUnion.cpp"
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(MergeUnion, x);
F(left) F(right) F(leftReg) F(rightReg) F(result) F(leftValue) F(rightValue) F(leftCount) F(rightCount) F(state)
#define S(x) extern const unsigned long K_##x = MergeUnion::x;
void vp_make(void* p, Register* res, Operator* l, Register* lr, Operator* r, Register* rr) { new (p) MergeUnion(res, l, lr, r, rr, 1); }
S(done) S(stepLeft) S(stepRight) S(stepBoth) S(leftEmpty) S(rightEmpty)
extern const unsigned long K_size = sizeof(MergeUnion);
}
