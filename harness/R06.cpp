#include <cstddef>
#include <new>
#include "ops.h"
#include "rdf3x/src/rts/MergeJoin.cpp"
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(MergeJoin, x);
F(left) F(right) F(leftValue) F(rightValue) F(leftTail) F(rightTail) F(scanState) F(leftCount) F(rightCount) F(leftShadow) F(rightShadow) F(buffer) F(bufferIter) F(leftInCopy) F(leftOptional) F(rightOptional)
extern const unsigned long K_size = sizeof(MergeJoin);
#define S(x) extern const unsigned long K_##x = MergeJoin::x;
S(empty) S(scanHasBothSwapped) S(scanStepLeft) S(scanStepBoth) S(scanStepRight) S(scanHasBoth) S(loopEmptyLeft) S(loopEmptyRight) S(loopEmptyRightHasData)
S(loopEqualLeftHasData) S(loopEqualLeft) S(loopEqualRightHasData) S(loopEqualRight) S(loopSpooledRightEmpty) S(loopSpooledRightHasData)
S(scanStepLeftCopyRight) S(scanStepRightCopyLeft) S(loopEmptyLeftCopyLeft) S(loopEmptyRightCopyRight)
}
