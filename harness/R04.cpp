#include <cstddef>
#include <new>
#include "ops.h"
#include "rdf3x/src/rts/NestedLoopJoin.cpp"
#include "rdf3x/src/rts/NestedLoopFilter.cpp"
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(c,x) extern const unsigned long K_##c##_##x = offsetof(c, x);
F(NestedLoopJoin, left) F(NestedLoopJoin, right) F(NestedLoopJoin, leftCount)
extern const unsigned long K_NestedLoopJoin_size = sizeof(NestedLoopJoin);
F(NestedLoopFilter, input) F(NestedLoopFilter, filter) F(NestedLoopFilter, values) F(NestedLoopFilter, pos)
extern const unsigned long K_NestedLoopFilter_size = sizeof(NestedLoopFilter);
}
