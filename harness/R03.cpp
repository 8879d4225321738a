#include <cstddef>
#include <new>
#include "ops.h"
#include "rdf3x/src/rts/DuplLimit.cpp"
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(DuplLimit, x);
F(input) F(duplicateHandling) F(limit) F(offset) F(entryCount) F(currentCount) F(observedOutputCardinality)
#define S(x) extern const unsigned long K_##x = DuplLimit::x;
S(Duplicates) S(NoDuplicates)
extern const unsigned long K_size = sizeof(DuplLimit);
}
