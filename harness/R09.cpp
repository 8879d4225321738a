#include <cstddef>
#include <new>
#include "ops.h"
#include "rdf3x/src/rts/HashJoin.cpp"
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(HashJoin, x);
F(left) F(right) F(leftValue) F(rightValue) F(leftTail) F(rightTail) F(entryPool) F(hashTable) F(hashTableIter) F(rightCount) F(bitset) F(buildHashTableTask) F(probePeekTask)
F(leftOptional) F(rightOptional) F(joinSuccedeed) F(collectedRightValues) F(currentIdx) F(keys)
extern const unsigned long K_size = sizeof(HashJoin);
extern const unsigned long K_b_join = offsetof(HashJoin::BuildHashTable, join);
extern const unsigned long K_b_done = offsetof(HashJoin::BuildHashTable, done);
extern const unsigned long K_p_join = offsetof(HashJoin::ProbePeek, join);
extern const unsigned long K_p_count = offsetof(HashJoin::ProbePeek, count);
extern const unsigned long K_e_next = offsetof(HashJoin::Entry, next);
extern const unsigned long K_e_key = offsetof(HashJoin::Entry, key);
extern const unsigned long K_e_count = offsetof(HashJoin::Entry, count);
extern const unsigned long K_e_values = offsetof(HashJoin::Entry, values);
extern const unsigned long K_obs_size = sizeof(ObservedDomainDescription);
extern const unsigned long K_r_domain = offsetof(Register, domain);
}
