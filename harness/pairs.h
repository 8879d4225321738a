// Child iterators for the pair-iterator contracts: every virtual function forwards to a body-less function whose
// contract (an arbitrary sorted sequence) is supplied by the verifier.
#pragma once
#include <cstddef>
#include <cstdint>
#include <trident/iterators/pairitr.h>
extern "C" {
bool vp_pi_hasNext(void*);
void vp_pi_next(void*);
int64_t vp_pi_value1(void*);
int64_t vp_pi_value2(void*);
int64_t vp_pi_count(void*);
uint64_t vp_pi_card(void*);
uint64_t vp_pi_est(void*);
void vp_pi_ignore(void*);
void vp_pi_mark(void*);
void vp_pi_reset(void*, char);
void vp_pi_moveto(void*, int64_t, int64_t);
int vp_pi_type(void*);
}
struct ChildItr : PairItr {
   int getTypeItr() { return vp_pi_type(this); }
   int64_t getValue1() { return vp_pi_value1(this); }
   int64_t getValue2() { return vp_pi_value2(this); }
   bool hasNext() { return vp_pi_hasNext(this); }
   void next() { vp_pi_next(this); }
   void ignoreSecondColumn() { vp_pi_ignore(this); }
   int64_t getCount() { return vp_pi_count(this); }
   uint64_t getCardinality() { return vp_pi_card(this); }
   uint64_t estCardinality() { return vp_pi_est(this); }
   void clear() {}
   void mark() { vp_pi_mark(this); }
   void reset(const char i) { vp_pi_reset(this, i); }
   void moveto(const int64_t a, const int64_t b) { vp_pi_moveto(this, a, b); }
};
extern "C" {
void* vp_make_pairchild() { return new ChildItr(); }
extern const unsigned long K_pi_key = offsetof(PairItr, key);
extern const unsigned long K_pi_c1 = offsetof(PairItr, constraint1);
extern const unsigned long K_pi_c2 = offsetof(PairItr, constraint2);
}
