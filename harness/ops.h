// Child operators for the operator contracts: every virtual function forwards to a body-less function whose contract
// (an arbitrary finite sequence of (count, register values)) is supplied by the verifier.
#pragma once
#include "rts/operator/Operator.hpp"
#include "rts/runtime/Runtime.hpp"
extern "C" {
uint64_t vp_op_first(void*);
uint64_t vp_op_next(void*);
void vp_op_delete(void*);
extern const unsigned long K_reg_value = offsetof(Register, value);
extern const unsigned long K_reg_size = sizeof(Register);
}
struct ChildOp : Operator {
   ChildOp() : Operator(0) {}
   ~ChildOp() { vp_op_delete(this); }
   uint64_t first() { return vp_op_first(this); }
   uint64_t next() { return vp_op_next(this); }
   void print(PlanPrinter&) {}
   void addMergeHint(Register*, Register*) {}
   void getAsyncInputCandidates(Scheduler&) {}
};
extern "C" { void* vp_make_child() { return new ChildOp(); } }
