#include <cstddef>
#include <new>
#include "ops.h"
#include "rdf3x/src/rts/ValuesScan.cpp"
#include "rdf3x/src/rts/Filter.cpp"
#include "rdf3x/src/rts/Union.cpp"
#include "rdf3x/src/rts/Minus.cpp"
#include "rdf3x/src/rts/CartProd.cpp"
#include "rdf3x/src/rts/Assignment.cpp"
#include "rdf3x/src/rts/EmptyScan.cpp"
#include "rdf3x/src/rts/SingletonScan.cpp"
#include "rdf3x/src/rts/Operator.cpp"
extern "C" {
#define F(c,x) extern const unsigned long K_##c##_##x = offsetof(c, x);
#define Z(c) extern const unsigned long K_##c##_size = sizeof(c);
F(ValuesScan, regs) F(ValuesScan, values) F(ValuesScan, processed) F(ValuesScan, toBeProcessed) Z(ValuesScan)
F(Filter, input) F(Filter, filter) F(Filter, valid) F(Filter, exclude) Z(Filter)
F(Union, parts) F(Union, mappings) F(Union, initializations) F(Union, current) Z(Union)
F(Minus, mainTree) F(Minus, minusTree) F(Minus, regsToCheck) F(Minus, loaded) F(Minus, row) F(Minus, valuesHashMap) F(Minus, hashF) F(Minus, equalF) F(Minus, valuesToCheck) Z(Minus)
F(CartProd, left) F(CartProd, right) F(CartProd, leftTail) F(CartProd, rightTail) F(CartProd, leftOptional) F(CartProd, rightOptional) F(CartProd, leftExhausted) F(CartProd, leftCount) F(CartProd, rightCount) F(CartProd, buffer) F(CartProd, idxbuffer) Z(CartProd)
F(Assignment, input) F(Assignment, inputArgs) F(Assignment, outputVars) Z(Assignment)
Z(EmptyScan) Z(SingletonScan)
extern const unsigned long K_reg_domain = offsetof(Register, domain);
extern const unsigned long K_arg_reg = offsetof(Assignment::AssignmentArgument, reg);
extern const unsigned long K_arg_def = offsetof(Assignment::AssignmentArgument, defaultValue);
extern const unsigned long K_arg_size = sizeof(Assignment::AssignmentArgument);
void vp_values(void* p, std::vector<Register*>& r, const std::vector<uint64_t>& v) { new (p) ValuesScan(r, v, 1); }
void vp_filter(void* p, Operator* in, Register* f, const std::vector<uint64_t>& v, bool ex) { new (p) Filter(in, f, v, ex, 1); }
}
