#include <cstddef>
#include <iostream>
#include "src/trident/iterators/arrayitr.cpp"
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(ArrayItr, x);
F(constraint1) F(constraint2) F(key) F(array) F(nElements) F(pos) F(v1) F(v2) F(markPos) F(hasNextChecked) F(n) F(ignSecondColumn) F(countElems)
extern const unsigned long K_size = sizeof(ArrayItr);
}
