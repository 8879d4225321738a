#include <new>
#include "pairs.h"
#include "src/trident/iterators/rmitr.cpp"
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(RmItr, x);
F(itr) F(rmitr) F(delnfirstterms) F(rmitrvalid) F(noseccol) F(v1) F(v2) F(curCount) F(nextCount) F(hnc) F(hn) F(key)
extern const unsigned long K_size = sizeof(RmItr);
RmItr* vp_make() { return new RmItr(); }
}
