#include <cstddef>
#include <string>
#include <trident/binarytables/binarytablereaders.h>
#include <trident/binarytables/newrowtable.h>
typedef ByteReader R1; typedef ShortReader R2; typedef IntReader R4; typedef LongIntReader R5; typedef LongReader R8;
#define T(a, b) template class NewRowTable<R##a, R##b>;
T(1,1) T(1,2) T(1,4) T(1,5) T(2,1) T(2,2) T(2,4) T(2,5) T(4,1) T(4,2) T(4,4) T(4,5) T(5,1) T(5,2) T(5,4) T(5,5)
typedef NewRowTable<R1, R2> X;
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(X, x);
F(start) F(current) F(end) F(currentValue1) F(currentValue2) F(count) F(isSecondColumnIgnored) F(currentMark) F(constraint1) F(constraint2) F(key)
extern const unsigned long K_size = sizeof(X);
#define RD(n) unsigned long vp_read##n(const char* p) { return R##n::read(p); } char vp_size##n() { return R##n::size(); }
RD(1) RD(2) RD(4) RD(5) RD(8)
}
