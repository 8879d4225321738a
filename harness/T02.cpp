#include <cstddef>
#include <string>
#include <trident/binarytables/binarytablereaders.h>
#include <trident/binarytables/newclustertable.h>
typedef ByteReader R1; typedef ShortReader R2; typedef IntReader R4; typedef LongIntReader R5; typedef LongReader R8;
#define T(a, b, c) template class NewClusterTable<R##a, R##b, R##c>;
#define TT(a, b) T(a, b, 1) T(a, b, 4)
TT(1,1) TT(1,2) TT(1,4) TT(1,5) TT(2,1) TT(2,2) TT(2,4) TT(2,5) TT(4,1) TT(4,2) TT(4,4) TT(4,5) TT(5,1) TT(5,2) TT(5,4) TT(5,5)
typedef NewClusterTable<R1, R2, R4> X;
extern "C" {
#define F(x) extern const unsigned long K_##x = offsetof(X, x);
F(start) F(current) F(end) F(currentValue1) F(currentValue2) F(count) F(countgroup) F(isSecondColumnIgnored) F(m_current) F(m_currentValue1) F(m_currentValue2) F(m_count) F(m_countgroup) F(constraint1) F(constraint2) F(key)
extern const unsigned long K_size = sizeof(X);
}
