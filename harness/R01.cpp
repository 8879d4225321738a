#include <cstddef>
#include <new>
#include "rdf3x/src/rts/DomainDescription.cpp"
extern "C" {
extern const unsigned long K_min = offsetof(PotentialDomainDescription, min);
extern const unsigned long K_max = offsetof(PotentialDomainDescription, max);
extern const unsigned long K_filter = offsetof(PotentialDomainDescription, filter);
extern const unsigned long K_size = sizeof(PotentialDomainDescription);
void vp_copy(void* d, const PotentialDomainDescription& s) { new (d) PotentialDomainDescription(s); }
void vp_assign(PotentialDomainDescription& d, const PotentialDomainDescription& s) { d = s; }
}
