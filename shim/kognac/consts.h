// Stand-in for kognac/consts.h (not part of this repository).
#pragma once
#include <inttypes.h>
typedef uint64_t nTerm;
typedef unsigned char tTerm;
