// Stand-ins that keep error reports for symbolic tags and sizes within the solver's reach (see DESIGN.md).
#pragma once
#include <string>
#ifndef VP_NATIVE
#pragma clang diagnostic ignored "-Wreturn-type-c-linkage"
// which bucket a hash code falls into is the library's choice: all in one (a valid, if slow, hash table)
extern "C" size_t vpx__ZNKSt8__detail18_Mod_range_hashingclEmm(const void*, size_t, size_t) { return 0; }
// the digits of a number inside an error text
extern "C" std::string vpx__ZNSt7__cxx119to_stringEj(unsigned) { return "#"; }
extern "C" std::string vpx__ZNSt7__cxx119to_stringEm(unsigned long) { return "#"; }
extern "C" std::string vpx__ZNSt7__cxx119to_stringEi(int) { return "#"; }
extern "C" std::string vpx__ZNSt7__cxx119to_stringEl(long) { return "#"; }
#endif
