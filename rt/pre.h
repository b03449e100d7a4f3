// Forces libstdc++ templates to be instantiated in the bitcode instead of being left to libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
