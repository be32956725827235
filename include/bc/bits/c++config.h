// Used only when compiling to bitcode: instantiate the standard library templates in the module
// (so that the symbolic executor sees their bodies) instead of relying on libstdc++.so.
#pragma GCC system_header
#include_next <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
