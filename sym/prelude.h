// Force-included first in every symbolic compilation: instantiate std::string members in the bitcode instead of leaving them in libstdc++.so.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
