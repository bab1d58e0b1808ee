#ifdef SIM_STRINGS   // instantiate std::string here, so that its accesses are instrumented
#ifdef __cplusplus
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE -1
#endif
#endif
/* Force-included into every C++ file of the build: headers that cdec relies on
   getting indirectly and that gcc 13 and Boost 1.83 no longer pull in. */
#include <math.h>
#include <algorithm>
#include <boost/serialization/split_member.hpp>
