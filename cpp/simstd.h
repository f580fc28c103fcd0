// Included before everything else in instrumented code: the standard library's strings and streams are
// compiled into the simulator, instrumented, and are not taken from the shared library.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
