// compiled in front of every instrumented file: templates of the standard library (strings, streams)
// are instantiated here, with instrumentation, instead of being taken from libstdc++.so
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
