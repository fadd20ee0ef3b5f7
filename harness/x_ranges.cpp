// the same functions, instantiated with operations which may throw (C15)
#define VC_THROWING
#include "ranges.cpp"
