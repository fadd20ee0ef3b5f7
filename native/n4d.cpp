#define PART 0
#define LO 58
#define HI 64
#include "n4.h"
