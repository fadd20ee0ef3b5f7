#define PART 1
#define LO 0
#define HI 64
#include "n4.h"
