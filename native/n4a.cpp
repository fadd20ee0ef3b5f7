#define PART 0
#define LO 0
#define HI 32
#include "n4.h"
