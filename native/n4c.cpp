#define PART 0
#define LO 51
#define HI 57
#include "n4.h"
