#define PART 0
#define LO 33
#define HI 50
#include "n4.h"
