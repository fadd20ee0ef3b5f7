#include "c04.h"
SN(41) SN(42) SN(43) SN(44) SN(45) SN(46) SN(47) SN(48) SN(49) SN(50) SN(51) SN(52) SN(53)
