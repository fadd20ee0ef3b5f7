#include "c04.h"
SN(54) SN(55) SN(56) SN(57) SN(58) SN(59) SN(60) SN(61) SN(62) SN(63) SN(64)
