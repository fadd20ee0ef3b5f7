#include "c04.h"
ME(53) ME(54) ME(55) ME(56) ME(57) ME(58) ME(59) ME(60) ME(61) ME(62) ME(63) ME(64)
OE(2) OE(4) OE(8) OE(16) OE(32) OE(64) OE(128)
