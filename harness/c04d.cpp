#include "c04.h"
ME(2) ME(3) ME(4) ME(5) ME(6) ME(7) ME(8) ME(9) ME(10) ME(11) ME(12) ME(13) ME(14) ME(15) ME(16) ME(17) ME(18) ME(19) ME(20) ME(21) ME(22) ME(23) ME(24) ME(25) ME(26) ME(27) ME(28) ME(29) ME(30) ME(31) ME(32) ME(33) ME(34) ME(35) ME(36) ME(37) ME(38) ME(39) ME(40) ME(41) ME(42) ME(43) ME(44) ME(45) ME(46) ME(47) ME(48) ME(49) ME(50) ME(51) ME(52)
