#include "access.inc"

TSUITE("access-double-3x4", 2000, 30000, access_suite<double,3,4>)
