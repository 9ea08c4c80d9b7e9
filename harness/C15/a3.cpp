#include "access.inc"

TSUITE("access-float-5x2", 2000, 30000, access_suite<float,5,2>)
