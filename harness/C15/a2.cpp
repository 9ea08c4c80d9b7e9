#include "access.inc"

TSUITE("access-int-4x4", 2000, 30000, access_suite<int,4,4>)
