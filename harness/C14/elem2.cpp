#include "elem.inc"

TSUITE("elem-int-3x3", 4000, 50000, elem_suite<int,3,3>)
