#include "elem.inc"

TSUITE("elem-double-3x4", 4000, 50000, elem_suite<double,3,4>)
