#include "elem.inc"

TSUITE("elem-float-5x2", 4000, 50000, elem_suite<float,5,2>)
