#include "plain.inc"

TSUITE("mul-double-3x4x2", 4000, 40000, plain_suite<double, 3, 4, 2>)
