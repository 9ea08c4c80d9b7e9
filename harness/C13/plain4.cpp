#include "plain.inc"

TSUITE("mul-double-1x3x5", 4000, 40000, plain_suite<double, 1, 3, 5>)
