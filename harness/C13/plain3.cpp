#include "plain.inc"

TSUITE("mul-float-4x4x4", 4000, 40000, plain_suite<float, 4, 4, 4>)
