#include "plain.inc"

TSUITE("mul-int-2x2x2", 4000, 40000, plain_suite<int, 2, 2, 2>)
