#include "inv.inc"

TSUITE("inv-float-3",4000,50000,(inv_suite<float,3>))
TSUITE("inv-float-4",4000,50000,(inv_suite<float,4>))
