#include "inv.inc"

TSUITE("inv-double-6",4000,50000,(inv_suite<double,6>))
