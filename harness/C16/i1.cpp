#include "inv.inc"

TSUITE("inv-double-1",1500,15000,(inv_suite<double,1>))
TSUITE("inv-double-2",4000,50000,(inv_suite<double,2>))
