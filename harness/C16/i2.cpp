#include "inv.inc"

TSUITE("inv-double-3",5000,60000,(inv_suite<double,3>))
