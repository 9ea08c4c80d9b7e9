#include "inv.inc"

TSUITE("inv-double-4",5000,60000,(inv_suite<double,4>))
