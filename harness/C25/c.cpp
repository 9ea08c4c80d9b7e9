#include "m.h"
TSUITE("dilated/rect-2d", 3000, 60000, (surface<Dilated<Rect<double, 2>>>))
TSUITE("dilated/rect-3f", 3000, 60000, (surface<Dilated<Rect<float, 3>>>))
TSUITE("dilated/sphere-3d", 3000, 60000, (surface<Dilated<Sphere<double, 3>>>))
TSUITE("dilated/cylinder-3d", 3000, 60000, (surface<Dilated<Cylinder<double, 3>>>))
TSUITE("dilated/capsule-2d", 3000, 60000, (surface<Dilated<Capsule<double, 2>>>))
TSUITE("dilated/extruded-rect-2d", 3000, 60000, (surface<Dilated<Extruded<Rect<double, 2>>>>))
TSUITE("dilated/extruded-sphere-2d", 3000, 60000, (surface<Dilated<Extruded<Sphere<double, 2>>>>))
