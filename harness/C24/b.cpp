#include "m.h"
TSUITE("extruded/sphere-2d", 1500, 40000, (extents<Extruded<Sphere<double, 2>>>))
TSUITE("extruded/rect-2f", 1500, 40000, (extents<Extruded<Rect<float, 2>>>))
TSUITE("extruded/capsule-2d", 1500, 40000, (extents<Extruded<Capsule<double, 2>>>))
TSUITE("extruded/simplex-2d", 1500, 40000, (extents<Extruded<Simplex<double, 2>>>))
TSUITE("extruded/extruded-2d", 1500, 40000, (extents<Extruded<Extruded<Sphere<double, 2>>>>))
TSUITE("dilated/rect-2d", 1500, 40000, (extents<Dilated<Rect<double, 2>>>))
TSUITE("dilated/rect-3f", 1500, 40000, (extents<Dilated<Rect<float, 3>>>))
TSUITE("dilated/cylinder-3d", 1500, 40000, (extents<Dilated<Cylinder<double, 3>>>))
TSUITE("dilated/simplex-3d", 1500, 40000, (extents<Dilated<Simplex<double, 3>>>))
TSUITE("dilated/extruded-2d", 1500, 40000, (extents<Dilated<Extruded<Rect<double, 2>>>>))
TSUITE("extruded/oriented-2d", 1500, 40000, (extents<Extruded<Oriented<Rect<double, 2>>>>))
