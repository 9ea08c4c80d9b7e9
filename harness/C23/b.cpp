#include "m.h"
TSUITE("simplex/2d", 3000, 30000, (member<Simplex<double, 2>>))
TSUITE("simplex/2f", 3000, 30000, (member<Simplex<float, 2>>))
TSUITE("simplex/3d", 2000, 20000, (member<Simplex<double, 3>>))
TSUITE("simplex/3f", 2000, 20000, (member<Simplex<float, 3>>))
TSUITE("simplex/4d", 1000, 10000, (member<Simplex<double, 4>>))
TSUITE("extruded/sphere-2d", 3000, 60000, (member<Extruded<Sphere<double, 2>>>))
TSUITE("extruded/rect-2f", 3000, 60000, (member<Extruded<Rect<float, 2>>>))
TSUITE("extruded/capsule-2d", 3000, 60000, (member<Extruded<Capsule<double, 2>>>))
TSUITE("extruded/cylinder-3d", 3000, 60000, (member<Extruded<Cylinder<double, 3>>>))
TSUITE("extruded/simplex-2d", 2000, 20000, (member<Extruded<Simplex<double, 2>>>))
TSUITE("extruded/extruded-2d", 2000, 40000, (member<Extruded<Extruded<Sphere<double, 2>>>>))
TSUITE("dilated/rect-2d", 3000, 60000, (member<Dilated<Rect<double, 2>>>))
TSUITE("dilated/rect-3f", 3000, 60000, (member<Dilated<Rect<float, 3>>>))
TSUITE("dilated/cylinder-3d", 3000, 60000, (member<Dilated<Cylinder<double, 3>>>))
TSUITE("dilated/capsule-2d", 3000, 60000, (member<Dilated<Capsule<double, 2>>>))
TSUITE("dilated/simplex-2d", 2000, 20000, (member<Dilated<Simplex<double, 2>>>))
TSUITE("dilated/extruded-2d", 3000, 60000, (member<Dilated<Extruded<Rect<double, 2>>>>))
