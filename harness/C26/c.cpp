#include "m.h"
TSUITE("frustum/sphere-2d", 1200, 40000, (rays<Frustum<Sphere<double, 2>>>))
TSUITE("frustum/sphere-2f", 1200, 40000, (rays<Frustum<Sphere<float, 2>>>))
TSUITE("frustum/rect-2d", 1200, 40000, (rays<Frustum<Rect<double, 2>>>))
TSUITE("frustum/rect-3d", 1200, 40000, (rays<Frustum<Rect<double, 3>>>))
TSUITE("frustum/simplex-2d", 1200, 40000, (rays<Frustum<Simplex<double, 2>>>))
TSUITE("frustum/cylinder-2d", 1200, 40000, (rays<Frustum<Cylinder<double, 2>>>))
TSUITE("oriented/frustum-rect-2d", 1200, 40000, (rays<Oriented<Frustum<Rect<double, 2>>>>))
TSUITE("oriented/extruded-sphere-2d", 1200, 40000, (rays<Oriented<Extruded<Sphere<double, 2>>>>))
