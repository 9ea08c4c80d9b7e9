#include "m.h"
TSUITE("frustum/sphere-2d", 3000, 60000, (member<Frustum<Sphere<double, 2>>>))
TSUITE("frustum/sphere-2f", 3000, 60000, (member<Frustum<Sphere<float, 2>>>))
TSUITE("frustum/rect-2d", 3000, 60000, (member<Frustum<Rect<double, 2>>>))
TSUITE("frustum/rect-3d", 3000, 60000, (member<Frustum<Rect<double, 3>>>))
TSUITE("frustum/simplex-2d", 2000, 20000, (member<Frustum<Simplex<double, 2>>>))
TSUITE("frustum/capsule-2d", 2000, 40000, (member<Frustum<Capsule<double, 2>>>))
TSUITE("oriented/rect-2d", 2500, 50000, (member<Oriented<Rect<double, 2>>>))
TSUITE("oriented/rect-3f", 2500, 50000, (member<Oriented<Rect<float, 3>>>))
TSUITE("oriented/sphere-2f", 2500, 50000, (member<Oriented<Sphere<float, 2>>>))
TSUITE("oriented/cylinder-3d", 2500, 50000, (member<Oriented<Cylinder<double, 3>>>))
TSUITE("oriented/frustum-3d", 2500, 50000, (member<Oriented<Frustum<Rect<double, 2>>>>))
TSUITE("oriented/simplex-3d", 2000, 20000, (member<Oriented<Simplex<double, 3>>>))
TSUITE("oriented/dilated-3d", 2000, 40000, (member<Oriented<Dilated<Rect<double, 3>>>>))
TSUITE("extruded/oriented-2d", 2000, 40000, (member<Extruded<Oriented<Rect<double, 2>>>>))
