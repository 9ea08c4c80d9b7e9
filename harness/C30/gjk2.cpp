#include "m.h"
TSUITE("gjk/sphere-sphere-3d", 2000, 60000, (pairs<Sphere<double, 3>, Sphere<double, 3>, false>))
TSUITE("gjk/sphere-cylinder-3d", 2000, 60000, (pairs<Sphere<double, 3>, Cylinder<double, 3>, false>))
TSUITE("gjk/cylinder-cylinder-3d", 2000, 60000, (pairs<Cylinder<double, 3>, Cylinder<double, 3>, true>))
TSUITE("gjk/cylinder-capsule-3f", 2000, 60000, (pairs<Cylinder<float, 3>, Capsule<float, 3>, true>))
TSUITE("gjk/cylinder-simplex-2d", 2000, 60000, (pairs<Cylinder<double, 2>, Simplex<double, 2>, true>))
TSUITE("gjk/frustum-extruded-3d", 2000, 60000, (pairs<Frustum<Rect<double, 2>>, Extruded<Sphere<double, 2>>, true>))
TSUITE("gjk/frustum-simplex-3d", 2000, 60000, (pairs<Frustum<Sphere<double, 2>>, Simplex<double, 3>, true>))
TSUITE("gjk/dilated-simplex-3d", 2000, 60000, (pairs<Dilated<Rect<double, 3>>, Simplex<double, 3>, true>))
TSUITE("gjk/sphere-rect-4d", 1000, 30000, (pairs<Sphere<double, 4>, Rect<double, 4>, false>))
