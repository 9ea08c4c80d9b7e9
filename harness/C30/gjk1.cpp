#include "m.h"
TSUITE("gjk/sphere-sphere-2d", 2000, 60000, (pairs<Sphere<double, 2>, Sphere<double, 2>, false>))
TSUITE("gjk/sphere-rect-2f", 2000, 60000, (pairs<Sphere<float, 2>, Rect<float, 2>, false>))
TSUITE("gjk/rect-rect-2d", 2000, 60000, (pairs<Rect<double, 2>, Rect<double, 2>, false>))
TSUITE("gjk/simplex-simplex-2d", 2000, 60000, (pairs<Simplex<double, 2>, Simplex<double, 2>, true>))
TSUITE("gjk/simplex-simplex-3d", 2000, 60000, (pairs<Simplex<double, 3>, Simplex<double, 3>, true>))
TSUITE("gjk/rect-simplex-3f", 2000, 60000, (pairs<Rect<float, 3>, Simplex<float, 3>, false>))
TSUITE("gjk/rect-rect-3d", 2000, 60000, (pairs<Rect<double, 3>, Rect<double, 3>, false>))
TSUITE("gjk/rect-rect-4d", 1000, 30000, (pairs<Rect<double, 4>, Rect<double, 4>, false>))
TSUITE("gjk/simplex-rect-5d", 500, 20000, (pairs<Simplex<double, 5>, Rect<double, 5>, false>))
