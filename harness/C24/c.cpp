#include "m.h"
TSUITE("frustum/sphere-2d", 1500, 40000, (extents<Frustum<Sphere<double, 2>>>))
TSUITE("frustum/sphere-2f", 1500, 40000, (extents<Frustum<Sphere<float, 2>>>))
TSUITE("frustum/rect-2d", 1500, 40000, (extents<Frustum<Rect<double, 2>>>))
TSUITE("frustum/rect-3d", 1500, 40000, (extents<Frustum<Rect<double, 3>>>))
TSUITE("frustum/simplex-2d", 1500, 40000, (extents<Frustum<Simplex<double, 2>>>))
TSUITE("frustum/capsule-2d", 1500, 40000, (extents<Frustum<Capsule<double, 2>>>))
TSUITE("oriented/rect-2d", 1500, 40000, (extents<Oriented<Rect<double, 2>>>))
TSUITE("oriented/rect-3f", 1500, 40000, (extents<Oriented<Rect<float, 3>>>))
TSUITE("oriented/rect-4d", 1500, 40000, (extents<Oriented<Rect<double, 4>>>))
TSUITE("oriented/sphere-2f", 1500, 40000, (extents<Oriented<Sphere<float, 2>>>))
TSUITE("oriented/cylinder-3d", 1500, 40000, (extents<Oriented<Cylinder<double, 3>>>))
TSUITE("oriented/frustum-3d", 1500, 40000, (extents<Oriented<Frustum<Rect<double, 2>>>>))
TSUITE("oriented/simplex-3d", 1500, 40000, (extents<Oriented<Simplex<double, 3>>>))
TSUITE("oriented/dilated-3d", 1500, 40000, (extents<Oriented<Dilated<Rect<double, 3>>>>))
