// Explicit instantiations of the header-only templates, for the extractor only.
#include "polytope.hh"
#include "polytope_serialize.hh"
#include "nearestPoint.hh"
#include "within.hh"
#include "intersect.hh"
#include "deleteCells.hh"
#include "findBoundaryElements.hh"
#include "makeBoxPLC.hh"
#include "removeElements.hh"
#include "mortonOrderIndices.hh"
#include "polytope_plc_canned_geometries.hh"
#include "Point.hh"
#include "Segment.hh"
#include "MeshEditor.hh"
#include "IntPointMap.hh"
namespace polytope {
template class Tessellation<2, double>;
template class Tessellation<3, double>;
template class PLC<2, double>;
template class PLC<3, double>;
template class ReducedPLC<2, double>;
template class ReducedPLC<3, double>;
template struct Point2<double>;
template struct Point2<KeyTraits::Key>;
template struct Point3<double>;
template struct Point3<KeyTraits::Key>;
template struct Segment<2>;
template struct Serializer<Segment<2> >;
template struct Serializer<Point2<double> >;
template struct Serializer<Point3<double> >;
template struct Serializer<float>;
template struct Serializer<int64_t>;
template struct Serializer<std::vector<std::vector<unsigned> > >;
template struct Serializer<double>;
template struct Serializer<unsigned>;
template struct Serializer<std::vector<int> >;
template struct Serializer<std::vector<std::vector<int> > >;
template struct Serializer<std::vector<std::vector<std::vector<int> > > >;
template struct Serializer<PLC<2, double> >;
template struct Serializer<PLC<3, double> >;
template struct Serializer<ReducedPLC<2, double> >;
template struct Serializer<ReducedPLC<3, double> >;
template double nearestPoint<2, double>(const double*, const unsigned, const double*, const PLC<2, double>&, double*);
template bool within<2, double>(const double*, const unsigned, const double*, const PLC<2, double>&);
template unsigned intersect<2, double>(const double*, const double*, const unsigned, const double*, const PLC<2, double>&, std::vector<double>&);
template void deleteCells<2, double>(Tessellation<2, double>&, const std::vector<unsigned>&);
template void deleteCells<3, double>(Tessellation<3, double>&, const std::vector<unsigned>&);
template ReducedPLC<2, double> plc_circle<double>(const Point2<double>&, const double, const unsigned);
template ReducedPLC<3, double> plc_sphere<double>(const Point3<double>&, const double, const unsigned);
template ReducedPLC<3, double> plc_cylinder<double>(const Point3<double>&, const double, const double, const unsigned);
template ReducedPLC<2, double> plc_box<2, double>(const double*, const double*);
template ReducedPLC<3, double> plc_box<3, double>(const double*, const double*);
template struct geometry::Hasher<2, double>;
template struct geometry::Hasher<3, double>;
namespace geometry {
template void computeBoundingBox<2, double>(const double*, const unsigned, const bool, double*, double*);
template void computeBoundingBox<3, double>(const double*, const unsigned, const bool, double*, double*);
template void computeBoundingBox<2, double>(const std::vector<double>&, const bool, double*, double*);
template void computeBoundingBox<3, double>(const std::vector<double>&, const bool, double*, double*);
template void expandBoundingBox<2, double>(const double*, const unsigned, const bool, double*, double*);
template void expandBoundingBox<3, double>(const double*, const unsigned, const bool, double*, double*);
template void uniquePoints<2, double>(const std::vector<double>&, const double*, const double*, const double, std::vector<double>&, std::vector<unsigned>&);
template void uniquePoints<3, double>(const std::vector<double>&, const double*, const double*, const double, std::vector<double>&, std::vector<unsigned>&);
template bool rayPlaneIntersection<double>(const double*, const double*, const double*, const double*, const double&, double*);
template bool raySphereIntersection<double>(const double*, const double*, const double*, const double, const double&, double*);
template bool rayCircleIntersection<double>(const double*, const double*, const double*, const double, const double&, double*);
template int rayBoxIntersection<double>(double*, double*, double*, double*, const double&, double*);
template double triangleVolume2<double>(const double*, const double*, const double*);
template double tetrahedralVolume6<double>(const double*, const double*, const double*, const double*);
template bool segmentIntersection2D<double>(const double*, const double*, const double*, const double*, double*, const double);
template void computeCellCentroid<2, double>(const Tessellation<2, double>&, const unsigned, double*);
template void computeCellCentroid<3, double>(const Tessellation<3, double>&, const unsigned, double*);
template void computeCellCentroidAndSignedArea<double>(const Tessellation<2, double>&, const unsigned, const double&, double*, double&);
template void computeFaceCentroidAndNormal<double>(const Tessellation<3, double>&, const unsigned, double*, double*);
template void computeCellCentroidAndSignedVolume<double>(const Tessellation<3, double>&, const unsigned, double*, double&);
template ReducedPLC<2, double> cellToReducedPLC<2, double>(const Tessellation<2, double>&, const unsigned);
template ReducedPLC<3, double> cellToReducedPLC<3, double>(const Tessellation<3, double>&, const unsigned);
template bool collinear<2, double>(const double*, const double*, const double*, const double);
template bool collinear<3, double>(const double*, const double*, const double*, const double);
template bool between<2, double>(const double*, const double*, const double*, const double);
template bool between<3, double>(const double*, const double*, const double*, const double);
template double distance<2, double>(const double*, const double*);
template double distance<3, double>(const double*, const double*);
template double dot<2, double>(const double*, const double*);
template double dot<3, double>(const double*, const double*);
template void unitVector<2, double>(double*);
template void unitVector<3, double>(double*);
template void cross<3, double>(const double*, const double*, double*);
template void closestPointOnSegment2D<double>(const double*, const double*, const double*, double*);
template bool pointInPolygon<double>(const double*, const unsigned, const double*);
template bool pointOnPolygon<double>(const double*, const unsigned, const double*);
}
template std::vector<KeyTraits::Key> mortonOrderIndices<Point2<KeyTraits::Key> >(const std::vector<Point2<KeyTraits::Key> >&);
template std::vector<KeyTraits::Key> mortonOrderIndices<Point3<KeyTraits::Key> >(const std::vector<Point3<KeyTraits::Key> >&);
}
