// Further header-only templates, for the extractor only.
#include "polytope.hh"
#include "Point.hh"
#include "ReducedPLC.hh"
#include "polytope_internal.hh"
#include "polytope_geometric_utilities.hh"
#include "IntPointMap.hh"
#include "bisectSearch.hh"
#include "PLC_CSG_2d.hh"
#include "PLC_CSG_3d.hh"
namespace polytope {
template Point2<KeyTraits::Key>::Point2(const double&, const double&, const double&, const unsigned);
template Point3<KeyTraits::Key>::Point3(const double&, const double&, const double&, const double&, const unsigned);
template double Point2<KeyTraits::Key>::realx<double>(const double&, const double&) const;
template double Point2<KeyTraits::Key>::realy<double>(const double&, const double&) const;
template double Point3<KeyTraits::Key>::realx<double>(const double&, const double&) const;
template double Point3<KeyTraits::Key>::realy<double>(const double&, const double&) const;
template double Point3<KeyTraits::Key>::realz<double>(const double&, const double&) const;
template struct internal::IntPointMap<2, KeyTraits::Key>;
template struct internal::IntPointMap<3, KeyTraits::Key>;
template struct internal::ComparePairByFirstElement<int, int>;
template struct internal::ComparePairBySecondElement<int, int>;
template int bisectSearch<double>(const std::vector<double>&, const double&);
namespace CSG {
template ReducedPLC<2, double> csg_union<double>(const ReducedPLC<2, double>&, const ReducedPLC<2, double>&);
template ReducedPLC<2, double> csg_intersect<double>(const ReducedPLC<2, double>&, const ReducedPLC<2, double>&);
template ReducedPLC<2, double> csg_subtract<double>(const ReducedPLC<2, double>&, const ReducedPLC<2, double>&);
template ReducedPLC<3, double> csg_union<double>(const ReducedPLC<3, double>&, const ReducedPLC<3, double>&);
template ReducedPLC<3, double> csg_intersect<double>(const ReducedPLC<3, double>&, const ReducedPLC<3, double>&);
template ReducedPLC<3, double> csg_subtract<double>(const ReducedPLC<3, double>&, const ReducedPLC<3, double>&);
}
}
