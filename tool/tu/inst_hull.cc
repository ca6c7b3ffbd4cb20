#include "polytope.hh"
#include "ReducedPLC.hh"
#include "polytope_internal.hh"
#include "polytope_geometric_utilities.hh"
#include "convexHull_2d.hh"
#include "convexHull_3d.hh"
#include "simplifyPLCfacets.hh"
#include "polytope_write_OOGL.hh"
#include "convexIntersect.hh"
#include "convexWithin.hh"
namespace polytope {
template PLC<2, double> convexHull_2d<double>(const std::vector<double>&, const double*, const double&);
template PLC<3, double> convexHull_3d<double>(const std::vector<double>&, const double*, const double&);
template ReducedPLC<2, double> simplifyPLCfacets<double>(const PLC<2, double>&, const std::vector<double>&, const double*, const double*, const double);
template ReducedPLC<3, double> simplifyPLCfacets<double>(const PLC<3, double>&, const std::vector<double>&, const double*, const double*, const double);
template bool convexIntersect<double>(const ReducedPLC<2, double>&, const ReducedPLC<2, double>&);
template bool convexIntersect<double>(const ReducedPLC<3, double>&, const ReducedPLC<3, double>&);
template void writePLCtoOFF<double>(const PLC<2, double>&, const std::vector<double>&, const std::string);
template void writePLCtoOFF<double>(const PLC<3, double>&, const std::vector<double>&, const std::string);
}
