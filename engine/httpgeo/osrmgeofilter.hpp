// The walking router of the harness: whatever g_geo says (default: no stop).
#ifndef VF_OSRMGEOFILTER
#define VF_OSRMGEOFILTER
#include "geofilter.hpp"
#include "point.hpp"
#include "node.hpp"
namespace vfhttp { extern TrRouting::GeoFilter* g_geo; }
namespace TrRouting {
class OsrmGeoFilter : public GeoFilter {
public:
  template <class... A> explicit OsrmGeoFilter(A&&...) {}
  template <class... A> static auto call(A&&... a) { return vfhttp::g_geo->getAccessibleNodesFootpathsFromPoint(std::forward<A>(a)...); }
  std::vector<NodeTimeDistance> getAccessibleNodesFootpathsFromPoint(const Point& p, const std::map<boost::uuids::uuid, Node>& n, int m, float w, bool r = false) override { return call(p, n, m, w, r); }
};
}
#endif
