// Binding of the abstract data sets to the real code: an in-memory DataFetcher,
// a table GeoFilter, a cache directory writer and the request runner.
#pragma once
#include "model.hpp"
#include <memory>
#include <fstream>
#include <sys/stat.h>
#include <unistd.h>
#include <fcntl.h>
#include <boost/uuid/uuid.hpp>
#include <boost/uuid/uuid_io.hpp>
#include <boost/uuid/string_generator.hpp>
#include "spdlog/spdlog.h"
#include "data_fetcher.hpp"
#include "transit_data.hpp"
#include "calculator.hpp"
#include "parameters.hpp"
#include "geofilter.hpp"
#include "routing_result.hpp"
#include "result_to_v2.hpp"
#include "result_to_v2_accessibility.hpp"
#include "result_to_v2_summary.hpp"
#include "agency.hpp"
#include "service.hpp"
#include "scenario.hpp"
#include "line.hpp"
#include "path.hpp"
#include "node.hpp"
#include "trip.hpp"
#include "mode.hpp"
#include "point.hpp"
#include "person.hpp"
#include "od_trip.hpp"
#include "data_source.hpp"
#include "connection_set.hpp"

namespace vf {
namespace T = TrRouting;
using boost::uuids::uuid;
inline uuid mkUuid(int kind, int idx) {
  uuid u; unsigned char* b = u.data; memset(b, 0, 16);
  b[3] = 0xa0 + kind; b[6] = 0x40; b[8] = 0x80;
  b[12] = idx >> 24; b[13] = idx >> 16; b[14] = idx >> 8; b[15] = idx; return u;
}

class MemFetcher : public T::DataFetcher {
public:
  const DS& ds; bool exclude; // exclude: leave out the trips scenario 0 does not admit, and make scenario 0 all-inclusive (C11)
  MemFetcher(const DS& d, bool ex = false) : ds(d), exclude(ex) {}
  const std::map<string, T::Mode> getModes() override {
    std::map<string, T::Mode> m; for (int i = 0; i < 4; i++) m.emplace(MODE_SHORT[i], T::Mode(MODE_SHORT[i], MODE_NAME[i], i, 100 + i)); return m; }
  int getDataSources(std::map<uuid, T::DataSource>&, string) override { return 0; }
  int getPersons(std::map<uuid, T::Person>&, const std::map<uuid, T::DataSource>&, string) override { return 0; }
  int getOdTrips(std::map<uuid, T::OdTrip>&, const std::map<uuid, T::DataSource>&, const std::map<uuid, T::Person>&, const std::map<uuid, T::Node>&, string) override { return 0; }
  int getAgencies(std::map<uuid, T::Agency>& ts, string) override {
    for (int a = 0; a < ds.nAgencies; a++) { T::Agency x; x.uuid = mkUuid(K_AGENCY, a); x.acronym = agencyAcr(a); x.name = agencyName(a); ts[x.uuid] = x; } return 0; }
  int getServices(std::map<uuid, T::Service>& ts, string) override {
    for (int a = 0; a < ds.nServices; a++) { T::Service x; x.uuid = mkUuid(K_SERVICE, a); x.name = "Service " + to_string(a); ts[x.uuid] = x; } return 0; }
  int getNodes(std::map<uuid, T::Node>& ts, string) override {
    for (int s = 0; s < ds.ns; s++) { auto p = std::make_unique<T::Point>(); p->latitude = ds.stopLat(s); p->longitude = ds.stopLon(s); ts.emplace(mkUuid(K_STOP, s), T::Node(mkUuid(K_STOP, s), s, stopCode(s), stopName(s), "", std::move(p))); }
    for (int s = 0; s < ds.ns; s++) {
      T::Node& n = ts.at(mkUuid(K_STOP, s));
      if (!ds.selfLast) { n.transferableNodes.push_back(T::NodeTimeDistance(n, 0, 0)); n.reverseTransferableNodes.push_back(T::NodeTimeDistance(n, 0, 0)); }
      for (auto& f : ds.foot[s]) { T::Node& m = ts.at(mkUuid(K_STOP, f.to)); n.transferableNodes.push_back(T::NodeTimeDistance(m, f.time, f.dist)); m.reverseTransferableNodes.push_back(T::NodeTimeDistance(n, f.time, f.dist)); }
    }
    if (ds.selfLast) for (int s = 0; s < ds.ns; s++) { T::Node& n = ts.at(mkUuid(K_STOP, s)); n.transferableNodes.push_back(T::NodeTimeDistance(n, 0, 0)); n.reverseTransferableNodes.push_back(T::NodeTimeDistance(n, 0, 0)); }
    return 0; }
  int getLines(std::map<uuid, T::Line>& ts, const std::map<uuid, T::Agency>& ag, const std::map<string, T::Mode>& modes, string) override {
    for (size_t l = 0; l < ds.lines.size(); l++) ts.emplace(mkUuid(K_LINE, l), T::Line(mkUuid(K_LINE, l), ag.at(mkUuid(K_AGENCY, ds.lines[l].agency)), modes.at(MODE_SHORT[ds.lines[l].mode]), lineShort(l), lineLong(l), "", ds.lines[l].allowSame));
    return 0; }
  int getPaths(std::map<uuid, T::Path>& ts, const std::map<uuid, T::Line>& lines, const std::map<uuid, T::Node>& nodes, string) override {
    for (size_t p = 0; p < ds.paths.size(); p++) {
      vector<std::reference_wrapper<const T::Node>> nr; for (int s : ds.paths[p].stops) nr.push_back(nodes.at(mkUuid(K_STOP, s)));
      vector<std::reference_wrapper<const T::Trip>> tr; vector<int> times(nr.size(), 0);
      ts.emplace(mkUuid(K_PATH, p), T::Path(mkUuid(K_PATH, p), lines.at(mkUuid(K_LINE, ds.paths[p].line)), "outbound", "", nr, tr, times, ds.paths[p].dist));
    }
    return 0; }
  int getScenarios(std::map<uuid, T::Scenario>& ts, const std::map<uuid, T::Service>& sv, const std::map<uuid, T::Line>& ln, const std::map<uuid, T::Agency>& ag, const std::map<uuid, T::Node>&, const std::map<string, T::Mode>& md, string) override {
    for (size_t i = 0; i < ds.scen.size(); i++) { const ScenM& m = ds.scen[i]; T::Scenario& x = ts[mkUuid(K_SCEN, i)]; x.uuid = mkUuid(K_SCEN, i); x.name = "Scenario " + to_string(i); x.simulationUuid = uuid();
      if (exclude) { for (int k = 0; k < ds.nServices; k++) x.servicesList.push_back(sv.at(mkUuid(K_SERVICE, k))); continue; }
      for (int k : m.services) x.servicesList.push_back(sv.at(mkUuid(K_SERVICE, k)));
      for (int k : m.onlyLines) x.onlyLines.push_back(ln.at(mkUuid(K_LINE, k)));
      for (int k : m.exceptLines) x.exceptLines.push_back(ln.at(mkUuid(K_LINE, k)));
      for (int k : m.onlyAgencies) x.onlyAgencies.push_back(ag.at(mkUuid(K_AGENCY, k)));
      for (int k : m.exceptAgencies) x.exceptAgencies.push_back(ag.at(mkUuid(K_AGENCY, k)));
      for (int k : m.onlyModes) x.onlyModes.push_back(md.at(MODE_SHORT[k]));
      for (int k : m.exceptModes) x.exceptModes.push_back(md.at(MODE_SHORT[k]));
    }
    return 0; }
  int getSchedules(std::map<uuid, T::Trip>& trips, const std::map<uuid, T::Line>& lines, std::map<uuid, T::Path>& paths, const std::map<uuid, T::Service>& services, vector<T::Connection>& conns, string) override {
    trips.clear(); conns.clear();
    for (size_t k = 0; k < ds.trips.size(); k++) {
      if (exclude && !admits(ds, 0, k)) continue;
      const TripM& m = ds.trips[k]; T::Path& p = paths.at(mkUuid(K_PATH, m.path)); const T::Line& l = lines.at(mkUuid(K_LINE, ds.paths[m.path].line));
      trips.emplace(mkUuid(K_TRIP, k), T::Trip(mkUuid(K_TRIP, k), l.agency, l, p, l.mode, services.at(mkUuid(K_SERVICE, m.service)), l.allowSameLineTransfers, -1, -1));
      T::Trip& t = trips.at(mkUuid(K_TRIP, k)); p.tripsRef.push_back(t); t.connectionDepartureTimes.resize(m.arr.size());
      for (size_t i = 0; i + 1 < m.arr.size(); i++) {
        conns.push_back(T::Connection(p.nodesRef[i].get(), p.nodesRef[i + 1].get(), m.dep[i], m.arr[i + 1], t, m.bd[i], m.ub[i + 1], i + 1, t.allowSameLineTransfers, l.mode.isTransferable() ? 0 : -1));
        t.connectionDepartureTimes[i] = m.dep[i];
      }
    }
    return 0; }
};

class TableGeo : public T::GeoFilter {
public:
  const DS& ds; TableGeo(const DS& d) : ds(d) {}
  vector<T::NodeTimeDistance> getAccessibleNodesFootpathsFromPoint(const T::Point& pt, const std::map<uuid, T::Node>& nodes, int maxWalk, float, bool = false) override {
    vector<T::NodeTimeDistance> r; int best = -1; double bd = 1e9;
    for (size_t p = 0; p < ds.places.size(); p++) { double d = std::fabs(pt.latitude - ds.placeLat(p)) + std::fabs(pt.longitude - ds.placeLon(p)); if (d < bd) { bd = d; best = p; } }
    if (best < 0 || bd > 1e-3) return r;
    for (auto& f : ds.places[best]) if (f.time <= maxWalk) { auto it = nodes.find(mkUuid(K_STOP, f.to)); if (it != nodes.end()) r.push_back(T::NodeTimeDistance(it->second, f.time, f.dist)); }
    return r;
  }
};

// Same sequence of calls as the endpoint handlers of the server
inline json askRoute(const T::TransitData& td, T::GeoFilter& geo, vector<std::pair<string,string>> params) {
  try {
    T::RouteParameters p = T::RouteParameters::createRouteODParameter(params, td.getScenarios());
    try {
      T::Calculator calc(td, geo);
      if (p.isWithAlternatives()) { T::AlternativesResult a = calc.alternativesRouting(p); return T::ResultToV2Response::resultToJsonString(a, p); }
      auto res = calc.calculateSingle(p);
      if (!res) return json{{"status", "harness: null result"}};
      return T::ResultToV2Response::resultToJsonString(*res, p);
    } catch (T::NoRoutingFoundException& e) { return T::ResultToV2Response::noRoutingFoundResponse(p, e.getReason()); }
  } catch (T::ParameterException& e) { return json{{"status", "query_error"}, {"type", (int)e.getType()}}; }
  catch (std::exception& e) { return json{{"status", "exception"}, {"what", e.what()}}; }
}
inline json askSummary(const T::TransitData& td, T::GeoFilter& geo, vector<std::pair<string,string>> params) {
  try {
    T::RouteParameters p = T::RouteParameters::createRouteODParameter(params, td.getScenarios());
    try {
      T::Calculator calc(td, geo);
      if (p.isWithAlternatives()) { T::AlternativesResult a = calc.alternativesRouting(p); return T::ResultToV2SummaryResponse::resultToJsonString(a, p); }
      auto res = calc.calculateSingle(p);
      if (!res) return json{{"status", "harness: null result"}};
      return T::ResultToV2SummaryResponse::resultToJsonString(*res, p);
    } catch (T::NoRoutingFoundException& e) { return T::ResultToV2SummaryResponse::noRoutingFoundResponse(p, e.getReason()); }
  } catch (T::ParameterException& e) { return json{{"status", "query_error"}, {"type", (int)e.getType()}}; }
  catch (std::exception& e) { return json{{"status", "exception"}, {"what", e.what()}}; }
}
inline json askAcc(const T::TransitData& td, T::GeoFilter& geo, vector<std::pair<string,string>> params) {
  try {
    T::AccessibilityParameters p = T::AccessibilityParameters::createAccessibilityParameter(params, td.getScenarios());
    try {
      T::Calculator calc(td, geo);
      auto res = calc.calculateAllNodes(p);
      if (!res) return json{{"status", "harness: null result"}};
      return T::ResultToV2AccessibilityResponse::resultToJsonString(*res, p);
    } catch (T::NoRoutingFoundException& e) { return T::ResultToV2AccessibilityResponse::noRoutingFoundResponse(p, e.getReason()); }
  } catch (T::ParameterException& e) { return json{{"status", "query_error"}, {"type", (int)e.getType()}}; }
  catch (std::exception& e) { return json{{"status", "exception"}, {"what", e.what()}}; }
}

// A data set loaded into the real code
struct Sys {
  MemFetcher fetcher; T::TransitData td; TableGeo geo; const DS& ds;
  Sys(const DS& d, bool cacheAll = false, bool exclude = false) : fetcher(d, exclude), td(fetcher, cacheAll), geo(d), ds(d) {}
  json ask(const Q& q) { return q.acc ? askAcc(td, geo, queryParams(ds, q)) : askRoute(td, geo, queryParams(ds, q)); }
  json askSum(const Q& q) { return askSummary(td, geo, queryParams(ds, q)); }
};
} // namespace vf
