// Serialises an abstract data set to the Cap'n Proto cache files, with the
// schema classes only (no code of the repository), and loads it through the
// real CacheFetcher.
#pragma once
#include "data.hpp"
#include <capnp/message.h>
#include <capnp/serialize-packed.h>
#include <kj/io.h>
#include "capnp/agencyCollection.capnp.h"
#include "capnp/serviceCollection.capnp.h"
#include "capnp/nodeCollection.capnp.h"
#include "capnp/node.capnp.h"
#include "capnp/lineCollection.capnp.h"
#include "capnp/line.capnp.h"
#include "capnp/pathCollection.capnp.h"
#include "capnp/scenarioCollection.capnp.h"
#include "capnp/dataSourceCollection.capnp.h"
#include "capnp/personCollection.capnp.h"
#include "capnp/odTripCollection.capnp.h"
#include <dirent.h>

namespace vf {
typedef std::map<string, string> Files; // relative path -> content

inline string packMessage(::capnp::MallocMessageBuilder& m) {
  kj::VectorOutputStream os; ::capnp::writePackedMessage(os, m); auto a = os.getArray(); return string((const char*)a.begin(), a.size());
}
template <class F> inline void texts(F init, const vector<string>& v) { if (v.empty()) return; auto l = init(v.size()); for (size_t i = 0; i < v.size(); i++) l.set(i, v[i].c_str()); }

struct EncodeOpts { bool dataSources = false; int selfPos = 0; /* position of a stop's own footpath: 0 first, 1 last, 2 middle */ };

inline Files encodeCache(const DS& ds, EncodeOpts o = EncodeOpts()) {
  Files out;
  { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<agencyCollection::AgencyCollection>().initAgencies(ds.nAgencies);
    for (int i = 0; i < ds.nAgencies; i++) { l[i].setUuid(uuidStr(K_AGENCY, i)); l[i].setAcronym(agencyAcr(i)); l[i].setName(agencyName(i)); l[i].setInternalId("a" + to_string(i)); l[i].setIsEnabled(1); } out["agencies.capnpbin"] = packMessage(m); }
  { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<serviceCollection::ServiceCollection>().initServices(ds.nServices);
    for (int i = 0; i < ds.nServices; i++) { l[i].setUuid(uuidStr(K_SERVICE, i)); l[i].setName("Service " + to_string(i)); l[i].setMonday(1); } out["services.capnpbin"] = packMessage(m); }
  { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<nodeCollection::NodeCollection>().initNodes(ds.ns);
    for (int i = 0; i < ds.ns; i++) { l[i].setUuid(uuidStr(K_STOP, i)); l[i].setId(i + 1); l[i].setCode(stopCode(i)); l[i].setName(stopName(i)); l[i].setLatitude((int)std::llround(ds.stopLat(i) * 1e6)); l[i].setLongitude((int)std::llround(ds.stopLon(i) * 1e6)); l[i].setIsEnabled(1); } out["nodes.capnpbin"] = packMessage(m); }
  for (int i = 0; i < ds.ns; i++) {
    ::capnp::MallocMessageBuilder m; auto n = m.initRoot<node::Node>(); n.setUuid(uuidStr(K_STOP, i)); n.setCode(stopCode(i)); n.setName(stopName(i));
    vector<Foot> f = ds.foot[i]; int pos = ds.selfLast || o.selfPos == 1 ? f.size() : o.selfPos == 2 ? f.size() / 2 : 0; f.insert(f.begin() + pos, Foot{i, 0, 0});
    auto u = n.initTransferableNodesUuids(f.size()); auto t = n.initTransferableNodesTravelTimes(f.size()); auto d = n.initTransferableNodesDistances(f.size());
    for (size_t k = 0; k < f.size(); k++) { u.set(k, uuidStr(K_STOP, f[k].to)); t.set(k, f[k].time); d.set(k, f[k].dist); }
    out["nodes/node_" + uuidStr(K_STOP, i) + ".capnpbin"] = packMessage(m);
  }
  { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<lineCollection::LineCollection>().initLines(ds.lines.size());
    for (size_t i = 0; i < ds.lines.size(); i++) { l[i].setUuid(uuidStr(K_LINE, i)); l[i].setAgencyUuid(uuidStr(K_AGENCY, ds.lines[i].agency)); l[i].setMode(MODE_SHORT[ds.lines[i].mode]); l[i].setShortname(lineShort(i)); l[i].setLongname(lineLong(i)); l[i].setAllowSameLineTransfers(ds.lines[i].allowSame); l[i].setIsEnabled(1); } out["lines.capnpbin"] = packMessage(m); }
  { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<pathCollection::PathCollection>().initPaths(ds.paths.size());
    for (size_t i = 0; i < ds.paths.size(); i++) { const PathM& p = ds.paths[i]; l[i].setUuid(uuidStr(K_PATH, i)); l[i].setLineUuid(uuidStr(K_LINE, p.line)); l[i].setDirection(i % 2 ? "inbound" : "outbound");
      json segs = json::array(); for (size_t k = 0; k + 1 < p.stops.size(); k++) { json s; if (k < p.dist.size() && p.dist[k] >= 0) s["distanceMeters"] = p.dist[k]; s["travelTimeSeconds"] = 60; segs.push_back(s); }
      l[i].setData(json{{"segments", segs}}.dump()); vector<string> u; for (int s : p.stops) u.push_back(uuidStr(K_STOP, s)); auto pp = l[i]; texts([&](size_t n) { return pp.initNodesUuids(n); }, u); } out["paths.capnpbin"] = packMessage(m); }
  { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<scenarioCollection::ScenarioCollection>().initScenarios(ds.scen.size());
    for (size_t i = 0; i < ds.scen.size(); i++) { const ScenM& s = ds.scen[i]; auto x = l[i]; x.setUuid(uuidStr(K_SCEN, i)); x.setName("Scenario " + to_string(i)); x.setIsEnabled(1);
      auto U = [](int kind, const vector<int>& v) { vector<string> r; for (int k : v) r.push_back(uuidStr(kind, k)); return r; }; auto M = [](const vector<int>& v) { vector<string> r; for (int k : v) r.push_back(MODE_SHORT[k]); return r; };
      texts([&](size_t n) { return x.initServicesUuids(n); }, U(K_SERVICE, s.services));
      texts([&](size_t n) { return x.initOnlyLinesUuids(n); }, U(K_LINE, s.onlyLines)); texts([&](size_t n) { return x.initExceptLinesUuids(n); }, U(K_LINE, s.exceptLines));
      texts([&](size_t n) { return x.initOnlyAgenciesUuids(n); }, U(K_AGENCY, s.onlyAgencies)); texts([&](size_t n) { return x.initExceptAgenciesUuids(n); }, U(K_AGENCY, s.exceptAgencies));
      texts([&](size_t n) { return x.initOnlyNodesUuids(n); }, U(K_STOP, s.onlyNodes)); texts([&](size_t n) { return x.initExceptNodesUuids(n); }, U(K_STOP, s.exceptNodes));
      texts([&](size_t n) { return x.initOnlyModesShortnames(n); }, M(s.onlyModes)); texts([&](size_t n) { return x.initExceptModesShortnames(n); }, M(s.exceptModes)); } out["scenarios.capnpbin"] = packMessage(m); }
  for (size_t l = 0; l < ds.lines.size(); l++) {
    ::capnp::MallocMessageBuilder m; auto x = m.initRoot<line::Line>(); x.setUuid(uuidStr(K_LINE, l)); x.setMode(MODE_SHORT[ds.lines[l].mode]); x.setAgencyUuid(uuidStr(K_AGENCY, ds.lines[l].agency)); x.setShortname(lineShort(l)); x.setLongname(lineLong(l));
    std::map<int, vector<int>> bySv; for (size_t k = 0; k < ds.trips.size(); k++) if (ds.lineOf(k) == (int)l) bySv[ds.trips[k].service].push_back(k);
    auto sl = x.initSchedules(bySv.size()); size_t si = 0;
    for (auto& e : bySv) {
      auto s = sl[si++]; s.setUuid(uuidStr(K_OTHER, l * 16 + e.first)); s.setServiceUuid(uuidStr(K_SERVICE, e.first)); s.setPeriodsGroupShortname("default");
      // the first trip alone in a first period, the others in a second one
      size_t np = e.second.size() > 1 ? 2 : 1; auto pl = s.initPeriods(np); size_t done = 0;
      for (size_t p = 0; p < np; p++) { size_t cnt = p == 0 ? 1 : e.second.size() - 1; auto tl = pl[p].initTrips(cnt); pl[p].setPeriodShortname("p" + to_string(p));
        for (size_t k = 0; k < cnt; k++) { int tk = e.second[done++]; const TripM& t = ds.trips[tk]; auto y = tl[k]; y.setUuid(uuidStr(K_TRIP, tk)); y.setPathUuid(uuidStr(K_PATH, t.path)); y.setDepartureTimeSeconds(t.dep[0]); y.setArrivalTimeSeconds(t.arr.back()); y.setTotalCapacity(50); y.setSeatedCapacity(20);
          size_t n = t.arr.size(); auto a = y.initNodeArrivalTimesSeconds(n); auto d = y.initNodeDepartureTimesSeconds(n); auto b = y.initNodesCanBoard(n); auto ub = y.initNodesCanUnboard(n);
          for (size_t q = 0; q < n; q++) { a.set(q, t.arr[q]); d.set(q, t.dep[q]); b.set(q, t.bd[q]); ub.set(q, t.ub[q]); } } }
    }
    out["lines/line_" + uuidStr(K_LINE, l) + ".capnpbin"] = packMessage(m);
  }
  { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<dataSourceCollection::DataSourceCollection>().initDataSources(o.dataSources ? 1 : 0);
    if (o.dataSources) { l[0].setUuid(uuidStr(K_DS, 0)); l[0].setType(dataSource::DataSource::Type::OD_TRIPS); l[0].setShortname("od"); l[0].setName("od trips"); } out["dataSources.capnpbin"] = packMessage(m); }
  if (o.dataSources) {
    string dir = "dataSources/" + uuidStr(K_DS, 0) + "/";
    { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<personCollection::PersonCollection>().initPersons(1); l[0].setUuid(uuidStr(K_OTHER, 900)); l[0].setDataSourceUuid(uuidStr(K_DS, 0)); l[0].setId(1); l[0].setExpansionFactor(1.5); out[dir + "persons.capnpbin"] = packMessage(m); out[dir + "persons.capnpbin.count"] = "1"; }
    { ::capnp::MallocMessageBuilder m; auto l = m.initRoot<odTripCollection::OdTripCollection>().initOdTrips(1); auto x = l[0]; x.setUuid(uuidStr(K_OTHER, 901)); x.setPersonUuid(uuidStr(K_OTHER, 900)); x.setDataSourceUuid(uuidStr(K_DS, 0)); x.setId(1); x.setDepartureTimeSeconds(28800); x.setOriginLatitude(45500000); x.setOriginLongitude(-73500000); x.setDestinationLatitude(45510000); x.setDestinationLongitude(-73510000);
      auto u = x.initOriginNodesUuids(1); u.set(0, uuidStr(K_STOP, 0)); auto t = x.initOriginNodesTravelTimes(1); t.set(0, 60); auto d = x.initOriginNodesDistances(1); d.set(0, 61);
      auto u2 = x.initDestinationNodesUuids(1); u2.set(0, uuidStr(K_STOP, 1)); auto t2 = x.initDestinationNodesTravelTimes(1); t2.set(0, 60); auto d2 = x.initDestinationNodesDistances(1); d2.set(0, 61);
      out[dir + "odTrips.capnpbin"] = packMessage(m); out[dir + "odTrips.capnpbin.count"] = "1"; }
  }
  return out;
}

inline void writeFile(const string& path, const string& data) { int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) throw std::runtime_error("cannot write " + path); size_t o = 0; while (o < data.size()) { ssize_t n = write(fd, data.data() + o, data.size() - o); if (n <= 0) { close(fd); throw std::runtime_error("short write to " + path); } o += n; } close(fd); }
inline void makeDirs(const string& base, const string& rel) { for (size_t p = rel.find('/'); p != string::npos; p = rel.find('/', p + 1)) mkdir((base + "/" + rel.substr(0, p)).c_str(), 0755); }
inline void writeDir(const string& base, const Files& f) { mkdir(base.c_str(), 0755); for (auto& x : f) { makeDirs(base, x.first); writeFile(base + "/" + x.first, x.second); } }
// removes exactly the files written by writeDir and the directories made for them
inline void removeDir(const string& base, const Files& f) {
  std::set<string> dirs; for (auto& x : f) { unlink((base + "/" + x.first).c_str()); for (size_t p = x.first.find('/'); p != string::npos; p = x.first.find('/', p + 1)) dirs.insert(x.first.substr(0, p)); }
  for (auto it = dirs.rbegin(); it != dirs.rend(); ++it) rmdir((base + "/" + *it).c_str()); rmdir(base.c_str());
}
} // namespace vf
