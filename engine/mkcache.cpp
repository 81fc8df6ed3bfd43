// Writes the cache files of a data set described in JSON (for demonstrations).
#include "cachedir.hpp"
#include <iostream>
using namespace vf;
int main(int argc, char** argv) {
  json j; std::cin >> j; DS ds; ds.init(j.at("stops").size());
  for (auto& s : j["stops"]) ds.stopCoord.push_back({s[0], s[1]});
  for (auto& f : j.value("foot", json::array())) ds.foot[f[0].get<int>()].push_back({f[1], f[2], f[3]});
  ds.nAgencies = j.value("agencies", 1); ds.nServices = j.value("services", 1);
  for (auto& l : j["lines"]) { LineM m; m.agency = l.value("agency", 0); m.mode = l.value("mode", 0); ds.lines.push_back(m); }
  for (auto& p : j["paths"]) { PathM m; m.line = p["line"]; m.stops = p["stops"].get<vector<int>>(); m.dist = p.value("dist", vector<int>(m.stops.size() - 1, 1000)); ds.paths.push_back(m); }
  for (auto& t : j["trips"]) { TripM m; m.path = t["path"]; m.service = t.value("service", 0); m.arr = t["arr"].get<vector<int>>(); m.dep = t.value("dep", m.arr); size_t n = m.arr.size(); for (int b : t.value("bd", vector<int>(n, 1))) m.bd.push_back(b); for (int b : t.value("ub", vector<int>(n, 1))) m.ub.push_back(b); ds.trips.push_back(m); }
  for (auto& s : j["scen"]) { ScenM m; auto g = [&](const char* k) { return s.value(k, vector<int>()); }; m.services = g("services"); m.onlyLines = g("onlyLines"); m.onlyModes = g("onlyModes"); m.onlyAgencies = g("onlyAgencies"); m.exceptLines = g("exceptLines"); m.exceptModes = g("exceptModes"); m.exceptAgencies = g("exceptAgencies"); ds.scen.push_back(m); }
  EncodeOpts o; o.dataSources = j.value("dataSources", false); writeDir(argv[1], encodeCache(ds, o)); return 0; }
