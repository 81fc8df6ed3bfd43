// Abstract transit data sets, the reference model over them and the itinerary
// validator.  Nothing in this file uses code of the repository: it is the
// oracle side of every check.
#pragma once
#include <cstdint>
#include <climits>
#include <cmath>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <sstream>
#include <algorithm>
#include <nlohmann/json.hpp>

namespace vf {
using nlohmann::json;
using std::string;
using std::vector;
using std::to_string;

enum Prop { C01=1, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16, C17, C18, C19, C20 };
inline string propName(int p) { char b[8]; snprintf(b, sizeof b, "C%02d", p); return b; }

struct Foot { int to, time, dist; };
struct LineM { int agency = 0; int mode = 0; int allowSame = 1; };
struct PathM { int line = 0; vector<int> stops; vector<int> dist; };
struct TripM { int path = 0; int service = 0; vector<int> arr, dep; vector<char> bd, ub; int block = -1; };
struct ScenM { vector<int> services, onlyLines, onlyModes, onlyAgencies, exceptLines, exceptModes, exceptAgencies; vector<int> onlyNodes, exceptNodes; };
static const char* const MODE_SHORT[] = {"bus", "rail", "transferable", "tram"};
static const char* const MODE_NAME[]  = {"Bus", "Rail", "Transferable", "Tram"};
static const int MODE_TRANSFERABLE = 2;

struct DS {
  int ns = 0;                       // stops
  vector<vector<Foot>> foot;        // outgoing footpaths of each stop, without the stop itself
  int nAgencies = 1, nServices = 1;
  vector<LineM> lines;
  vector<PathM> paths;
  vector<TripM> trips;
  vector<ScenM> scen;
  vector<vector<Foot>> places;      // the walking router's table: place -> stops
  vector<std::pair<double,double>> placeCoord; // optional: real coordinates (lat, lon) of the places
  vector<std::pair<double,double>> stopCoord;  // optional
  bool euclid = false;              // the walking router is the real bird-distance one (harness over the whole server only)
  bool osrm = false;                // the walking router is the client of the table service (harness over the whole server only)
  bool selfLast = false;            // the stop's own footpath entry comes last instead of first
  int stopCount() const { return ns; }
  void init(int n) { ns = n; foot.assign(n, {}); }
  bool strict = false; // no domain restriction (the data sets of the recorded findings)
  bool transferable(int trip) const { return lines[paths[trips[trip].path].line].mode == MODE_TRANSFERABLE; }
  int lineOf(int trip) const { return paths[trips[trip].path].line; }
  double stopLat(int s) const { return stopCoord.empty() ? 45.0 + s * 0.001 : stopCoord[s].first; }
  double stopLon(int s) const { return stopCoord.empty() ? -73.0 - s * 0.002 : stopCoord[s].second; }
  double placeLat(int p) const { return placeCoord.empty() ? 45.5 + p * 0.01 : placeCoord[p].first; }
  double placeLon(int p) const { return placeCoord.empty() ? -73.5 - p * 0.01 : placeCoord[p].second; }
};

// names and codes are not unique (only the uuids are), and need escaping in JSON
inline string stopName(int s) { return "Stop " + to_string(s / 2) + (s / 2 == 1 ? " \"d\xc3\xa9p\xc3\xb4t\" \\ a/b" : ""); }
inline string stopCode(int s) { return "S" + to_string(s % 3 == 2 ? 0 : s); }
inline int lineNameIdx(int l) { return l % 6 == 5 ? l - 1 : l; }
inline string lineShort(int l) { return "L" + to_string(lineNameIdx(l) / 2); }
inline string lineLong(int l) { return "Line number " + to_string(lineNameIdx(l) & ~2); }
inline string agencyAcr(int a) { return "AG" + to_string(a / 2); }
inline string agencyName(int a) { return "Agency " + to_string(a & ~2); }

// uuids: kind digit + index; order by index within a kind
enum Kind { K_STOP=1, K_LINE, K_PATH, K_TRIP, K_SERVICE, K_AGENCY, K_SCEN, K_DS, K_OTHER };
inline string uuidStr(int kind, int idx) {
  char b[40]; snprintf(b, sizeof b, "%08x-0000-4000-8000-%012x", 0xa0 + kind, idx); return b;
}
inline int hexv(char c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
// index of a uuid of the given kind, or -1
inline int uuidIdx(int kind, const string& s) {
  if (s.size() != 36) return -1;
  string want = uuidStr(kind, 0);
  if (s.compare(0, 24, want, 0, 24) != 0) return -1;
  int v = 0;
  for (int i = 24; i < 36; i++) { if (!isxdigit((unsigned char)s[i])) return -1; v = v * 16 + hexv(s[i]); }
  return v;
}

const int OMIT = INT_MIN;
// One request to /v2/route or /v2/accessibility
struct Q {
  bool acc = false;       // accessibility
  bool fwd = true;
  int orig = 0, dest = 1; // places (accessibility: orig is the place)
  int t = 0;
  int scen = 0;
  int mw = OMIT, maxTotal = OMIT, maxAcc = OMIT, maxEgr = OMIT, maxTr = OMIT, maxFirst = OMIT;
  bool alt = false;
};
// The values the documentation gives to the parameters
struct Eff { long long t; long long mw, maxTotal, maxAcc, maxEgr, maxTr, maxFirst; bool fwd; };
const long long NOLIM = LLONG_MAX / 4;
inline Eff effective(const Q& q) {
  Eff e; e.t = q.t; e.fwd = q.fwd;
  e.mw = q.mw == OMIT ? 180 : (q.mw < 0 ? 0 : q.mw);
  auto lim = [](int v, long long d) -> long long { return v == OMIT ? d : v <= 0 ? NOLIM : v; };
  e.maxTotal = lim(q.maxTotal, NOLIM);
  e.maxAcc = lim(q.maxAcc, 1200); e.maxEgr = lim(q.maxEgr, 1200); e.maxTr = lim(q.maxTr, 1200);
  e.maxFirst = q.maxFirst == OMIT ? 1800 : q.maxFirst <= 0 ? -1 : q.maxFirst;
  return e;
}
inline vector<std::pair<string,string>> queryParams(const DS& ds, const Q& q) {
  vector<std::pair<string,string>> v;
  auto pt = [&](int p) { char b[80]; snprintf(b, sizeof b, "%.6f,%.6f", ds.placeLon(p), ds.placeLat(p)); return string(b); };
  if (q.acc) v.push_back({"place", pt(q.orig)});
  else { v.push_back({"origin", pt(q.orig)}); v.push_back({"destination", pt(q.dest)}); }
  v.push_back({"scenario_id", uuidStr(K_SCEN, q.scen)});
  v.push_back({"time_of_trip", to_string(q.t)});
  v.push_back({"time_type", q.fwd ? "0" : "1"});
  if (q.mw != OMIT) v.push_back({"min_waiting_time", to_string(q.mw)});
  if (q.maxTotal != OMIT) v.push_back({"max_travel_time", to_string(q.maxTotal)});
  if (q.maxAcc != OMIT) v.push_back({"max_access_travel_time", to_string(q.maxAcc)});
  if (q.maxEgr != OMIT) v.push_back({"max_egress_travel_time", to_string(q.maxEgr)});
  if (q.maxTr != OMIT) v.push_back({"max_transfer_travel_time", to_string(q.maxTr)});
  if (q.maxFirst != OMIT) v.push_back({"max_first_waiting_time", to_string(q.maxFirst)});
  if (!q.acc && q.alt) v.push_back({"alternatives", "true"});
  return v;
}
inline string queryString(const DS& ds, const Q& q) {
  string s = q.acc ? "/v2/accessibility?" : "/v2/route?"; bool first = true;
  for (auto& p : queryParams(ds, q)) { if (!first) s += "&"; first = false; s += p.first + "=" + p.second; }
  return s;
}

inline bool has(const vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
inline bool admits(const DS& ds, int scen, int trip) {
  const ScenM& s = ds.scen[scen];
  int line = ds.lineOf(trip), mode = ds.lines[line].mode, ag = ds.lines[line].agency;
  if (!has(s.services, ds.trips[trip].service)) return false;
  if (!s.onlyLines.empty() && !has(s.onlyLines, line)) return false;
  if (!s.onlyModes.empty() && !has(s.onlyModes, mode)) return false;
  if (!s.onlyAgencies.empty() && !has(s.onlyAgencies, ag)) return false;
  if (has(s.exceptLines, line) || has(s.exceptModes, mode) || has(s.exceptAgencies, ag)) return false;
  return true;
}

struct Counters { uint64_t states = 0, transitions = 0; };
extern Counters g_cnt;

const long long INF = LLONG_MAX / 8;
// Reference model.  One ride = board one trip at a stop it serves, alight at a
// later one; one footpath (or staying) between two rides.  Both directions are
// computed as fixpoints over all trips in any order: no sorted scan, no early
// termination, no index.
struct Model {
  const DS& ds; Eff e; vector<int> trips; // admitted
  Model(const DS& d, const Q& q) : ds(d), e(effective(q)) {
    for (size_t k = 0; k < d.trips.size(); k++) if (admits(d, q.scen, k)) trips.push_back(k);
  }
  long long mw(int trip) const { return ds.transferable(trip) ? 0 : e.mw; }
  vector<Foot> within(int place, long long lim) const {
    vector<Foot> r; for (auto& f : ds.places[place]) if (f.time <= lim) r.push_back(f); return r;
  }
  // earliest times: ready[s] to stand at s, V[s] to alight a vehicle at s
  void forward(const vector<Foot>& A, vector<long long>& ready, vector<long long>& V) const {
    ready.assign(ds.ns, INF); V.assign(ds.ns, INF);
    for (auto& a : A) ready[a.to] = std::min(ready[a.to], e.t + a.time);
    for (bool ch = true; ch;) {
      ch = false;
      for (int k : trips) {
        const TripM& tr = ds.trips[k]; const auto& st = ds.paths[tr.path].stops; bool on = false; long long m = mw(k);
        for (size_t i = 0; i < st.size(); i++) {
          int s = st[i];
          if (on && tr.ub[i]) {
            g_cnt.transitions++;
            if (tr.arr[i] < V[s]) { V[s] = tr.arr[i]; ch = true; g_cnt.states++; }
            if (tr.arr[i] < ready[s]) { ready[s] = tr.arr[i]; ch = true; g_cnt.states++; }
            for (auto& f : ds.foot[s]) if (f.time <= e.maxTr && (long long)tr.arr[i] + f.time < ready[f.to]) { ready[f.to] = (long long)tr.arr[i] + f.time; ch = true; g_cnt.states++; g_cnt.transitions++; }
          }
          if (i + 1 < st.size() && tr.bd[i] && ready[s] < INF && ready[s] + m <= tr.dep[i]) on = true;
        }
      }
    }
  }
  // latest time to be standing at s and still board a vehicle there and make it by T
  void backward(const vector<Foot>& G, long long T, vector<long long>& lat) const {
    lat.assign(ds.ns, -INF); vector<long long> need(ds.ns, -INF);
    for (auto& g : G) need[g.to] = std::max(need[g.to], T - g.time);
    vector<vector<std::pair<int,int>>> rev(ds.ns);
    for (int s = 0; s < ds.ns; s++) for (auto& f : ds.foot[s]) if (f.time <= e.maxTr) rev[f.to].push_back({s, f.time});
    for (bool ch = true; ch;) {
      ch = false;
      for (int k : trips) {
        const TripM& tr = ds.trips[k]; const auto& st = ds.paths[tr.path].stops; bool ok = false; long long m = mw(k);
        for (int i = (int)st.size() - 1; i >= 0; i--) {
          int s = st[i];
          if (ok && tr.bd[i]) {
            long long l = tr.dep[i] - m; g_cnt.transitions++;
            if (l > lat[s]) { lat[s] = l; ch = true; g_cnt.states++; }
            if (l > need[s]) { need[s] = l; ch = true; }
            for (auto& f : rev[s]) if (l - f.second > need[f.first]) { need[f.first] = l - f.second; ch = true; g_cnt.states++; g_cnt.transitions++; }
          }
          if (i > 0 && tr.ub[i] && tr.arr[i] <= need[s]) ok = true;
        }
      }
    }
  }
};

// Domain restrictions of C03-C05, C08-C10
inline bool positiveHops(const DS& ds) { for (auto& t : ds.trips) for (size_t i = 0; i + 1 < t.arr.size(); i++) if (t.arr[i + 1] <= t.dep[i]) return false; return true; }
// hops that take no time are ordered all the same if no other trip can be boarded at the same moment
inline bool nonNegativeHops(const DS& ds) { for (auto& t : ds.trips) for (size_t i = 0; i < t.arr.size(); i++) { if (i + 1 < t.arr.size() && t.arr[i + 1] < t.dep[i]) return false; if (t.dep[i] < t.arr[i]) return false; } return true; }
inline bool uniformWaiting(const DS& ds, const Q& q) { for (size_t k = 0; k < ds.trips.size(); k++) if (ds.transferable(k) && admits(ds, q.scen, k)) return false; return true; }
// two hops of different trips that take no time at the same moment: the single pass over the connections may meet them in the wrong order
inline bool simultaneousHops(const DS& ds, const Q& q) {
  std::map<int,size_t> at; for (size_t k = 0; k < ds.trips.size(); k++) { if (!admits(ds, q.scen, k)) continue; auto& t = ds.trips[k]; for (size_t i = 0; i + 1 < t.arr.size(); i++) if (t.arr[i + 1] == t.dep[i]) { auto x = at.insert({t.dep[i], k}); if (!x.second && x.first->second != k) return true; } }
  return false;
}
inline bool ordered(const DS& ds, const Q& q) { return ds.strict || positiveHops(ds) || (nonNegativeHops(ds) && ((effective(q).mw >= 1 && uniformWaiting(ds, q)) || !simultaneousHops(ds, q))); }

struct Report {
  unsigned want = 0; // bit per property
  vector<std::pair<int,string>> bad;
  bool wants(int p) const { return want >> p & 1; }
  void fail(int p, const string& m) { if (wants(p)) bad.push_back({p, m}); }
};

// A violated expectation with its location
#define VF_EQ(prop, what, got, exp) do { long long g_ = (got), e_ = (exp); if (g_ != e_) r.fail(prop, string(what) + " is " + to_string(g_) + ", expected " + to_string(e_)); } while (0)

struct RouteFacts { long long dep = 0, arr = 0; vector<int> lines; int legs = 0; bool ok = false; };

inline long long num(const json& j, const char* k) {
  const json& v = j.at(k);
  if (!v.is_number_integer()) throw std::runtime_error(string(k) + " is not an integer: " + v.dump());
  return v.get<long long>();
}

// C01, C02, C06 (and names/distances under C16) on one route object.
inline RouteFacts validateRoute(const DS& ds, const Q& q, const json& route, Report& r, bool names = false) {
  RouteFacts out; Eff e = effective(q);
  int P1 = C01; 
  try {
    const json& steps = route.at("steps");
    out.dep = num(route, "departureTime"); out.arr = num(route, "arrivalTime");
    if (!steps.is_array() || steps.size() < 4 || (steps.size() - 4) % 3 != 0) { r.fail(C01, "steps do not alternate walk (ride walk)*: " + to_string(steps.size()) + " steps"); return out; }
    size_t legs = (steps.size() - 1) / 3; out.legs = legs;
    long long clock = out.dep; // C06 chain
    int prevStop = -1; long long prevArr = 0;
    long long wlTime = 0, wlDist = 0; int wlRides = 0; long long inVeh = 0, inVehDist = 0, trWalk = 0, trWalkDist = 0, wait = 0, firstWait = 0, trWait = 0; int boardings = 0; bool distKnown = true, vehDistKnown = true, walkLike = false;
    long long accT = 0, accD = 0, egT = 0, egD = 0, totDist = 0;
    for (size_t l = 0; l <= legs; l++) {
      const json& w = steps[l * 3];
      if (w.at("action") != "walking") { r.fail(C01, "step " + to_string(l * 3) + " should be a walk"); return out; }
      string type = w.at("type"), wtype = l == 0 ? "access" : l == legs ? "egress" : "transfer";
      if (type != wtype) { r.fail(C01, "walk " + to_string(l) + " has type " + type + ", expected " + wtype); }
      long long tt = num(w, "travelTime"), wd = num(w, "departureTime"), wa = num(w, "arrivalTime"), dist = num(w, "distance");
      VF_EQ(C06, "departure of walk " + to_string(l), wd, clock);
      VF_EQ(C06, "arrival of walk " + to_string(l), wa, wd + tt);
      if (tt < 0) r.fail(C01, "negative walk");
      int nextStop = -1, bTrip = -1; size_t bi = 0;
      if (l < legs) {
        const json& b = steps[l * 3 + 1], &u = steps[l * 3 + 2];
        if (b.at("action") != "boarding" || u.at("action") != "unboarding") { r.fail(C01, "ride " + to_string(l) + " is not a boarding and an unboarding"); return out; }
        nextStop = uuidIdx(K_STOP, b.at("nodeUuid").get<string>());
        bTrip = uuidIdx(K_TRIP, b.at("tripUuid").get<string>());
        if (nextStop < 0 || nextStop >= ds.ns || bTrip < 0 || bTrip >= (int)ds.trips.size()) { r.fail(C01, "unknown stop or trip boarded"); return out; }
        (void)bi;
      }
      // the walk joins the stops it claims to join
      if (l == 0) {
        bool found = false;
        for (auto& f : ds.places[q.orig]) if (f.to == nextStop) { found = true; if (f.time != tt) r.fail(C01, "access walk takes " + to_string(tt) + ", the router says " + to_string(f.time)); if (f.dist != dist) { r.fail(C06, "access distance"); r.fail(C16, "access distance"); } }
        if (!found) r.fail(C01, "the router offers no access to the first stop");
        if (tt > e.maxAcc) r.fail(C02, "access walk longer than the maximum");
        accT = tt; accD = dist;
      } else if (l == legs) {
        bool found = false;
        for (auto& f : ds.places[q.dest]) if (f.to == prevStop) { found = true; if (f.time != tt) r.fail(C01, "egress walk takes " + to_string(tt) + ", the router says " + to_string(f.time)); if (f.dist != dist) { r.fail(C06, "egress distance"); r.fail(C16, "egress distance"); } }
        if (!found) r.fail(C01, "the router offers no egress from the last stop");
        if (tt > e.maxEgr) r.fail(C02, "egress walk longer than the maximum");
        egT = tt; egD = dist;
      } else {
        if (prevStop == nextStop) { if (tt != 0) r.fail(C01, "transfer at one stop takes " + to_string(tt)); }
        else {
          bool found = false;
          for (auto& f : ds.foot[prevStop]) if (f.to == nextStop && f.time == tt) { found = true; if (f.dist != dist) { r.fail(C06, "transfer distance " + to_string(dist) + " expected " + to_string(f.dist)); r.fail(C16, "transfer distance"); } }
          if (!found) r.fail(C01, "no footpath of " + to_string(tt) + " s from stop " + to_string(prevStop) + " to stop " + to_string(nextStop));
        }
        if (tt > e.maxTr) r.fail(C02, "transfer walk longer than the maximum");
        trWalk += tt; trWalkDist += dist;
      }
      totDist += dist;
      if (l == legs) {
        VF_EQ(C06, "arrivalTime", out.arr, wa);
        // the true clock, whatever the steps claim
        if (out.arr != prevArr + tt) r.fail(C01, "arrivalTime " + to_string(out.arr) + " is not the last alighting " + to_string(prevArr) + " plus the egress walk " + to_string(tt));
        break;
      }
      const json& b = steps[l * 3 + 1], &u = steps[l * 3 + 2];
      const TripM& tr = ds.trips[bTrip]; const PathM& pa = ds.paths[tr.path];
      int line = pa.line; bool transferable = ds.transferable(bTrip);
      if (uuidIdx(K_TRIP, u.at("tripUuid").get<string>()) != bTrip) { r.fail(C01, "boards one trip and alights another"); return out; }
      int uStop = uuidIdx(K_STOP, u.at("nodeUuid").get<string>());
      long long bDep = num(b, "departureTime"), uArr = num(u, "arrivalTime"), bw = num(b, "waitingTime");
      long long bSeq = num(b, "stopSequenceInTrip"), uSeq = num(u, "stopSequenceInTrip");
      if (bSeq < 1 || uSeq <= bSeq || uSeq > (long long)pa.stops.size()) { r.fail(C01, "stop sequence " + to_string(bSeq) + ".." + to_string(uSeq) + " outside the trip"); return out; }
      size_t i = bSeq - 1, j = uSeq - 1;
      if (pa.stops[i] != nextStop) r.fail(C01, "trip does not serve the boarding stop at that position");
      if (pa.stops[j] != uStop) r.fail(C01, "trip does not serve the alighting stop at that position");
      if (tr.dep[i] != bDep) r.fail(C01, "boards at " + to_string(bDep) + ", scheduled " + to_string(tr.dep[i]));
      if (tr.arr[j] != uArr) r.fail(C01, "alights at " + to_string(uArr) + ", scheduled " + to_string(tr.arr[j]));
      if (!tr.bd[i]) r.fail(C01, "boarding is not permitted there");
      if (!tr.ub[j]) r.fail(C01, "alighting is not permitted there");
      if (!admits(ds, q.scen, bTrip)) r.fail(C02, "the scenario does not admit trip " + to_string(bTrip));
      long long m = transferable ? 0 : e.mw;
      long long realArrival = (l == 0 ? out.dep : prevArr) + tt; // arrival at the boarding stop
      if (realArrival + m > bDep) r.fail(C01, "boards at " + to_string(bDep) + " having arrived at " + to_string(realArrival) + " with a minimum waiting time of " + to_string(m));
      VF_EQ(C06, "readyToBoardAt of walk " + to_string(l), num(w, "readyToBoardAt"), wa + m);
      VF_EQ(C06, "waitingTime of boarding " + to_string(l), bw, bDep - wa);
      VF_EQ(C06, "inVehicleTime of ride " + to_string(l), num(u, "inVehicleTime"), uArr - bDep);
      wait += bw; if (l == 0) firstWait = bw; else trWait += bw;
      if (l == 0 && q.fwd && e.maxFirst > 0 && bDep - (e.t + tt) > e.maxFirst) r.fail(C02, "waits " + to_string(bDep - (e.t + tt)) + " at the first stop, more than " + to_string(e.maxFirst));
      long long d = 0; bool known = true;
      for (size_t s = i; s < j; s++) { if (s < pa.dist.size() && pa.dist[s] >= 0) d += pa.dist[s]; else known = false; }
      long long gd = num(u, "inVehicleDistance");
      if (known ? gd != d : gd != -1) { string msg = "inVehicleDistance is " + to_string(gd) + ", expected " + to_string(known ? d : -1); r.fail(C06, msg); r.fail(C16, msg); }
      if (transferable) { walkLike = true; wlTime += uArr - bDep; wlRides++; if (known) wlDist += d; trWalk += uArr - bDep; if (known) { trWalkDist += d; totDist += d; } else { distKnown = false; vehDistKnown = false; } }
      else { boardings++; inVeh += uArr - bDep; if (known) { inVehDist += d; totDist += d; } else { distKnown = false; vehDistKnown = false; } }
      out.lines.push_back(line);
      if (names) {
        auto same = [&](const json& o, const char* k, const string& v) { if (!o.contains(k) || o.at(k) != v) r.fail(C16, string(k) + " is " + (o.contains(k) ? o.at(k).dump() : "absent") + ", expected " + v); };
        for (int w2 = 0; w2 < 2; w2++) {
          const json& o = w2 ? u : b; int s = w2 ? uStop : nextStop;
          same(o, "lineUuid", uuidStr(K_LINE, line)); same(o, "lineShortname", lineShort(line)); same(o, "lineLongname", lineLong(line));
          same(o, "agencyUuid", uuidStr(K_AGENCY, ds.lines[line].agency)); same(o, "agencyAcronym", agencyAcr(ds.lines[line].agency)); same(o, "agencyName", agencyName(ds.lines[line].agency));
          same(o, "pathUuid", uuidStr(K_PATH, tr.path)); same(o, "mode", MODE_SHORT[ds.lines[line].mode]);
          same(o, "nodeName", stopName(s)); same(o, "nodeCode", stopCode(s));
          const json& c = o.at("nodeCoordinates");
          if (std::fabs(c.at(0).get<double>() - ds.stopLon(s)) > 1e-5 || std::fabs(c.at(1).get<double>() - ds.stopLat(s)) > 1e-5) r.fail(C16, "coordinates of stop " + to_string(s) + " are " + c.dump());
        }
      }
      prevStop = uStop; prevArr = uArr; clock = uArr;
    }
    // totals
    long long total = num(route, "totalTravelTime");
    VF_EQ(C06, "totalTravelTime", total, out.arr - out.dep);
    VF_EQ(C06, "sum of the parts (access, egress, transfer walks, in vehicle, waiting) vs totalTravelTime", num(route, "accessTravelTime") + num(route, "egressTravelTime") + num(route, "transferWalkingTime") + num(route, "totalInVehicleTime") + num(route, "totalWaitingTime"), total);
    VF_EQ(C06, "totalWaitingTime vs first + transfer", num(route, "totalWaitingTime"), num(route, "firstWaitingTime") + num(route, "transferWaitingTime"));
    VF_EQ(C06, "totalWaitingTime", num(route, "totalWaitingTime"), wait);
    if (!walkLike) VF_EQ(C06, "firstWaitingTime", num(route, "firstWaitingTime"), firstWait);
    if (!walkLike) VF_EQ(C06, "transferWaitingTime", num(route, "transferWaitingTime"), trWait);
    if (!walkLike) VF_EQ(C06, "totalInVehicleTime", num(route, "totalInVehicleTime"), inVeh);
    VF_EQ(C06, "accessTravelTime", num(route, "accessTravelTime"), accT);
    VF_EQ(C06, "egressTravelTime", num(route, "egressTravelTime"), egT);
    if (!walkLike) VF_EQ(C06, "transferWalkingTime", num(route, "transferWalkingTime"), trWalk);
    if (!walkLike) VF_EQ(C06, "totalNonTransitTravelTime", num(route, "totalNonTransitTravelTime"), accT + egT + trWalk);
    VF_EQ(C06, "accessDistance", num(route, "accessDistance"), accD);
    VF_EQ(C06, "egressDistance", num(route, "egressDistance"), egD);
    if (!walkLike) VF_EQ(C06, "transferWalkingDistance", num(route, "transferWalkingDistance"), trWalkDist);
    if (!walkLike) VF_EQ(C06, "totalNonTransitDistance", num(route, "totalNonTransitDistance"), accD + egD + trWalkDist);
    if (!walkLike) VF_EQ(C06, "totalInVehicleDistance", num(route, "totalInVehicleDistance"), vehDistKnown ? inVehDist : -1);
    if (!walkLike) VF_EQ(C06, "totalDistance", num(route, "totalDistance"), distKnown ? totDist : -1);
    if (!walkLike) VF_EQ(C06, "numberOfBoardings", num(route, "numberOfBoardings"), boardings);
    if (!walkLike) VF_EQ(C06, "numberOfTransfers", num(route, "numberOfTransfers"), boardings > 0 ? boardings - 1 : 0);
    if (walkLike) { // a ride of the walking-like mode counts as a walk or as a vehicle, but as the same in every total
      long long tw = num(route, "transferWalkingTime"), iv = num(route, "totalInVehicleTime"), nb = num(route, "numberOfBoardings"), td = num(route, "transferWalkingDistance"), vd = num(route, "totalInVehicleDistance");
      bool asWalk = tw == trWalk && iv == inVeh && nb == boardings && (!distKnown || (td == trWalkDist && vd == inVehDist));
      bool asRide = tw == trWalk - wlTime && iv == inVeh + wlTime && nb == boardings + wlRides && (!distKnown || (td == trWalkDist - wlDist && vd == inVehDist + wlDist));
      if (!asWalk && !asRide) r.fail(C06, "transferWalkingTime " + to_string(tw) + ", totalInVehicleTime " + to_string(iv) + ", numberOfBoardings " + to_string(nb) + ", distances " + to_string(td) + " and " + to_string(vd) + " are not the sums over the steps, whichever way a ride of the walking-like mode counts");
      VF_EQ(C06, "totalNonTransitTravelTime", num(route, "totalNonTransitTravelTime"), accT + egT + tw);
      VF_EQ(C06, "totalNonTransitDistance", num(route, "totalNonTransitDistance"), accD + egD + td);
      if (distKnown) VF_EQ(C06, "totalDistance", num(route, "totalDistance"), totDist);
      VF_EQ(C06, "numberOfTransfers", num(route, "numberOfTransfers"), nb > 0 ? nb - 1 : 0);
    }
    // limits
    if (q.fwd) {
      if (out.dep < e.t) r.fail(C02, "leaves at " + to_string(out.dep) + ", before " + to_string(e.t));
      if (out.arr - e.t > e.maxTotal) r.fail(C02, "arrives " + to_string(out.arr - e.t) + " after the requested departure, more than " + to_string(e.maxTotal));
    } else {
      if (out.arr > e.t) r.fail(C02, "arrives at " + to_string(out.arr) + ", after " + to_string(e.t));
      if (e.t - out.dep > e.maxTotal) r.fail(C02, "leaves " + to_string(e.t - out.dep) + " before the requested arrival, more than " + to_string(e.maxTotal));
    }
    out.ok = true; std::sort(out.lines.begin(), out.lines.end());
  } catch (std::exception& ex) { r.fail(P1, string("malformed route: ") + ex.what()); r.fail(C06, string("malformed route: ") + ex.what()); }
  return out;
}

inline string statusOf(const json& j) { return j.contains("status") && j.at("status").is_string() ? j.at("status").get<string>() : string("?"); }
inline string reasonOf(const json& j) { return j.contains("reason") && j.at("reason").is_string() ? j.at("reason").get<string>() : string(); }

struct Expect {            // what the model says about one request
  bool noAcc = false, noEgr = false;   // access / egress empty
  bool service = false;      // a boarding (alighting) at an accessible stop exists within the limits
  bool serviceMaybe = false; // ... only under a wider reading
  long long best = INF;      // optimal arrival (departure)
  bool capped = false;       // first-waiting cap in force: optimum not decided
};

inline Expect expectRoute(const DS& ds, const Q& q, Model& m) {
  Expect x; Eff& e = m.e;
  auto A = m.within(q.orig, e.maxAcc), G = m.within(q.dest, e.maxEgr);
  x.noAcc = A.empty(); x.noEgr = G.empty(); x.capped = q.fwd && e.maxFirst > 0;
  if (x.noAcc || x.noEgr) return x;
  if (q.fwd) {
    for (int k : m.trips) { const TripM& tr = ds.trips[k]; const auto& st = ds.paths[tr.path].stops;
      for (size_t i = 0; i + 1 < st.size(); i++) if (tr.bd[i]) for (auto& a : A) if (a.to == st[i]) {
        long long at = e.t + a.time;
        if (at + m.mw(k) <= tr.dep[i] && tr.dep[i] - e.t <= e.maxTotal && (e.maxFirst <= 0 || tr.dep[i] - at <= e.maxFirst)) x.service = true;
      } }
    vector<long long> ready, V; m.forward(A, ready, V);
    for (auto& g : G) if (V[g.to] < INF && V[g.to] + g.time - e.t <= e.maxTotal) x.best = std::min(x.best, V[g.to] + g.time);
  } else {
    for (int k : m.trips) { const TripM& tr = ds.trips[k]; const auto& st = ds.paths[tr.path].stops;
      bool boardable = false;
      for (size_t j = 1; j < st.size(); j++) { boardable |= tr.bd[j-1]; if (tr.ub[j]) for (auto& g : G) if (g.to == st[j]) {
        if (tr.arr[j] <= e.t - g.time && e.t - tr.arr[j] <= e.maxTotal) { x.serviceMaybe = true; if (boardable) x.service = true; }
      } } }
    vector<long long> lat; m.backward(G, e.t, lat); x.best = -INF;
    for (auto& a : A) if (lat[a.to] > -INF) { long long d = lat[a.to] - a.time; if (d >= 0 && e.t - d <= e.maxTotal) x.best = std::max(x.best, d); }
  }
  return x;
}

// All the per-answer properties of a route answer (C01-C07)
inline void checkRouteAnswer(const DS& ds, const Q& q, const json& a, Report& r, bool names = false) {
  string st = statusOf(a);
  if (st != "success" && st != "no_routing_found") { for (int p = C01; p <= C16; p++) if (r.wants(p)) r.fail(p, "unexpected answer " + a.dump().substr(0, 300)); return; }
  bool needModel = r.wants(C03) || r.wants(C04) || r.wants(C05) || r.wants(C07) || r.wants(C16);
  RouteFacts first; bool any = false;
  if (st == "success") {
    try {
      const json& routes = a.at("result").at("routes");
      if (!routes.is_array() || routes.empty()) { for (int p : {C01, C03, C04}) r.fail(p, "success without a route"); return; }
      for (size_t i = 0; i < routes.size(); i++) { RouteFacts f = validateRoute(ds, q, routes[i], r, names); if (i == 0) { first = f; any = true; } }
    } catch (std::exception& ex) { r.fail(C01, string("malformed answer: ") + ex.what()); return; }
  }
  if (!needModel) return;
  Model m(ds, q); Expect x = expectRoute(ds, q, m);
  bool access = !x.noAcc && !x.noEgr;
  bool feasible = access && (q.fwd ? x.best < INF : x.best > -INF);
  bool optimal = ordered(ds, q), uniform = uniformWaiting(ds, q);
  if (q.fwd && !x.capped && optimal) {
    for (int p : {C03, C16}) {
      if (feasible && st != "success") r.fail(p, "no route (" + reasonOf(a) + ") although one arrives at " + to_string(x.best));
      if (!feasible && st == "success") r.fail(p, "a route although no journey is admissible");
      if (feasible && any && first.arr != x.best) r.fail(p, "arrives at " + to_string(first.arr) + ", the earliest arrival is " + to_string(x.best));
    }
    if (uniform && any && feasible && (r.wants(C05) || r.wants(C16))) {
      auto A = m.within(q.orig, m.e.maxAcc), G = m.within(q.dest, m.e.maxEgr); vector<long long> lat; m.backward(G, first.arr, lat);
      long long best = -INF; for (auto& f : A) if (lat[f.to] > -INF && lat[f.to] - f.time >= m.e.t) best = std::max(best, lat[f.to] - f.time);
      for (int p : {C05, C16}) if (best != first.dep) r.fail(p, "leaves at " + to_string(first.dep) + " and arrives at " + to_string(first.arr) + "; the latest departure for that arrival is " + to_string(best));
    }
  }
  if (!q.fwd && optimal && uniform) for (int p : {C04, C16}) {
    if (feasible && st != "success") r.fail(p, "no route (" + reasonOf(a) + ") although one leaves at " + to_string(x.best));
    if (!feasible && st == "success") r.fail(p, "a route although no journey is admissible");
    if (feasible && any && first.dep != x.best) r.fail(p, "leaves at " + to_string(first.dep) + ", the latest departure is " + to_string(x.best));
  }
  if (st == "no_routing_found") for (int p : {C07, C16}) if (r.wants(p)) {
    string reason = reasonOf(a); std::set<string> ok;
    if (x.noAcc && x.noEgr) ok = {"NO_ACCESS_AT_ORIGIN_AND_DESTINATION"};
    else if (x.noAcc) ok = {"NO_ACCESS_AT_ORIGIN"};
    else if (x.noEgr) ok = {"NO_ACCESS_AT_DESTINATION"};
    else if (q.fwd) ok = {x.service ? "NO_ROUTING_FOUND" : "NO_SERVICE_FROM_ORIGIN"};
    else { if (x.service) ok = {"NO_ROUTING_FOUND"}; else if (x.serviceMaybe) ok = {"NO_ROUTING_FOUND", "NO_SERVICE_TO_DESTINATION"}; else ok = {"NO_SERVICE_TO_DESTINATION"}; }
    if (!ok.count(reason)) r.fail(p, "reason " + reason + ", expected " + *ok.begin());
  }
}

// C07-C09 on an accessibility answer
inline void checkAccAnswer(const DS& ds, const Q& q, const json& a, Report& r, bool names = false) {
  string st = statusOf(a); int P = q.fwd ? C08 : C09;
  if (st != "success" && st != "no_routing_found") { for (int p = C01; p <= C16; p++) if (r.wants(p)) r.fail(p, "unexpected answer " + a.dump().substr(0, 300)); return; }
  Model m(ds, q); Eff& e = m.e;
  auto A = m.within(q.orig, q.fwd ? e.maxAcc : e.maxEgr);
  bool service = false, serviceMaybe = false, capped = (q.fwd && e.maxFirst > 0) || !ordered(ds, q) || (!q.fwd && !uniformWaiting(ds, q));
  std::map<int,long long> exp, optional; // stop -> nodeTime
  if (!A.empty()) {
    if (q.fwd) {
      for (int k : m.trips) { const TripM& tr = ds.trips[k]; const auto& sv = ds.paths[tr.path].stops;
        for (size_t i = 0; i + 1 < sv.size(); i++) if (tr.bd[i]) for (auto& f : A) if (f.to == sv[i]) { long long at = e.t + f.time;
          if (at + m.mw(k) <= tr.dep[i] && tr.dep[i] - e.t <= e.maxTotal && (e.maxFirst <= 0 || tr.dep[i] - at <= e.maxFirst)) service = true; } }
      vector<long long> ready, V; m.forward(A, ready, V);
      for (int s = 0; s < ds.ns; s++) if (V[s] < INF && V[s] - e.t <= e.maxTotal) exp[s] = V[s];
    } else {
      for (int k : m.trips) { const TripM& tr = ds.trips[k]; const auto& sv = ds.paths[tr.path].stops; bool boardable = false;
        for (size_t j = 1; j < sv.size(); j++) { boardable |= tr.bd[j-1]; if (tr.ub[j]) for (auto& f : A) if (f.to == sv[j] && tr.arr[j] <= e.t - f.time && e.t - tr.arr[j] <= e.maxTotal) { serviceMaybe = true; if (boardable) service = true; } } }
      vector<long long> lat; m.backward(A, e.t, lat);
      for (int s = 0; s < ds.ns; s++) if (lat[s] > -INF && e.t - lat[s] <= e.maxTotal) { if (lat[s] >= 0) exp[s] = lat[s]; else optional[s] = lat[s]; }
    }
  }
  if (st == "no_routing_found") {
    string reason = reasonOf(a);
    for (int p : {C07, C16}) {
      std::set<string> ok;
      if (A.empty()) ok = {"NO_ACCESS_AT_PLACE"};
      else if (service) ok = {"NO_ROUTING_FOUND"};
      else if (serviceMaybe) ok = {"NO_ROUTING_FOUND", "NO_SERVICE_AT_PLACE"};
      else ok = {"NO_SERVICE_AT_PLACE"};
      if (!ok.count(reason)) r.fail(p, "accessibility reason " + reason + ", expected " + *ok.begin());
    }
    if (!capped && !exp.empty()) { r.fail(P, "no stop listed (" + reason + ") although " + to_string(exp.size()) + " can be reached"); r.fail(C16, "no stop listed although some can be reached"); }
    return;
  }
  // success
  for (int p : {C07, C16}) { if (A.empty()) r.fail(p, "success although the router offers no stop"); else if (!service && !serviceMaybe) r.fail(p, "success although there is no service at the place"); }
  try {
    const json& res = a.at("result");
    for (int p : {P, (int)C16}) VF_EQ(p, "totalNodeCount", num(res, "totalNodeCount"), ds.ns);
    std::set<int> seen;
    for (auto& n : res.at("nodes")) {
      int s = uuidIdx(K_STOP, n.at("nodeUuid").get<string>());
      long long t = num(n, "nodeTime"), tt = num(n, "totalTravelTime");
      for (int p : {P, (int)C16}) {
        if (s < 0 || s >= ds.ns) { r.fail(p, "unknown stop listed"); continue; }
        if (seen.count(s)) r.fail(p, "stop " + to_string(s) + " is listed twice");
        if (q.fwd) VF_EQ(p, "totalTravelTime of stop " + to_string(s), tt, t - e.t); else VF_EQ(p, "totalTravelTime of stop " + to_string(s), tt, e.t - t);
        if (!capped) {
          if (exp.count(s)) VF_EQ(p, "nodeTime of stop " + to_string(s), t, exp[s]);
          else if (optional.count(s)) VF_EQ(p, "nodeTime of stop " + to_string(s), t, optional[s]);
          else r.fail(p, "stop " + to_string(s) + " is listed at " + to_string(t) + " but is not reachable");
        }
      }
      seen.insert(s);
      if (names && s >= 0 && s < ds.ns) {
        if (n.at("nodeName") != stopName(s) || n.at("nodeCode") != stopCode(s)) r.fail(C16, "wrong name or code of stop " + to_string(s));
        const json& c = n.at("nodeCoordinates");
        if (std::fabs(c.at(0).get<double>() - ds.stopLon(s)) > 1e-5 || std::fabs(c.at(1).get<double>() - ds.stopLat(s)) > 1e-5) r.fail(C16, "coordinates of stop " + to_string(s) + " are " + c.dump());
      }
    }
    if (!capped) for (auto& x : exp) if (!seen.count(x.first)) { string msg = "stop " + to_string(x.first) + " is not listed, nodeTime should be " + to_string(x.second); r.fail(P, msg); r.fail(C16, msg); }
  } catch (std::exception& ex) { r.fail(P, string("malformed answer: ") + ex.what()); r.fail(C16, string("malformed answer: ") + ex.what()); }
}

// C10: alternatives answer vs the plain answer to the same query
inline void checkAlternatives(const DS& ds, const Q& q, const json& plain, const json& alt, Report& r) {
  if (statusOf(plain) != statusOf(alt)) { r.fail(C10, "status " + statusOf(alt) + " with alternatives, " + statusOf(plain) + " without"); return; }
  if (statusOf(alt) != "success") { if (reasonOf(plain) != reasonOf(alt)) r.fail(C10, "reason " + reasonOf(alt) + " with alternatives, " + reasonOf(plain) + " without"); return; }
  try {
    const json& routes = alt.at("result").at("routes"); const json& p0 = plain.at("result").at("routes").at(0);
    if (routes.empty()) { r.fail(C10, "no route"); return; }
    if (routes.at(0) != p0) r.fail(C10, "the first route differs from the plain answer");
    if (routes.size() > 50) r.fail(C10, to_string(routes.size()) + " routes");
    if (num(alt.at("result"), "totalRoutesCalculated") < (long long)routes.size()) r.fail(C10, "totalRoutesCalculated " + to_string(num(alt.at("result"), "totalRoutesCalculated")) + " below the number of routes " + to_string(routes.size()));
    bool provable = ordered(ds, q) && uniformWaiting(ds, q) && !(q.fwd && effective(q).maxFirst > 0);
    std::set<vector<int>> seen; long long dep0 = num(routes.at(0), "departureTime"), arr0 = num(routes.at(0), "arrivalTime");
    for (size_t i = 0; i < routes.size(); i++) {
      Report sub; sub.want = 1u << C01 | 1u << C02 | 1u << C06; Q plainQ = q; plainQ.alt = false;
      RouteFacts f = validateRoute(ds, plainQ, routes[i], sub);
      if (i > 0) for (auto& b : sub.bad) r.fail(C10, "route " + to_string(i) + ": " + propName(b.first) + " " + b.second);
      if (!f.ok) continue;
      if (!seen.insert(f.lines).second) r.fail(C10, "route " + to_string(i) + " boards the same lines as another one");
      if (provable && q.fwd && f.arr < arr0) r.fail(C10, "route " + to_string(i) + " arrives before the first");
      if (provable && !q.fwd && f.dep > dep0) r.fail(C10, "route " + to_string(i) + " leaves after the first");
    }
  } catch (std::exception& ex) { r.fail(C10, string("malformed answer: ") + ex.what()); }
}

// the objective fields of an answer (C11)
inline json objective(const json& a) {
  json o; o["status"] = statusOf(a); o["reason"] = reasonOf(a);
  if (a.contains("result")) {
    const json& res = a.at("result");
    if (res.contains("routes") && !res.at("routes").empty()) { o["arr"] = res["routes"][0].value("arrivalTime", -999); o["dep"] = res["routes"][0].value("departureTime", -999); }
    if (res.contains("nodes")) { std::map<string,json> m; for (auto& n : res["nodes"]) m[n.value("nodeUuid", "")] = {n.value("nodeTime", -999), n.value("totalTravelTime", -999)}; o["nodes"] = m; o["count"] = res.value("totalNodeCount", -1); }
  }
  return o;
}
// the answer with every clock time moved by -off (C12)
inline json unshift(const json& a, long long off, bool top = true) {
  static const std::set<string> clocks = {"departureTime", "arrivalTime", "readyToBoardAt", "nodeTime", "timeOfTrip"};
  if (a.is_object()) { json o = json::object(); for (auto it = a.begin(); it != a.end(); ++it) { if (clocks.count(it.key()) && it.value().is_number_integer()) o[it.key()] = it.value().get<long long>() - off; else o[it.key()] = unshift(it.value(), off, false); } return o; }
  if (a.is_array()) { json o = json::array(); for (auto& x : a) o.push_back(unshift(x, off, false)); return o; }
  return a;
}
// largest and smallest clock value of an answer
inline void clockRange(const json& a, long long& lo, long long& hi) {
  static const std::set<string> clocks = {"departureTime", "arrivalTime", "readyToBoardAt", "nodeTime", "timeOfTrip"};
  if (a.is_object()) { for (auto it = a.begin(); it != a.end(); ++it) { if (clocks.count(it.key()) && it.value().is_number_integer()) { long long v = it.value().get<long long>(); lo = std::min(lo, v); hi = std::max(hi, v); } else clockRange(it.value(), lo, hi); } }
  else if (a.is_array()) for (auto& x : a) clockRange(x, lo, hi);
}

inline json dumpDS(const DS& ds) {
  json j; j["stops"] = ds.ns; j["footpaths"] = json::array();
  for (int s = 0; s < ds.ns; s++) for (auto& f : ds.foot[s]) j["footpaths"].push_back({{"from", s}, {"to", f.to}, {"time", f.time}, {"distance", f.dist}});
  for (size_t i = 0; i < ds.lines.size(); i++) j["lines"].push_back({{"agency", ds.lines[i].agency}, {"mode", MODE_SHORT[ds.lines[i].mode]}});
  for (auto& p : ds.paths) j["paths"].push_back({{"line", p.line}, {"stops", p.stops}, {"distances", p.dist}});
  for (auto& t : ds.trips) { vector<int> b(t.bd.begin(), t.bd.end()), u(t.ub.begin(), t.ub.end()); j["trips"].push_back({{"path", t.path}, {"service", t.service}, {"arrivals", t.arr}, {"departures", t.dep}, {"canBoard", b}, {"canUnboard", u}}); }
  if (ds.scen.size() <= 8) for (auto& s : ds.scen) j["scenarios"].push_back({{"services", s.services}, {"onlyLines", s.onlyLines}, {"onlyModes", s.onlyModes}, {"onlyAgencies", s.onlyAgencies}, {"exceptLines", s.exceptLines}, {"exceptModes", s.exceptModes}, {"exceptAgencies", s.exceptAgencies}});
  for (auto& p : ds.places) { json a = json::array(); for (auto& f : p) a.push_back({{"stop", f.to}, {"time", f.time}, {"distance", f.dist}}); j["places"].push_back(a); }
  return j;
}

// C19: what the summary of a query must be, given the answer of the route endpoint
inline void checkSummary(const DS& ds, const Q& q, const json& route, const json& sum, Report& r) {
  string s = statusOf(route);
  if (s != "success" && s != "no_routing_found") { if (statusOf(sum) != s) r.fail(C19, "the route endpoint answers " + route.dump().substr(0, 100) + ", the summary " + sum.dump().substr(0, 100)); return; }
  try {
    if (statusOf(sum) != "success") { r.fail(C19, "the route endpoint answers with status " + s + ", the summary with " + sum.dump().substr(0, 200)); return; }
    size_t n = 0; std::map<string, long> want;
    if (s == "success") { const json& rs = route.at("result").at("routes"); n = rs.size();
      for (auto& x : rs) for (auto& st : x.at("steps")) if (st.at("action") == "boarding") want[st.at("lineUuid").get<string>()]++; }
    const json& res = sum.at("result");
    if (!res.at("nbRoutes").is_number_integer() || res.at("nbRoutes").get<long long>() != (long long)n) r.fail(C19, "nbRoutes is " + res.at("nbRoutes").dump() + " but /v2/route returns " + to_string(n) + " routes");
    std::map<string, long> got; if (!res.at("lines").is_array()) r.fail(C19, "lines is not an array");
    for (auto& l : res.at("lines")) {
      string u = l.at("lineUuid"); if (got.count(u)) r.fail(C19, "line " + u + " is listed twice"); got[u] = l.at("alternativeCount").get<long>();
      int k = uuidIdx(K_LINE, u); if (k < 0 || k >= (int)ds.lines.size()) { r.fail(C19, "unknown line " + u); continue; }
      int a = ds.lines[k].agency; auto is = [&](const char* f, const string& w) { if (l.at(f) != w) r.fail(C19, string(f) + " of line " + u + " is " + l.at(f).dump() + ", expected " + w); };
      is("lineShortname", lineShort(k)); is("lineLongname", lineLong(k)); is("agencyUuid", uuidStr(K_AGENCY, a)); is("agencyAcronym", agencyAcr(a)); is("agencyName", agencyName(a));
    }
    if (got != want) r.fail(C19, "lines of the summary " + json(got).dump() + "; boardings over the routes of /v2/route " + json(want).dump());
  } catch (std::exception& e) { r.fail(C19, string("unexpected shape of the summary: ") + e.what() + ": " + sum.dump().substr(0, 300)); }
}
} // namespace vf
