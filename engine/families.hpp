// Enumerated families of data sets and queries.  Every family is a finite,
// fully indexed space; nothing is drawn at random.
#pragma once
#include "model.hpp"
#include <functional>

namespace vf {
struct Radix { uint64_t v; int take(uint64_t n) { int r = v % n; v /= n; return r; } };

struct TripSpec { vector<int> stops; int dep = 0, seg = 1, dwell = 0; int noBoard = -1, noUnboard = -1; int seg2 = -1; };
const int U = 60; // time unit of the small families, s

inline void addTrip(DS& d, const TripSpec& t, int base, int line = -1, int unit = U, int service = 0, bool withDist = true) {
  if (line < 0) { line = d.lines.size(); d.lines.push_back(LineM()); }
  PathM p; p.line = line; p.stops = t.stops;
  if (withDist) for (size_t i = 0; i + 1 < t.stops.size(); i++) p.dist.push_back(100 * (line + 1) + 7 * (int)i + t.stops[i]);
  TripM m; m.path = d.paths.size(); m.service = service; int clock = base + t.dep * unit;
  for (size_t i = 0; i < t.stops.size(); i++) {
    m.arr.push_back(clock); if (i > 0 && i + 1 < t.stops.size()) clock += t.dwell * unit; m.dep.push_back(clock);
    if (i + 1 < t.stops.size()) clock += (t.seg2 >= 0 && i > 0 ? t.seg2 : t.seg) * unit;
    m.bd.push_back((int)i != t.noBoard); m.ub.push_back((int)i != t.noUnboard);
  }
  d.paths.push_back(p); d.trips.push_back(m);
}
inline void allScenario(DS& d) { ScenM s; for (int i = 0; i < d.nServices; i++) s.services.push_back(i); d.scen.push_back(s); }
inline Q route(bool fwd, int o, int de, int t, int mw = 60) { Q q; q.fwd = fwd; q.orig = o; q.dest = de; q.t = t; q.mw = mw; q.maxFirst = 0; return q; }
inline Q acc(bool fwd, int p, int t, int mw = 60) { Q q; q.acc = true; q.fwd = fwd; q.orig = p; q.t = t; q.mw = mw; q.maxFirst = 0; return q; }

struct Family {
  string name, what;
  uint64_t n = 0;
  std::function<bool(uint64_t, DS&)> build;                               // false: index unused
  std::function<void(uint64_t, const DS&, vector<Q>&)> queries;
  int shifts = 1; // C12: how many offsets
  int batch = 250;
};

// all sequences of the given length over n stops without immediate repetition
inline void sequences(int n, int len, vector<vector<int>>& out) {
  vector<int> cur; std::function<void()> rec = [&]() { if ((int)cur.size() == len) { out.push_back(cur); return; } for (int s = 0; s < n; s++) if (cur.empty() || cur.back() != s) { cur.push_back(s); rec(); cur.pop_back(); } }; rec();
}
inline void permutations(int n, int len, vector<vector<int>>& out) {
  vector<int> cur; std::function<void()> rec = [&]() { if ((int)cur.size() == len) { out.push_back(cur); return; } for (int s = 0; s < n; s++) if (!has(cur, s)) { cur.push_back(s); rec(); cur.pop_back(); } }; rec();
}
const int BASE = 7080; // two units before 2:00, so that departures straddle an hour

// A: two trips over three stops, every shape
inline Family famA(bool thorough) {
  auto specs = std::make_shared<vector<TripSpec>>(); vector<vector<int>> s2, s3; sequences(3, 2, s2); sequences(3, 3, s3);
  for (int dep = 0; dep < (thorough ? 6 : 5); dep++) for (int seg = 1; seg <= 2; seg++) for (auto& s : s2) { TripSpec t; t.stops = s; t.dep = dep; t.seg = seg; specs->push_back(t); }
  for (int dep = 0; dep < (thorough ? 5 : 3); dep++) for (int seg = 1; seg <= 2; seg++) for (int dwell = 0; dwell <= (thorough ? 1 : 0); dwell++) for (int fl = 0; fl < (thorough ? 8 : 4); fl++) for (auto& s : s3) { TripSpec t; t.stops = s; t.dep = dep; t.seg = seg; t.dwell = dwell; if (fl & 1) t.noBoard = 1; if (fl & 2) t.noUnboard = 1; if (fl & 4) { if (fl & 1) t.noBoard = 0; else t.noUnboard = 2; } specs->push_back(t); }
  Family f; f.name = "A"; f.what = "every ordered pair of trips over 3 stops (all stop sequences of length 2-3 incl. revisits, departures, running times, boarding/alighting permissions), 3 walking tables";
  uint64_t m = specs->size(); f.n = m * m;
  f.build = [specs, m](uint64_t i, DS& d) {
    d.init(3); d.foot[0].push_back({1, 60, 50}); d.foot[1].push_back({0, 120, 110}); d.foot[1].push_back({2, 60, 70});
    addTrip(d, (*specs)[i % m], BASE); addTrip(d, (*specs)[i / m], BASE); allScenario(d);
    d.places = {{{0, 60, 61}}, {{2, 60, 62}}, {{0, 60, 61}, {1, 180, 181}}, {{2, 120, 121}, {1, 300, 301}}, {{0, 0, 0}}, {{1, 0, 0}, {2, 60, 63}}};
    d.selfLast = i & 1; return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) {
    for (int c = 0; c < 3; c++) { int o = 2 * c, de = o + 1;
      v.push_back(route(true, o, de, BASE - 120)); v.push_back(route(false, o, de, BASE + 420)); v.push_back(route(false, o, de, BASE + 240)); }
    v.push_back(acc(true, 0, BASE - 120)); v.push_back(acc(true, 2, BASE - 120)); v.push_back(acc(false, 1, BASE + 420)); v.push_back(acc(false, 3, BASE + 480)); };
  return f;
}

// B: three trips over four stops with footpaths
inline Family famB(bool thorough, bool transferableModes) {
  auto specs = std::make_shared<vector<TripSpec>>();
  vector<vector<int>> edges = {{0,1},{1,3},{2,3},{0,3},{0,2},{1,2}}; if (thorough) { edges.push_back({2,1}); edges.push_back({0,1,3}); edges.push_back({0,2,3}); }
  int D = thorough ? 6 : 5;
  for (int dep = 0; dep < D; dep++) for (int seg = 1; seg <= 2; seg++) for (auto& s : edges) { TripSpec t; t.stops = s; t.dep = dep; t.seg = seg; if (transferableModes && (thorough ? seg == 2 && dep > 2 : dep > 3 || (seg == 2 && dep > 0))) continue; specs->push_back(t); }
  Family f; f.name = transferableModes ? "G" : "B"; uint64_t m = specs->size();
  f.what = string("every ordered triple of trips over 4 stops with footpaths between the middle ones") + (transferableModes ? ", every assignment of the walking-like mode 'transferable' to the three lines" : "");
  f.n = m * m * m * (transferableModes ? 7 : 1);
  f.build = [specs, m, transferableModes](uint64_t i, DS& d) {
    Radix r{i}; int a = r.take(m), b = r.take(m), c = r.take(m); int tm = transferableModes ? r.take(7) + 1 : 0;
    // skip triples that only serve one leg of the network
    d.init(4); d.foot[1].push_back({2, 60, 55}); d.foot[2].push_back({1, 60, 56}); d.foot[0].push_back({2, 300, 310});
    for (int k : {a, b, c}) addTrip(d, (*specs)[k], BASE);
    for (int l = 0; l < 3; l++) if (tm >> l & 1) d.lines[l].mode = MODE_TRANSFERABLE;
    allScenario(d);
    d.places = {{{0, 60, 61}, {1, 240, 241}}, {{3, 60, 62}, {2, 240, 242}}};
    return true; };
  bool tm = transferableModes;
  f.queries = [tm](uint64_t i, const DS&, vector<Q>& v) {
    v.push_back(route(true, 0, 1, BASE - 120)); v.push_back(route(false, 0, 1, BASE + 480)); v.push_back(route(false, 0, 1, BASE + 360));
    v.push_back(acc(true, 0, BASE - 120)); v.push_back(acc(false, 1, BASE + 480));
    if (tm) { v.push_back(route(true, 0, 1, BASE - 120, 180)); v.push_back(route(false, 0, 1, BASE + 480, 180)); v.push_back(acc(true, 0, BASE - 120, 180)); v.push_back(acc(false, 1, BASE + 480, 180)); }
    (void)i; };
  return f;
}

// C: a long trip crossed by two others (journey clean-up)
inline Family famC(bool thorough) {
  auto p2 = std::make_shared<vector<vector<int>>>(), p3 = std::make_shared<vector<vector<int>>>();
  permutations(5, 2, *p2); permutations(5, 3, *p2); if (thorough) permutations(5, 4, *p2);
  permutations(5, 2, *p3); permutations(5, 3, *p3);
  // trip 2 must touch the first trip, trip 3 must lead to the destination stops or back to the first trip
  auto keep3 = std::make_shared<vector<vector<int>>>(); for (auto& s : *p3) if (has(s, 3) || has(s, 4)) if (s[0] != 3) keep3->push_back(s);
  vector<int> dep2 = thorough ? vector<int>{0,1,2,3,4,5} : vector<int>{1,2,4}; vector<int> dep3 = thorough ? vector<int>{1,2,3,4,5,6,7} : vector<int>{3,5,6};
  int flags = thorough ? 4 : 2;
  Family f; f.name = "C"; f.what = "a trip over 4 stops crossed by two others, all stop sequences of length 2-" + to_string(thorough ? 4 : 3) + " over 5 stops (same stop passed several times, shared stations), permissions on the crossing stops, footpaths next to it";
  f.n = p2->size() * keep3->size() * dep2.size() * dep3.size() * flags * 2;
  f.build = [=](uint64_t i, DS& d) {
    Radix r{i}; int ord = r.take(2), fl = r.take(flags), d3 = dep3[r.take(dep3.size())], d2 = dep2[r.take(dep2.size())]; auto& s3 = (*keep3)[r.take(keep3->size())]; auto& s2 = (*p2)[r.take(p2->size())];
    d.init(5); d.foot[1].push_back({2, 120, 125}); d.foot[2].push_back({1, 120, 126}); d.foot[2].push_back({4, 60, 66}); d.foot[4].push_back({2, 60, 67}); d.foot[3].push_back({4, 60, 68});
    TripSpec t1; t1.stops = {0, 1, 2, 3}; t1.dep = 0; t1.seg = 1; if (fl & 1) { t1.noUnboard = 1; } if (fl & 2) { t1.noBoard = 2; }
    TripSpec t2; t2.stops = s2; t2.dep = d2; t2.seg = 1; TripSpec t3; t3.stops = s3; t3.dep = d3; t3.seg = 1;
    if (ord == 0) { addTrip(d, t1, BASE); addTrip(d, t2, BASE); addTrip(d, t3, BASE); } else { addTrip(d, t3, BASE); addTrip(d, t2, BASE); addTrip(d, t1, BASE); }
    allScenario(d); d.places = {{{0, 60, 61}, {1, 300, 310}}, {{4, 60, 62}, {3, 120, 122}}}; return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) {
    v.push_back(route(true, 0, 1, BASE - 120)); v.push_back(route(false, 0, 1, BASE + 900)); v.push_back(route(false, 0, 1, BASE + 600));
    v.push_back(acc(true, 0, BASE - 120)); v.push_back(acc(false, 1, BASE + 900)); };
  return f;
}

// D: hour boundaries up to 33 h; trip with departure in hour h1 and arrival in hour h2, second trip after it
inline Family famD(bool thorough) {
  const int H = 34; vector<int> delta = {-1, 0, 1};
  auto pts = std::make_shared<vector<int>>(); for (int h = 0; h < H; h++) for (int dl : delta) if (h * 3600 + dl >= 0) pts->push_back(h * 3600 + dl);
  Family f; f.name = "D"; f.what = "one trip leaving at h1:00 +-1 s and one leaving at h2:00 +-1 s, all pairs of hours 0..33, queried at every hour 0..34 +-1 s in both directions (hour index, beyond 24:00 and 32:00)";
  uint64_t m = pts->size(); vector<int> durs = thorough ? vector<int>{0, 1, 60, 3599, 3600, 7201} : vector<int>{1, 3600}; uint64_t nd = durs.size();
  f.n = thorough ? m * m * nd : (uint64_t)H * H * 3 * nd; f.batch = 60;
  f.build = [pts, m, durs, nd, thorough](uint64_t i, DS& d) {
    Radix r{i}; int dur = durs[r.take(nd)]; int a, b; if (thorough) { a = (*pts)[r.take(m)]; b = (*pts)[r.take(m)]; } else { int dl = r.take(3) - 1; a = r.take(34) * 3600 + dl; b = r.take(34) * 3600 + dl; } if (a < 0 || b < 0) return false;
    if (b < a) return false;
    d.init(3);
    TripSpec t; t.stops = {0, 1}; t.dep = 0; t.seg = dur; addTrip(d, t, a, -1, 1); TripSpec t2; t2.stops = {0, 1, 2}; t2.seg = 1; addTrip(d, t2, b, -1, 1);
    allScenario(d); d.places = {{{0, 0, 0}}, {{1, 0, 0}, {2, 30, 31}}}; return true; };
  f.queries = [](uint64_t, const DS& d, vector<Q>& v) {
    int a = d.trips[0].dep[0], b = d.trips[1].dep[0], c = d.trips[0].arr[1], e = d.trips[1].arr[2];
    std::set<int> ts; for (int x : {a, b, c, e}) { int h = x / 3600; for (int k = -1; k <= 2; k++) for (int dl = -1; dl <= 1; dl++) ts.insert((h + k) * 3600 + dl); for (int dl = -2; dl <= 1; dl++) ts.insert(x + dl); }
    ts.insert(0); ts.insert(31 * 3600); ts.insert(32 * 3600 - 1); ts.insert(32 * 3600); ts.insert(33 * 3600 + 1); ts.insert(100 * 3600);
    for (int t : ts) if (t >= 0) { v.push_back(route(true, 0, 1, t, 1)); v.push_back(route(false, 0, 1, t, 1)); v.push_back(acc(true, 0, t, 1)); v.push_back(acc(false, 1, t, 1)); } };
  f.shifts = 3;
  return f;
}

// E: every scenario filter
inline void subsetsUpTo(int n, int k, vector<vector<int>>& out) { for (int m = 0; m < (1 << n); m++) if (__builtin_popcount(m) <= k) { vector<int> v; for (int i = 0; i < n; i++) if (m >> i & 1) v.push_back(i); out.push_back(v); } }
struct FilterSpace { vector<vector<int>> sv, ol, xl, md, ag; uint64_t size() const { return sv.size() * ol.size() * xl.size() * md.size() * md.size() * ag.size() * ag.size(); }
  FilterSpace(bool thorough) { subsetsUpTo(2, 2, sv); sv.erase(sv.begin()); subsetsUpTo(4, thorough ? 4 : 2, ol); subsetsUpTo(4, thorough ? 4 : 2, xl); subsetsUpTo(2, 2, md); subsetsUpTo(2, 2, ag);
    // lists in descending order for half of the cases: membership must not depend on order
  }
  ScenM at(uint64_t i) const { Radix r{i}; ScenM s; s.services = sv[r.take(sv.size())]; s.onlyLines = ol[r.take(ol.size())]; s.exceptLines = xl[r.take(xl.size())]; s.onlyModes = md[r.take(md.size())]; s.exceptModes = md[r.take(md.size())]; s.onlyAgencies = ag[r.take(ag.size())]; s.exceptAgencies = ag[r.take(ag.size())];
    if (i & 1) for (auto* v : {&s.services, &s.onlyLines, &s.exceptLines, &s.onlyModes, &s.exceptModes, &s.onlyAgencies, &s.exceptAgencies}) std::reverse(v->begin(), v->end());
    if (i % 5 == 2) for (auto* v : {&s.services, &s.onlyLines, &s.exceptLines, &s.onlyModes, &s.exceptModes, &s.onlyAgencies, &s.exceptAgencies}) if (!v->empty()) v->push_back(v->front()); // an entry given twice
    return s; } };
inline void filterNet(DS& d) {
  // 4 lines (agency x mode), 2 services, a trip each; trip k runs 0 -> 1+k -> 9, all at different times
  d.init(10); d.nAgencies = 2; d.nServices = 2;
  for (int l = 0; l < 4; l++) { LineM x; x.agency = l / 2; x.mode = l % 2; d.lines.push_back(x); }
  for (int k = 0; k < 8; k++) { TripSpec t; t.stops = {0, 1 + k, 9}; t.dep = (k * 3) % 8; t.seg = 5; addTrip(d, t, BASE, k / 2, U, k % 2); }
  d.foot[1].push_back({2, 60, 61}); d.foot[3].push_back({4, 60, 61});
  d.places = {{{0, 60, 61}}, {{9, 60, 62}}};
}
inline Family famE(bool thorough) {
  auto fs = std::make_shared<FilterSpace>(thorough); const uint64_t PER = 64;
  Family f; f.name = "E"; f.what = "every combination of services x only/except lines (subsets up to " + to_string(thorough ? 4 : 2) + ") x only/except modes x only/except agencies over 4 lines, 2 services, 2 modes, 2 agencies";
  f.n = (fs->size() + PER - 1) / PER; f.batch = 20;
  f.build = [fs](uint64_t i, DS& d) { filterNet(d); for (uint64_t k = i * PER; k < std::min(fs->size(), (i + 1) * PER); k++) d.scen.push_back(fs->at(k)); return true; };
  f.queries = [](uint64_t, const DS& d, vector<Q>& v) { for (size_t s = 0; s < d.scen.size(); s++) { vector<Q> x = {route(true, 0, 1, BASE - 120), route(false, 0, 1, BASE + 1080), acc(true, 0, BASE - 120), acc(false, 1, BASE + 1140)}; for (auto& q : x) { q.scen = s; v.push_back(q); } } };
  return f;
}
// C11: one scenario per data set
inline Family famE11(bool thorough) {
  auto fs = std::make_shared<FilterSpace>(thorough);
  Family f = famE(thorough); f.name = "E11"; f.n = fs->size(); f.batch = 200;
  f.build = [fs](uint64_t i, DS& d) { filterNet(d); d.scen.push_back(fs->at(i)); return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) { v = {route(true, 0, 1, BASE - 120), route(false, 0, 1, BASE + 1080), acc(true, 0, BASE - 120), acc(false, 1, BASE + 1140)}; };
  return f;
}

// F: limits at, just below and just above every value that occurs
inline void limitsNet(DS& d, int variant) {
  d.init(6); d.foot[1].push_back({3, 150, 160}); d.foot[3].push_back({1, 140, 150}); d.foot[2].push_back({3, 90, 95}); d.foot[1].push_back({4, 200, 210});
  auto T = [&](vector<int> st, int dep, int seg) { TripSpec t; t.stops = st; t.dep = dep; t.seg = seg; addTrip(d, t, 36000, -1, 1); };
  T({0, 1}, 600, 300); T({0, 2}, 500, 320); T({3, 5}, 1250, 400); T({3, 5}, 1500, 300); T({1, 5}, 2000, 500); T({4, 5}, 1180, 700); T({0, 1, 5}, 2500, 300);
  if (variant & 1) { T({0, 5}, 40000 - 36000 + 200, 300); T({2, 5}, 41200 - 36000, 100); }
  if (variant & 2) { d.lines[2].mode = MODE_TRANSFERABLE; }
  allScenario(d); d.places = {{{0, 100, 120}, {2, 250, 260}}, {{5, 100, 120}, {1, 250, 265}}, {{2, 0, 0}}, {{5, 0, 0}, {3, 400, 410}}, {}, {{0, 1300, 1500}}};
}
inline Family famF(bool thorough) {
  Family f; f.name = "F"; f.what = "two hand-made networks, every combination of access/egress/transfer/total/minimum-waiting/first-waiting values at, one below and one above the values that occur, none, 0, negative and extreme";
  auto A = std::make_shared<vector<vector<int>>>();
  A->push_back({OMIT, 99, 100, 101, 249, 250, 0, INT_MAX});       // access
  A->push_back({OMIT, 99, 100, 250, 0});                     // egress
  A->push_back({OMIT, 89, 90, 149, 150, 199, 200, -1});       // transfer
  A->push_back({OMIT, 1499, 1500, 1949, 1950, 2149, 2150, 2151, 1, INT_MAX}); // total
  A->push_back({OMIT, 0, -7, 1, 59, 60, 180, 399, 400, 600, 40000, INT_MAX}); // min waiting
  A->push_back(thorough ? vector<int>{0, OMIT, 100, 399, 400, 401, 500, 1, INT_MAX} : vector<int>{0, 100, 399, 400, OMIT});   // first waiting
  uint64_t vars = thorough ? 4 : 2; uint64_t n = vars; for (auto& a : *A) n *= a.size(); const uint64_t PER = 400; f.n = (n + PER - 1) / PER; f.batch = 8;
  // the data set depends on idx only through the variant: slowest digit
  f.build = [n, vars](uint64_t i, DS& d) { int v = (i * PER) / (n / vars); limitsNet(d, vars == 2 ? v * 3 : v); return true; };
  f.queries = [A, n, vars](uint64_t i, const DS&, vector<Q>& v) {
    uint64_t per = n / vars, hi = std::min(n, (i + 1) * PER); uint64_t var0 = (i * PER) / per;
    for (uint64_t k = i * PER; k < hi; k++) { if (k / per != var0) { /* belongs to the next network; covered there */ }
      Radix r{k % per}; Q q; q.maxFirst = (*A)[5][r.take((*A)[5].size())]; q.maxAcc = (*A)[0][r.take((*A)[0].size())]; q.maxEgr = (*A)[1][r.take((*A)[1].size())]; q.maxTr = (*A)[2][r.take((*A)[2].size())]; q.maxTotal = (*A)[3][r.take((*A)[3].size())]; q.mw = (*A)[4][r.take((*A)[4].size())];
      q.fwd = true; q.t = 36000; v.push_back(q); q.fwd = false; q.t = 38150; v.push_back(q);
      Q a = q; a.acc = true; a.fwd = true; a.orig = 0; a.t = 36000; v.push_back(a); a.fwd = false; a.orig = 1; a.t = 38150; v.push_back(a); } };
  return f;
}
// F0: places without access, at each end
inline Family famF0() {
  Family f; f.name = "F0"; f.what = "every pair of places (with stops, none, too far) x networks x directions x access/egress limits"; f.n = 4 * 9; f.batch = 2;
  f.build = [](uint64_t i, DS& d) { limitsNet(d, i / 9); return true; };
  f.queries = [](uint64_t i, const DS&, vector<Q>& v) { int k = i % 9; int la[] = {OMIT, 99, 0, 1, 250, 1300, 1299, 100, 399};
    for (int o = 0; o < 6; o++) for (int e : la) { for (int de = 0; de < 6; de++) for (int fw = 0; fw < 2; fw++) for (int tot : {OMIT, 600, 1500}) for (int t : {0, 36000, 38000, 38400, 90000}) { Q q; q.maxAcc = la[k]; q.maxEgr = e; q.orig = o; q.dest = de; q.fwd = fw; q.t = t; q.maxFirst = 0; q.maxTotal = tot; v.push_back(q); }
      for (int fw = 0; fw < 2; fw++) for (int tot : {OMIT, 600, 1500}) for (int t : {0, 36000, 38000, 38400, 90000}) { Q q; q.acc = true; q.maxAcc = la[k]; q.maxEgr = e; q.orig = o; q.fwd = fw; q.t = t; q.maxFirst = 0; q.maxTotal = tot; v.push_back(q); } } };
  return f;
}

// H: alternatives
inline Family famH(bool thorough) {
  // candidate trips over 4 stops; every subset
  static const vector<vector<int>> cand = {{0,3},{0,1},{1,3},{0,2},{2,3},{1,2},{0,3},{1,3},{0,1,3}};
  static const int deps[] = {6, 0, 3, 1, 4, 2, 8, 6, 2};
  Family f; f.name = "H"; int nc = thorough ? 9 : 8; uint64_t mults = 9; f.n = (1ull << nc) * mults; f.batch = 40;
  f.what = "every subset of " + to_string(nc) + " candidate lines between 4 stops x 9 time scales and line pairings, with alternatives";
  f.build = [nc, mults](uint64_t i, DS& d) { Radix r{i}; int v = r.take(mults), m = r.take(1ull << nc); if (!m) return false;
    d.init(4); d.foot[1].push_back({2, 60, 61}); int scale = v % 3 == 0 ? 60 : v % 3 == 1 ? 400 : 900; int pairing = v / 3; int shared = -1;
    for (int k = 0; k < nc; k++) if (m >> k & 1) { TripSpec t; t.stops = cand[k]; t.dep = deps[k]; t.seg = 2; int line = -1; if (pairing == 1 && (k == 0 || k == 6)) line = shared; if (pairing == 2 && (k == 1 || k == 2)) line = shared; int before = d.lines.size(); addTrip(d, t, BASE, line, scale); if ((int)d.lines.size() > before && ((pairing == 1 && (k == 0 || k == 6)) || (pairing == 2 && (k == 1 || k == 2)))) shared = before; }
    if (pairing == 2) { d.lines.back().mode = MODE_TRANSFERABLE; }
    allScenario(d); d.places = {{{0, 60, 61}, {1, 900, 910}}, {{3, 60, 62}}}; return true; };
  f.queries = [](uint64_t i, const DS&, vector<Q>& v) { int s = i % 9 % 3 == 0 ? 60 : i % 9 % 3 == 1 ? 400 : 900; for (int fw = 0; fw < 2; fw++) for (int first : {0, OMIT, 240}) for (int tot : {OMIT, 12 * s}) { Q q = route(fw, 0, 1, fw ? BASE - 120 : BASE + 16 * s); q.alt = true; q.maxFirst = first; q.maxTotal = tot; v.push_back(q); } };
  return f;
}
// HW: n x m parallel lines in two stages, to hit the caps of 50 routes and 200 calculations
inline Family famHW(bool thorough) {
  Family f; f.name = "HW"; int N = thorough ? 10 : 9; f.n = N * N * 3; f.batch = 3; f.what = "n x m parallel lines in two stages, n, m up to " + to_string(N) + " (caps of 50 routes and 200 calculations)";
  f.build = [N](uint64_t i, DS& d) { Radix r{i}; int k = r.take(3), n = r.take(N) + 1, m = r.take(N) + 1; d.init(k == 2 ? 4 : 3); int last = d.ns - 1;
    for (int a = 0; a < n; a++) { TripSpec t; t.stops = {0, 1}; t.dep = a * (k == 1 ? 3 : 0) + a % 2; t.seg = 10; addTrip(d, t, BASE); }
    for (int b = 0; b < m; b++) { TripSpec t; t.stops = {1, 2}; t.dep = 14 + b * (k ? 2 : 0) + b % 2; t.seg = 10; addTrip(d, t, BASE); }
    if (k == 2) for (int b = 0; b < 3; b++) { TripSpec t; t.stops = {2, last}; t.dep = 40 + b; t.seg = 5; addTrip(d, t, BASE); }
    allScenario(d); d.places = {{{0, 60, 61}}, {{last, 60, 62}}}; return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) { for (int fw = 0; fw < 2; fw++) { Q q = route(fw, 0, 1, fw ? BASE - 120 : BASE + 90 * 60); q.alt = true; v.push_back(q); } };
  return f;
}

// J: paths whose segment distances are all, partly or not available
inline Family famJ() {
  Family f; f.name = "J"; f.what = "two or three trips of 3 segments with 0..3 known segment distances each, boarded and left at every position, one possibly of the walking-like mode"; f.n = 4 * 4 * 4 * 3 * 6 * 2;
  f.build = [](uint64_t i, DS& d) { Radix r{i}; int k1 = r.take(4), k2 = r.take(4), k3 = r.take(4), tm = r.take(3), x = r.take(6), sl = r.take(2);
    d.init(9); d.selfLast = sl; static const int meet[6][2] = {{1,0},{1,1},{2,0},{2,2},{3,1},{3,0}};
    // trip 1 over 0 1 2 3; trip 2 meets it at stop meet[0] in its position meet[1]; trip 3 leaves from a footpath
    vector<int> s2 = {4, 5, 6, 7}; s2[meet[x][1]] = meet[x][0];
    auto T = [&](vector<int> st, int dep, int known) { TripSpec t; t.stops = st; t.dep = dep; t.seg = 2; addTrip(d, t, BASE); d.paths.back().dist.resize(known); for (size_t k = 0; k < d.paths.back().dist.size(); k++) { int& m = d.paths.back().dist[k]; if (sl && k == 1) m = 70001; if (tm == 1 && k == 0) m += 16777217; if (tm == 2 && k == 2) m = 0; } };
    T({0, 1, 2, 3}, 0, k1); T(s2, 12, k2); T({8, 3, 5, 0}, 30, k3);
    d.foot[7].push_back({8, 60, 77}); d.foot[6].push_back({8, 120, 78}); if (tm) d.lines[tm - 1].mode = MODE_TRANSFERABLE;
    allScenario(d); d.places = {{{0, 60, 61}}, {{7, 60, 62}}, {{0, 60, 61}}, {{5, 60, 62}}, {{1, 60, 63}}, {{6, 60, 64}}}; return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) { for (int o : {0, 4}) for (int de : {1, 3, 5}) { v.push_back(route(true, o, de, BASE - 120)); v.push_back(route(false, o, de, BASE + 60 * 60)); } };
  return f;
}

// K: a small city, every pair of places, every minute around the hours
inline void cityNet(DS& d, int variant) {
  d.init(12); d.nAgencies = 3; d.nServices = 3;
  // 3 x 4 grid, footpaths between neighbours on two rows, asymmetric
  auto F = [&](int a, int b, int t1, int t2) { d.foot[a].push_back({b, t1, t1 + 11}); d.foot[b].push_back({a, t2, t2 + 13}); };
  F(0, 4, 240, 250); F(5, 9, 180, 200); F(1, 2, 420, 400); F(6, 7, 300, 310); F(10, 11, 600, 620); F(2, 6, 150, 150); F(5, 6, 900, 905);
  d.foot[3].push_back({7, 61, 70}); d.foot[5].push_back({4, 1300, 1500});
  struct L { vector<int> st; int first, head, n, seg, ag, mode, sv; };
  vector<L> ls = {
    {{0, 1, 2, 3}, 6 * 3600 + 3000, 600, 14, 240, 0, 0, 0}, {{3, 2, 1, 0}, 6 * 3600 + 3120, 600, 14, 240, 0, 0, 0},
    {{4, 5, 6, 7}, 6 * 3600 + 3300, 900, 9, 180, 1, 0, 0}, {{7, 6, 5, 4}, 6 * 3600 + 3360, 900, 9, 180, 1, 0, 0},
    {{8, 9, 10, 11}, 6 * 3600 + 3540, 1200, 7, 300, 1, 1, 1}, {{11, 10, 9, 8}, 6 * 3600 + 3600, 1200, 7, 300, 1, 1, 1},
    {{0, 5, 10}, 7 * 3600 - 60, 1800, 5, 420, 2, 1, 0}, {{2, 6, 10, 8}, 7 * 3600, 1500, 6, 360, 2, 3, 1},
    {{9, 5, 1, 5, 6}, 7 * 3600 + 59, 1140, 6, 200, 0, 0, 0}, {{4, 8}, 7 * 3600 + 600, 300, 12, 120, 2, variant & 1 ? 2 : 0, 0},
    {{0, 6, 11}, 23 * 3600 + 3500, 1700, 8, 1000, 0, 1, 2}, {{3, 5, 8, 0}, 60, 1200, 6, 500, 1, 0, 2},
  };
  int lineIdx = 0;
  for (size_t i = 0; i < ls.size(); i++) {
    L& l = ls[i]; bool sameLine = i > 0 && i < 6 && i % 2 == 1; // two directions of one line
    if (!sameLine) { LineM x; x.agency = l.ag; x.mode = l.mode; d.lines.push_back(x); lineIdx = d.lines.size() - 1; }
    PathM p; p.line = lineIdx; p.stops = l.st; for (size_t k = 0; k + 1 < l.st.size(); k++) p.dist.push_back(500 + 10 * i + k); if (i == 7) p.dist.pop_back(); d.paths.push_back(p);
    for (int n = 0; n < l.n; n++) { TripM m; m.path = d.paths.size() - 1; m.service = n % 4 == 3 && l.sv == 0 ? 1 : l.sv; int c = l.first + n * l.head;
      for (size_t k = 0; k < l.st.size(); k++) { m.arr.push_back(c); if (k && k + 1 < l.st.size()) c += (k * 13) % 40; m.dep.push_back(c); if (n % 5 == 4) c += l.seg * 3 / 4; else c += l.seg; m.bd.push_back(!(n % 6 == 2 && k == 1)); m.ub.push_back(!(n % 7 == 3 && k == 2)); }
      d.trips.push_back(m); }
  }
  if (variant & 2) { // overlapping express trip overtaking a local one, loop line
    LineM x; x.agency = 2; d.lines.push_back(x); PathM p; p.line = d.lines.size() - 1; p.stops = {0, 3, 0, 7}; p.dist = {900, 901, 902}; d.paths.push_back(p);
    for (int n = 0; n < 4; n++) { TripM m; m.path = d.paths.size() - 1; int c = 7 * 3600 + 120 + n * 1900; for (int k = 0; k < 4; k++) { m.arr.push_back(c); m.dep.push_back(c); c += 350; m.bd.push_back(1); m.ub.push_back(1); } d.trips.push_back(m); } }
  ScenM a; a.services = {0, 1, 2}; d.scen.push_back(a); ScenM b; b.services = {0}; d.scen.push_back(b); ScenM c; c.services = {0, 1, 2}; c.exceptLines = {0, 3}; d.scen.push_back(c);
  ScenM e; e.services = {0, 1, 2}; e.onlyAgencies = {1, 2}; e.exceptModes = {1}; d.scen.push_back(e); ScenM g; g.services = {2, 1}; g.onlyLines = {2, 6, 7}; d.scen.push_back(g);
  d.places = {{{0, 120, 130}, {4, 300, 330}}, {{11, 60, 66}, {10, 700, 720}}, {{3, 30, 33}, {7, 95, 99}, {2, 1100, 1200}}, {{8, 0, 0}, {9, 480, 490}}, {{6, 210, 220}}, {{1, 20, 21}, {5, 640, 650}, {9, 1250, 1300}}};
}
inline Family famK(bool thorough, bool alt) {
  Family f; f.name = alt ? "KA" : "K"; const int NP = 6; int nv = thorough ? 4 : 2; int step = thorough ? 60 : (alt ? 600 : 240);
  auto times = std::make_shared<vector<int>>(); for (int t = 6 * 3600 + 2400; t <= 9 * 3600 + 1800; t += step) times->push_back(t); for (int t = 0; t <= 7200; t += step * 3) times->push_back(t); for (int t = 23 * 3600 + 3000; t <= 28 * 3600; t += step * 3) times->push_back(t); for (int h = 6; h < 10; h++) for (int dl = -1; dl <= 1; dl++) times->push_back(h * 3600 + dl);
  f.what = "a city of 12 stops, 12 directed lines and about 100 trips: every pair of 6 places, " + to_string(times->size()) + " times around the hours, both directions, all scenarios, one deviating limit at a time" + (alt ? ", with alternatives" : "");
  f.n = (uint64_t)nv * times->size() * 2; f.batch = 8; f.shifts = 2;
  f.build = [nv](uint64_t i, DS& d) { int v = i % nv; cityNet(d, nv == 2 ? v * 3 : v); return true; };
  bool th = thorough;
  f.queries = [nv, times, alt, th](uint64_t i, const DS& d, vector<Q>& v) { Radix r{i}; r.take(nv); bool fwd = r.take(2); int t = (*times)[r.take(times->size())];
    for (int o = 0; o < NP; o++) { for (int e = 0; e < NP; e++) if (e == o) { Q q = route(fwd, o, e, t, OMIT); q.alt = alt; v.push_back(q); } else { int ns = th ? d.scen.size() : 1; for (int s = 0; s < ns; s++) { Q q = route(fwd, o, e, t); q.scen = th ? s : (o + e + t / 60) % d.scen.size(); if (o % 2 == 0) q.scen = 0; q.mw = OMIT; q.alt = alt; v.push_back(q);
          if (alt) continue; Q x = q; x.maxFirst = OMIT; v.push_back(x); x = q; x.maxTr = 200; v.push_back(x); x = q; x.maxTotal = 2400; v.push_back(x); x = q; x.mw = 60; x.maxAcc = 300; v.push_back(x); x = q; x.mw = 600; x.maxEgr = 100; v.push_back(x); if (th) { x = q; x.mw = 0; v.push_back(x); x = q; x.maxTr = 60; x.mw = 1; v.push_back(x); x = q; x.maxFirst = 240; v.push_back(x); } } }
      if (!alt) for (int s = 0; s < (th ? (int)d.scen.size() : 2); s++) { Q a = acc(fwd, o, t, OMIT); a.scen = s; v.push_back(a); a.maxTotal = 2400; v.push_back(a); a.maxTotal = OMIT; a.maxTr = 200; a.mw = 60; v.push_back(a); } } };
  return f;
}
// K11: the city under scenario filters, one scenario per data set (C11)
inline Family famK11(bool thorough) {
  Family f; f.name = "K11"; f.what = "the city under every scenario with up to one filter of each kind, against the city without the excluded trips"; 
  // services subset (7) x kind of filter (8: none, onlyL, exL, onlyM, exM, onlyA, exA, onlyL+exA) x value (up to 10)
  f.n = 7 * 8 * 10; f.batch = 4; 
  f.build = [](uint64_t i, DS& d) { Radix r{i}; int sv = r.take(7) + 1, kind = r.take(8), val = r.take(10); cityNet(d, 3); ScenM s; for (int k = 0; k < 3; k++) if (sv >> k & 1) s.services.push_back(k);
    int nl = d.lines.size(); if (kind == 0 && val) return false; static const int modes[] = {0, 1, 2, 3};
    switch (kind) { case 1: if (val >= nl) return false; s.onlyLines = {val, (val * 3 + 1) % nl}; break; case 2: if (val >= nl) return false; s.exceptLines = {val}; break; case 3: if (val >= 4) return false; s.onlyModes = {modes[val]}; break; case 4: if (val >= 4) return false; s.exceptModes = {modes[val]}; break; case 5: if (val >= 3) return false; s.onlyAgencies = {val}; break; case 6: if (val >= 3) return false; s.exceptAgencies = {val}; break; case 7: if (val >= nl) return false; s.onlyLines = {val, (val + 1) % nl, (val + 2) % nl}; s.exceptAgencies = {val % 3}; break; }
    d.scen = {s}; return true; };
  bool th = thorough;
  f.queries = [th](uint64_t, const DS&, vector<Q>& v) { for (int fw = 0; fw < 2; fw++) for (int t : th ? vector<int>{0, 1800, 6 * 3600 + 3000, 7 * 3600 - 1, 7 * 3600, 7 * 3600 + 600, 8 * 3600, 8 * 3600 + 1800, 9 * 3600, 24 * 3600, 24 * 3600 + 1800, 26 * 3600} : vector<int>{7 * 3600, 8 * 3600 + 1800, 24 * 3600 + 1800}) for (int o = 0; o < 6; o++) { for (int e = 0; e < 6; e++) if (e != o && (th || (o + e) % 2)) { Q q = route(fw, o, e, t, OMIT); v.push_back(q); } v.push_back(acc(fw, o, t, OMIT)); } };
  return f;
}
// Z: trips that take no time between two stops, at the same time, with and without minimum waiting
inline Family famZ(bool thorough, bool walkLike = false) {
  auto specs = std::make_shared<vector<TripSpec>>(); vector<vector<int>> s2, s3; permutations(3, 2, s2); sequences(3, 3, s3);
  for (int dep = 0; dep < 3; dep++) for (int seg = 0; seg < 2; seg++) { for (auto& s : s2) { TripSpec t; t.stops = s; t.dep = dep; t.seg = seg; specs->push_back(t); } if (thorough || seg == 0) for (auto& s : s3) { TripSpec t; t.stops = s; t.dep = dep; t.seg = seg; t.seg2 = 1 - seg; specs->push_back(t); } }
  Family f; f.name = walkLike ? "ZT" : "Z"; f.what = string(walkLike ? "with one or two lines of the walking-like mode: " : "") + "pairs and triples of trips over 3 stops whose hops may take no time, minimum waiting 0 or 1 s"; uint64_t m = specs->size(); f.n = m * m * 9 * (walkLike ? 3 : 1);
  f.build = [specs, m, walkLike](uint64_t i, DS& d) { Radix r{i}; int tm = walkLike ? r.take(3) + 1 : 0; int c = r.take(9), a = r.take(m), b = r.take(m); d.init(3); d.foot[0].push_back({1, 0, 0}); d.foot[1].push_back({2, 1, 1});
    addTrip(d, (*specs)[a], BASE, -1, 1); addTrip(d, (*specs)[b], BASE, -1, 1); if (c) { TripSpec t; static const vector<vector<int>> e = {{0,1},{1,2},{2,1},{0,2}}; t.stops = e[(c - 1) % 4]; t.dep = 1 + (c - 1) / 4; t.seg = 0; addTrip(d, t, BASE, -1, 1); }
    for (int l = 0; l < 2; l++) if (tm >> l & 1) d.lines[l].mode = MODE_TRANSFERABLE;
    allScenario(d); d.places = {{{0, 0, 0}}, {{2, 0, 0}}}; return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) { for (int mw = 0; mw < 2; mw++) { for (int t = BASE - 1; t <= BASE; t++) { v.push_back(route(true, 0, 1, t, mw)); } v.push_back(route(false, 0, 1, BASE + 3, mw)); v.push_back(route(false, 0, 1, BASE + 1, mw)); v.push_back(acc(true, 0, BASE - 1, mw)); v.push_back(acc(false, 1, BASE + 3, mw)); } };
  return f;
}

// ZZ: the inputs of the recorded findings (known_findings.txt), without the restriction of `ordered`
inline Family famZZ() {
  Family f; f.name = "ZZ"; f.what = "the inputs of the recorded findings: two hops of different trips that take no time at the same moment"; f.n = 2;
  f.build = [](uint64_t i, DS& d) { d.init(3); d.strict = true; auto T = [&](vector<int> st, int at, int seg) { TripSpec t; t.stops = st; t.dep = at; t.seg = seg; addTrip(d, t, BASE); };
    T({1, 2}, 0, 0); T({0, 1}, 0, 0); if (i) T({0, 2}, -10, 10);
    allScenario(d); d.places = {{{0, 0, 0}}, {{2, 0, 0}}}; return true; };
  f.queries = [](uint64_t i, const DS&, vector<Q>& v) { if (i) v.push_back(route(true, 0, 1, BASE - 900, 0)); else { v.push_back(route(true, 0, 1, BASE, 0)); v.push_back(route(false, 0, 1, BASE + 60, 0)); v.push_back(acc(true, 0, BASE, 0)); v.push_back(acc(false, 1, BASE + 60, 0)); } };
  return f;
}

// L: chains of four trips, so that journeys of three and four rides are common
inline Family famL(bool thorough) {
  Family f; f.name = "L"; f.what = "four trips in a chain over 5 stops (each over one or two hops, three departures), an express over the whole chain or none, two footpath tables, two insertion orders, lines distinct or shared";
  int D = 3, E = thorough ? 5 : 3; uint64_t per = D * 2; f.n = per * per * per * per * E * 2 * (thorough ? 4 : 2);
  f.build = [D, per, E, thorough](uint64_t i, DS& d) {
    Radix r{i}; int variant = r.take(thorough ? 4 : 2), foot = r.take(2), ex = r.take(E); d.init(5);
    if (foot == 0) { d.foot[1].push_back({2, 60, 51}); d.foot[2].push_back({3, 120, 101}); d.foot[3].push_back({2, 60, 52}); }
    else { d.foot[2].push_back({1, 60, 53}); d.foot[1].push_back({3, 240, 202}); d.foot[3].push_back({4, 180, 150}); }
    vector<TripSpec> ts; for (int k = 0; k < 4; k++) { int x = r.take(per); TripSpec t; t.dep = 2 * k + x % D; t.seg = 1; if (x / D && k < 3) t.stops = {k, k + 1, k + 2}; else if (x / D) { t.stops = {2, 4, 3}; } else t.stops = {k, k + 1}; ts.push_back(t); }
    if (ex) { TripSpec t; t.stops = {0, 2, 4}; t.dep = ex == 1 ? 1 : ex == 2 ? 3 : ex == 3 ? 0 : 5; t.seg = ex == 2 ? 2 : 3; ts.push_back(t); }
    if (variant & 1) std::reverse(ts.begin(), ts.end());
    bool shared = variant & 2; for (size_t k = 0; k < ts.size(); k++) { int line = -1; if (shared && k >= 2) line = k % 2; addTrip(d, ts[k], BASE, line); }
    allScenario(d); d.places = {{{0, 60, 61}, {1, 300, 301}}, {{4, 60, 62}, {3, 240, 242}}}; return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) {
    v.push_back(route(true, 0, 1, BASE - 120, 0)); v.push_back(route(true, 0, 1, BASE - 120)); v.push_back(route(false, 0, 1, BASE + 960, 0)); v.push_back(route(false, 0, 1, BASE + 900)); v.push_back(route(false, 0, 1, BASE + 600, 0));
    Q q = route(true, 0, 1, BASE - 180, 0); q.maxTr = 60; v.push_back(q); q = route(false, 0, 1, BASE + 960, 0); q.maxTr = 60; v.push_back(q); q = route(true, 0, 1, BASE - 120, 0); q.maxTotal = 720; v.push_back(q); q = route(false, 0, 1, BASE + 900, 0); q.maxTotal = 780; v.push_back(q);
    v.push_back(acc(true, 0, BASE - 120, 0)); v.push_back(acc(false, 1, BASE + 960, 0)); };
  return f;
}

// O: rides that pass the same stops again (journey clean-up over one or several legs)
inline Family famO(bool thorough) {
  auto s2 = std::make_shared<vector<vector<int>>>(), s3 = std::make_shared<vector<vector<int>>>(), s4 = std::make_shared<vector<vector<int>>>();
  for (int len = 2; len <= (thorough ? 4 : 3); len++) { vector<vector<int>> all; permutations(6, len, all); for (auto& s : all) if (!has(s, 0)) { if (s[0] == 3 || s[0] == 2) s2->push_back(s); s3->push_back(s); } }
  if (!thorough) s3->erase(std::remove_if(s3->begin(), s3->end(), [](auto& s) { return s[0] == 3; }), s3->end());
  s2->push_back({3, 6}); s2->push_back({2, 6}); s2->push_back({3, 4, 6}); for (int x : {1, 2, 4, 5}) { s3->push_back({6, x}); for (int y : {1, 2, 3, 4, 5}) if (y != x) s3->push_back({6, x, y}); }
  *s4 = {{}, {1, 5}, {2, 5}, {4, 5}, {4, 1, 5}, {1, 2, 5}, {2, 4, 5}};
  Family f; f.name = "O"; f.n = s2->size() * s3->size() * s4->size() * 8 * 2;
  f.what = "a trip over four stops and two or three further trips over all stop sequences that come back to the same stops, boarding and alighting forbidden at each inner stop in turn";
  f.build = [=](uint64_t i, DS& d) { Radix r{i}; int var = r.take(2), fl = r.take(8); auto& a = (*s2)[r.take(s2->size())]; auto& b = (*s3)[r.take(s3->size())]; auto& c = (*s4)[r.take(s4->size())];
    if (fl >= 3 && fl <= 4 && a.size() < 3) return false; if (fl >= 5 && fl <= 6 && b.size() < 3) return false; if (fl == 7 && c.size() < 3) return false;
    d.init(7); d.foot[1].push_back({4, 60, 51}); d.foot[4].push_back({1, 60, 52}); d.foot[3].push_back({2, 120, 103}); if (var) { d.foot[5].push_back({2, 60, 54}); d.foot[2].push_back({4, 120, 105}); }
    TripSpec t1; t1.stops = {0, 1, 2, 3}; if (fl == 1) t1.noUnboard = 1; if (fl == 2) t1.noUnboard = 2;
    TripSpec t2; t2.stops = a; t2.dep = a[0] == 3 ? 5 : 4; if (fl == 3) t2.noBoard = 1; if (fl == 4) t2.noUnboard = 1;
    TripSpec t3; t3.stops = b; t3.dep = var ? 6 : 9; if (fl == 5) t3.noBoard = 1; if (fl == 6) t3.noUnboard = 1;
    addTrip(d, t1, BASE); addTrip(d, t2, BASE); addTrip(d, t3, BASE);
    if (!c.empty()) { TripSpec t4; t4.stops = c; t4.dep = var ? 10 : 13; if (fl == 7) t4.noBoard = 1; addTrip(d, t4, BASE); }
    allScenario(d); d.places = {{{0, 60, 61}}, {{5, 60, 62}}, {{1, 60, 63}}, {{2, 60, 64}}, {{4, 60, 65}}}; return true; };
  f.queries = [](uint64_t, const DS&, vector<Q>& v) { for (int de = 1; de <= 4; de++) v.push_back(route(false, 0, de, BASE + 1200)); v.push_back(route(true, 0, 1, BASE - 120)); v.push_back(route(true, 0, 4, BASE - 120)); };
  return f;
}

// M: walks, waits and rides of different magnitudes, with every limit that separates two event times
inline Family famM(bool thorough, bool alt = false) {
  auto walk = std::make_shared<vector<int>>(thorough ? vector<int>{0, 45, 400, 900} : vector<int>{0, 45, 400}); auto ride = std::make_shared<vector<int>>(thorough ? vector<int>{30, 130, 600} : vector<int>{30, 600});
  auto wait = std::make_shared<vector<int>>(vector<int>{0, 50, 350}); auto slack = std::make_shared<vector<int>>(thorough ? vector<int>{0, 200, 777} : vector<int>{0, 200});
  Family f; f.name = alt ? "MA" : "M"; f.what = string(alt ? "with alternatives: " : "") + "two rides with a transfer at the same stop or by foot and a third trip or none, short and long rides, walks, waits and slacks in all combinations; total, first waiting and transfer limits at and one below every difference between an event and the requested time, with and without the walks and waits next to it";
  uint64_t W = walk->size(), R = ride->size(), G = slack->size(); f.n = R * R * W * W * 3 * G * 2 * 5 * 3; f.batch = 20;
  auto mwOf = [=](uint64_t i) { Radix r{i}; return (*wait)[r.take(3)]; };
  f.build = [=](uint64_t i, DS& d) {
    Radix r{i}; int mw = (*wait)[r.take(3)], a = (*walk)[r.take(W)], e = (*walk)[r.take(W)], r1 = (*ride)[r.take(R)], r2 = (*ride)[r.take(R)], g = (*slack)[r.take(G)], foot = r.take(2), third = r.take(5), extra = r.take(3);
    d.init(4); int dep = 25200 - 100, via = foot ? 3 : 1, fw = foot ? 70 : 0; d.foot[1].push_back({3, 70, 61}); d.foot[3].push_back({2, 500, 450});
    auto T = [&](vector<int> st, int at, int seg, int ub = -1) { TripSpec t; t.stops = st; t.seg = seg; t.noUnboard = ub; addTrip(d, t, at, -1, 1); };
    int second = dep + r1 + fw + mw + g;
    T({0, 1}, dep, r1); T({via, 2}, second, r2);
    switch (third) { case 1: T({0, 2}, dep + 20, r1 + r2 + 900); break; case 2: T({via, 2}, second + 300, r2 / 2 + 1); break; case 3: T({0, 1}, dep - 250, r1); break; case 4: T({0, via, 2}, dep + 10, r1 + 300, 2 - (g > 0)); break; }
    allScenario(d); vector<Foot> o = {{0, a, a + 5}}, de = {{2, e, e + 7}};
    if (extra == 1) { o.push_back({1, a + r1 + 300, 900}); } if (extra == 2) { de.push_back({1, e + r2 + g + 100, 901}); }
    d.places = {o, de}; return true; };
  bool th = thorough;
  f.queries = [=](uint64_t i, const DS& d, vector<Q>& v) {
    int mw = mwOf(i), a = d.places[0][0].time, e = d.places[1][0].time; std::set<int> ev; int last = 0, first = INT_MAX; for (auto& t : d.trips) { ev.insert(t.dep[0]); ev.insert(t.arr.back()); if (t.arr.size() > 2) ev.insert(t.arr[1]); } last = *ev.rbegin(); first = d.trips[0].dep[0];
    for (int sl : th ? vector<int>{0, 333} : vector<int>{30}) {
      int t0 = first - a - mw - sl, t1 = last + e + sl; std::set<int> lf, lr, fi;
      for (int x : ev) { for (int y : {0, e, a, -a, -mw, -e, -a - mw}) lf.insert(x - t0 + y); for (int y : {0, a, e, -e, mw, -mw, a + mw, e - mw}) lr.insert(t1 - x + y); }
      for (auto& t : d.trips) for (int y : {0, -a, -mw, -a - mw}) fi.insert(t.dep[0] - t0 + y);
      auto limits = [](const std::set<int>& s) { std::set<int> o; for (int x : s) for (int k = -1; k <= 0; k++) if (x + k > 0 && x + k <= 4000) o.insert(x + k); o.insert(OMIT); return o; };
      for (int L : limits(lf)) { Q q = route(true, 0, 1, t0, mw); q.maxTotal = L; v.push_back(q); q = acc(true, 0, t0, mw); q.maxTotal = L; v.push_back(q); }
      for (int L : limits(lr)) { Q q = route(false, 0, 1, t1, mw); q.maxTotal = L; v.push_back(q); q = acc(false, 1, t1, mw); q.maxTotal = L; v.push_back(q); }
      for (int L : limits(fi)) if (L != OMIT) { Q q = route(true, 0, 1, t0, mw); q.maxFirst = L; v.push_back(q); q = acc(true, 0, t0, mw); q.maxFirst = L; v.push_back(q); q = route(false, 0, 1, t1, mw); q.maxFirst = L; v.push_back(q); }
      for (int L : {69, 70}) { Q q = route(true, 0, 1, t0, mw); q.maxTr = L; v.push_back(q); q = route(false, 0, 1, t1, mw); q.maxTr = L; v.push_back(q); q = acc(true, 0, t0, mw); q.maxTr = L; v.push_back(q); q = acc(false, 1, t1, mw); q.maxTr = L; v.push_back(q); }
    }
    if (alt) { vector<Q> r; for (auto& q : v) if (!q.acc) { r.push_back(q); r.back().alt = true; } v.swap(r); } };
  return f;
}

// Y: the bird-distance walking router on real coordinates
inline double birdDistance(const DS& d, int p, int s) {
  const double pi = 3.14159265358979323846; auto& c = d.placeCoord[p]; double ml = 111412.84 * cos(c.first * pi / 180) - 93.5 * cos(3 * c.first * pi / 180), mt = 111132.92 - 559.82 * cos(2 * c.first * pi / 180) + 1.175 * cos(4 * c.first * pi / 180);
  double x = (d.stopCoord[s].second - c.second) * ml, y = (d.stopCoord[s].first - c.first) * mt; return sqrt(x * x + y * y);
}
inline Family famY() {
  Family f; f.name = "Y"; f.what = "stops and places at real coordinates, walks by the bird-distance router of the repository: 5^3 positions of the stops, 3 latitudes, every pair of access and egress limits around the walking times";
  f.n = 125 * 3 * 2;
  f.build = [](uint64_t i, DS& d) {
    Radix r{i}; int tr = r.take(2), la = r.take(3); double lat0 = la == 0 ? 45.5 : la == 1 ? 0.25 : -60.75, lon0 = -73.5; d.init(4); d.euclid = true;
    static const int north[5] = {150, 420, -300, 0, 777}, east[5] = {0, 200, 333, -610, -120};
    const double pi = 3.14159265358979323846; double mlon = 111412.84 * cos(lat0 * pi / 180) - 93.5 * cos(3 * lat0 * pi / 180), mlat = 111132.92 - 559.82 * cos(2 * lat0 * pi / 180) + 1.175 * cos(4 * lat0 * pi / 180);
    auto at = [&](double n, double e) { return std::make_pair(std::round((lat0 + n / mlat) * 1e6) / 1e6, std::round((lon0 + e / mlon) * 1e6) / 1e6); };
    d.placeCoord = {at(0, 0), at(30, 2000)}; d.stopCoord = {};
    for (int k = 0; k < 3; k++) { int x = r.take(5); d.stopCoord.push_back(at(north[x] + 13 * k, east[x] + (k == 0 ? 0 : k == 1 ? 1990 : 1950))); } d.stopCoord.push_back(i % 4 == 1 ? d.stopCoord[0] : at(10, -15)); // two stops at one place
    for (size_t p = 0; p < d.placeCoord.size(); p++) { vector<Foot> t;
      for (int s = 0; s < 4; s++) { double di = birdDistance(d, p, s), fr = di - floor(di); if (fr < 0.02 || fr > 0.98) return false; double ti = floor(di) / (5 / 3.6); fr = ti - floor(ti); if (fr < 0.02 || fr > 0.98) return false; t.push_back({s, (int)ti, (int)di}); } d.places.push_back(t); }
    TripSpec a, b; a.stops = {0, 1}; a.dep = 12; a.seg = 3; b.stops = {3, 0, 2}; b.dep = 10; b.seg = 2; addTrip(d, a, BASE); addTrip(d, b, BASE); if (tr) { TripSpec c; c.stops = {2, 1}; c.dep = 15; addTrip(d, c, BASE); }
    allScenario(d); return true; };
  f.queries = [](uint64_t, const DS& d, vector<Q>& v) {
    auto lims = [&](int p) { std::set<int> all, s; for (auto& x : d.places[p]) all.insert(x.time); for (int t : all) for (int dl : {-1, 1, 2}) if (t + dl > 0 && !all.count(t + dl)) s.insert(t + dl);
      // a limit that only the rounding of distance and time separates from a walk decides nothing
      for (auto& x : d.places[p]) for (auto it = s.begin(); it != s.end();) { double di = birdDistance(d, p, x.to), reach = *it * (5 / 3.6); if (fabs(di - reach) < 0.05 || (di <= reach) != (x.time <= *it)) it = s.erase(it); else ++it; }
      s.insert(0); s.insert(OMIT); return s; };
    for (int a : lims(0)) for (int e : lims(1)) { Q q = route(true, 0, 1, BASE - 120); q.maxAcc = a; q.maxEgr = e; if (a != OMIT || e != OMIT || true) v.push_back(q); q = route(false, 0, 1, BASE + 3000); q.maxAcc = a; q.maxEgr = e; v.push_back(q); }
    for (int a : lims(0)) { Q q = acc(true, 0, BASE - 120); q.maxAcc = a; v.push_back(q); q = acc(false, 0, BASE + 3000); q.maxEgr = a; v.push_back(q); } };
  return f;
}
// W: the repository's client of the walking router's table service
inline Family famW(bool thorough) {
  Family f; f.name = "W"; f.what = "stops and places at real coordinates, walks by the repository's client of the table service: positions and detour factors of the stops, every access and egress limit at and just below a walking time (the limits also decide which stops are asked about)";
  const int NB = 5; f.n = 15 * 15 * NB * (thorough ? 3 * 2 : 1);
  f.build = [thorough](uint64_t i, DS& d) {
    Radix r{i}; int f2 = thorough ? r.take(3) : (int)(i % 3), tr = thorough ? r.take(2) : (int)(i / 7 % 2); double lat0 = 45.5, lon0 = -73.5; d.init(6); d.osrm = true;
    static const int dist[5] = {35, 250, 610, 990, 1240}; static const double fac[3] = {1.06, 1.5, 2.3}; const double pi = 3.14159265358979323846, mlon = 78200, mlat = 111130;
    auto at = [&](double n, double e) { return std::make_pair(std::round((lat0 + n / mlat) * 1e6) / 1e6, std::round((lon0 + e / mlon) * 1e6) / 1e6); };
    struct P { int k, f; double dir; }; P p[6]; p[0] = {(int)r.take(5), 0, 0.3}; p[0].f = r.take(3); p[1] = {(int)r.take(5), 0, 2.1}; p[1].f = r.take(3); p[2] = {(int)r.take(5), f2, 4.0}; p[3] = {2, 1, 3.5}; p[4] = {1, 2, 5.2}; p[5] = {0, 0, 0}; if (i % 4 == 1) p[3] = p[0]; // two stops at one place
    d.placeCoord = {at(0, 0), at(100, 9000)}; d.places.resize(2); d.stopCoord.resize(6); (void)pi;
    for (int s = 0; s < 6; s++) { int pl = s == 1 || s == 2; double D = dist[p[s].k]; d.stopCoord[s] = s == 5 ? at(-4000, 3000) : at((pl ? 100 : 0) + D * sin(p[s].dir), (pl ? 9000 : 0) + D * cos(p[s].dir)); if (s < 5) { int m = (int)(D * fac[p[s].f]) + 1; d.places[pl].push_back({s, (int)(m / (5 / 3.6)) + 2, m}); } }
    TripSpec a, b, c; a.stops = {0, 5, 1}; a.dep = 22; a.seg = 3; b.stops = {3, 0, 2}; b.dep = 20; b.seg = 2; addTrip(d, a, BASE); addTrip(d, b, BASE); if (tr) { c.stops = {4, 2, 1}; c.dep = 25; addTrip(d, c, BASE); }
    allScenario(d); return true; };
  f.queries = [thorough](uint64_t i, const DS& d, vector<Q>& v) {
    auto lims = [&](int p) { std::set<int> s; for (auto& x : d.places[p]) for (int dl : {-1, 0}) s.insert(x.time + dl); s.insert(OMIT); return vector<int>(s.begin(), s.end()); };
    auto la = lims(0), le = lims(1); for (size_t x = 0; x < la.size(); x++) for (size_t y = 0; y < le.size(); y++) if (thorough || la[x] == OMIT || le[y] == OMIT || (x + y + i) % 3 == 0) { Q q = route(true, 0, 1, BASE - 120); q.maxAcc = la[x]; q.maxEgr = le[y]; v.push_back(q); q = route(false, 0, 1, BASE + 4200); q.maxAcc = la[x]; q.maxEgr = le[y]; v.push_back(q); }
    Q q = route(true, 0, 1, BASE - 120); q.maxAcc = q.maxEgr = 9000; v.push_back(q); q = route(true, 1, 0, BASE - 120); v.push_back(q);
    for (int x : la) { Q q = acc(true, 0, BASE - 120); q.maxAcc = x; v.push_back(q); q.maxEgr = 1; v.push_back(q); } for (int y : le) { Q q = acc(false, 1, BASE + 4200); q.maxEgr = y; v.push_back(q); q.maxAcc = 1; v.push_back(q); } };
  return f;
}
// X: sizes beyond 8 and 16 bits (stops of a path, stops, lines, trips, connections)
inline Family famX(bool alt = false) {
  Family f; f.name = alt ? "XA" : "X"; f.what = string(alt ? "with alternatives: " : "") + "a path of 300 stops in both directions; 320 lines of one trip over 300 stops; 320 trips on one path of 230 stops (73 000 connections)"; f.n = alt ? 2 : 3; f.batch = 1; f.shifts = 2;
  f.build = [](uint64_t i, DS& d) {
    const int n = i == 2 ? 230 : 300; d.init(n); vector<int> up, down; for (int k = 0; k < n; k++) up.push_back(k); down.assign(up.rbegin(), up.rend()); vector<int> at = {0, 100, 128, n - 30, n - 1, 200};
    if (i == 0) { at = {0, 127, 128, 255, 257, 299}; TripSpec t; t.seg = 20; for (int k = 0; k < 2; k++) { t.stops = up; t.dep = k * 4000; addTrip(d, t, BASE, k ? 0 : -1, 1); t.stops = down; t.dep = 2000 + k * 3500; addTrip(d, t, BASE, k ? 1 : -1, 1); } TripSpec x; x.stops = {129, 260, 299}; x.dep = 3000; x.seg = 300; addTrip(d, x, BASE, -1, 1); d.foot[255].push_back({260, 60, 66}); d.foot[256].push_back({255, 30, 33}); }
    if (i == 1) { for (int k = 0; k < 320; k++) { TripSpec t; int a = (k * 13) % 300, b = (k * 29 + 7) % 300, c = at[k % 6]; if (a == b) b = (b + 1) % 300; t.stops = {a}; if (c != a) t.stops.push_back(c); if (b != c) t.stops.push_back(b); if (t.stops.size() < 2) t.stops.push_back((b + 1) % 300); t.dep = k * 37; t.seg = 200 + k % 7 * 50; addTrip(d, t, BASE, -1, 1); } for (int k = 0; k + 1 < 300; k++) d.foot[k].push_back({k + 1, 100, 101}); }
    if (i == 2) { PathM p; d.lines.push_back(LineM()); p.line = 0; p.stops = up; for (int k = 0; k + 1 < n; k++) p.dist.push_back(300 + k); d.paths.push_back(p); for (int k = 0; k < 320; k++) { TripM m; m.path = 0; int c = 5 * 3600 + k * 180; for (int j = 0; j < n; j++) { m.arr.push_back(c); m.dep.push_back(c); c += 40 + (k * 7 + j) % 5; m.bd.push_back(1); m.ub.push_back(1); } d.trips.push_back(m); } TripSpec t; t.stops = {100, 228}; t.dep = 72000; t.seg = 1500; addTrip(d, t, 0, -1, 1); }
    allScenario(d); for (int s : at) { d.places.push_back({{s, 60, 61}}); if (s + 1 < n) d.places.back().push_back({s + 1, 90, 92}); } return true; };
  f.queries = [alt](uint64_t i, const DS& d, vector<Q>& v) { vector<int> t0 = {BASE - 200, BASE + 2500}, t1 = {BASE + 6200, BASE + 12500}; if (i == 2) { t0 = {19 * 3600 + 1000, 20 * 3600}; t1 = {22 * 3600, 23 * 3600}; }
    for (size_t o = 0; o < d.places.size(); o++) for (int k = 0; k < 2; k++) { for (size_t e = 0; e < d.places.size(); e++) if (e != o && (i < 2 || (o + e) % 3 == 0)) { Q q = route(true, o, e, t0[k]); q.alt = alt; v.push_back(q); q = route(false, o, e, t1[k]); q.alt = alt; v.push_back(q); } if (!alt) { v.push_back(acc(true, o, t0[k])); v.push_back(acc(false, o, t1[k])); } } };
  return f;
}
} // namespace vf
