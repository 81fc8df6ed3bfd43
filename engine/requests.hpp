// Request alphabets over the city (families.hpp: cityNet) for the whole-server checks
#pragma once
#include "families.hpp"
#include "pool.hpp"
#include "cachedir.hpp"
namespace vf {
// The city with more scenarios and, for the bird-distance router, coordinates of the places near the stops
inline void cityWithScenarios(DS& d, bool euclid = false) {
  cityNet(d, 3);
  ScenM s; s.services = {1}; d.scen.push_back(s);                                   // 5
  s = {}; s.services = {0, 1, 2}; s.exceptLines = {0}; d.scen.push_back(s);         // 6: close to 2
  s = {}; s.services = {0, 1, 2}; s.onlyModes = {0}; d.scen.push_back(s);           // 7
  s = {}; s.services = {0, 1}; s.exceptAgencies = {0, 1, 2}; d.scen.push_back(s);   // 8: a service but no trip
  s = {}; d.scen.push_back(s);                                                      // 9: no service (EMPTY_SCENARIO)
  s = {}; s.services = {2}; d.scen.push_back(s);                                    // 10
  s = {}; s.services = {0, 1, 2}; s.onlyAgencies = {0}; d.scen.push_back(s);        // 11
  if (euclid) { d.euclid = true; d.stopCoord.clear(); for (int i = 0; i < d.ns; i++) d.stopCoord.push_back({45.5 + 0.006 * (i / 4), -73.6 + 0.009 * (i % 4)}); d.placeCoord = {{45.5012, -73.5991}, {45.5125, -73.5735}, {45.5008, -73.5722}, {45.5121, -73.5985}, {45.5066, -73.5824}, {45.5045, -73.5905}}; }
}
struct Req { string bytes, name; };
inline Req get(const string& target) { return {rawGet(target), target}; }
inline Req reqOf(const DS& d, const Q& q) { return get(queryString(d, q)); }
inline Req summaryOf(const DS& d, const Q& q) { return get("/v2/summary" + queryString(d, q).substr(9)); }
inline string place(const DS& d, int p) { char b[80]; snprintf(b, sizeof b, "%.6f,%.6f", d.placeLon(p), d.placeLat(p)); return b; }

struct Alphabets { vector<Req> all; vector<int> medium, small, tiny; };
inline Alphabets alphabets(const DS& d) {
  Alphabets A; std::map<string, int> seen;
  auto add = [&](const Req& r, int level = 0) { auto it = seen.find(r.bytes); int k; if (it == seen.end()) { k = A.all.size(); seen[r.bytes] = k; A.all.push_back(r); } else k = it->second; auto put = [&](vector<int>& v) { if (std::find(v.begin(), v.end(), k) == v.end()) v.push_back(k); }; if (level >= 1) put(A.medium); if (level >= 2) put(A.small); if (level >= 3) put(A.tiny); };
  const int T7 = 7 * 3600 + 300, T8 = 8 * 3600 + 1200, N = d.scen.size();
  auto R = [&](bool fwd, int o, int e, int t, int s = 0) { Q q = route(fwd, o, e, t, OMIT); q.maxFirst = OMIT; q.scen = s; return q; };
  auto Ac = [&](bool fwd, int p, int t, int s = 0) { Q q = acc(fwd, p, t, OMIT); q.maxFirst = OMIT; q.scen = s; return q; };
  auto alt = [](Q q) { q.alt = true; return q; };
  // every scenario through every endpoint
  for (int s = 0; s < N; s++) {
    add(reqOf(d, R(true, 0, 1, T7, s)), s < 2 ? 3 : s == 2 ? 2 : s < 5 || s == 8 || s == 9 ? 1 : 0);
    add(reqOf(d, R(false, 0, 1, T8, s)), s == 1 ? 2 : s < 3 ? 1 : 0);
    add(reqOf(d, alt(R(true, 0, 1, T7, s))), s == 0 ? 3 : s < 3 ? 1 : 0);
    add(reqOf(d, Ac(true, 0, T7, s)), s == 0 ? 2 : s == 1 || s == 3 || s == 9 ? 1 : 0);
    add(reqOf(d, Ac(false, 0, T8, s)), s == 2 ? 2 : 0);
    add(summaryOf(d, alt(R(true, 2, 3, T7, s))), s == 0 ? 2 : 0);
  }
  // each limit
  for (int end = 0; end < 3; end++) for (int p = 0; p < 6; p++) for (int k = 0; k < 2; k++) {
    Q q = end == 2 ? Ac(true, 2, T7) : R(end == 0, 2, 5, end == 0 ? T7 : T8); int lv = p == 0 && k == 0 && end == 0 ? 1 : 0;
    switch (p) { case 0: q.mw = k ? 600 : 0; break; case 1: q.maxTotal = k ? 900 : 3000; break; case 2: q.maxAcc = k ? 25 : 100; if (k == 0 && end == 2) lv = 1; break; case 3: q.maxEgr = k ? 25 : 700; break; case 4: q.maxTr = k ? 1 : 200; if (k == 1 && end == 0) lv = 1; break; case 5: q.maxFirst = k ? 180 : 700; if (k && end == 0) lv = 1; break; }
    add(reqOf(d, q), lv); if (end == 0 && k == 0) add(reqOf(d, alt(q)), p == 1 ? 2 : 0); }
  // every pair of places, every place
  for (int o = 0; o < 6; o++) { for (int e = 0; e < 6; e++) if (o != e) add(reqOf(d, R((o + e) % 2, o, e, (o + e) % 2 ? T7 : T8)), o == 1 && e == 0 ? 2 : 0); add(reqOf(d, Ac(true, o, T7))); add(reqOf(d, Ac(false, o, T8)), o == 5 ? 1 : 0); }
  // times
  for (int t : {0, 6 * 3600, 9 * 3600, 12 * 3600, 24 * 3600, 25 * 3600 + 1800, 31 * 3600 + 3599, 32 * 3600, INT_MAX}) { add(reqOf(d, R(true, 0, 1, t)), t == 12 * 3600 || t == INT_MAX ? 1 : 0); add(reqOf(d, R(false, 0, 1, t)), t == 12 * 3600 ? 1 : 0); }
  // nothing near, one side
  for (int k = 0; k < 4; k++) { string far = "-70.5,44.25", o = k & 1 ? far : place(d, 0), e = k & 2 ? far : place(d, 1); add(get("/v2/route?origin=" + o + "&destination=" + e + "&scenario_id=" + uuidStr(K_SCEN, 0) + "&time_of_trip=25500"), k == 1 ? 2 : k == 2 ? 1 : 0); }
  add(get("/v2/accessibility?place=-70.5,44.25&scenario_id=" + uuidStr(K_SCEN, 0) + "&time_of_trip=25500"));
  // requests with a defect
  for (string ep : {"route", "summary", "accessibility"}) {
    bool ac = ep == "accessibility"; string pl = ac ? "place=" + place(d, 0) : "origin=" + place(d, 0) + "&destination=" + place(d, 1), sc = "&scenario_id=" + uuidStr(K_SCEN, 0), ti = "&time_of_trip=25500", base = "/v2/" + ep + "?";
    int lv = ep == "route" ? 1 : 0;
    add(get(base + pl + ti), lv); add(get(base + pl + sc)); add(get(base + sc + ti), lv ? 2 : 0); add(get(base + (ac ? "place=1,2,3" : "origin=a,b&destination=" + place(d, 1)) + sc + ti)); add(get(base + pl + "&scenario_id=" + uuidStr(K_SCEN, 77) + ti), lv ? 3 : 0); add(get(base + pl + "&scenario_id=nonsense" + ti), lv); add(get(base + pl + sc + "&time_of_trip=abc")); add(get(base + pl + sc + ti + "&min_waiting_time=1x"), lv); add(get(base + pl + sc + "&time_of_trip=-5")); add(get(base + "")); }
  add(get("/"), 1); add(get("/v2/none")); add(get("/updateCache?names=unknown"), 1); add(get("/updateCache"));
  add({"POST /v2/route HTTP/1.1\r\nHost: x\r\nContent-Length: 3\r\n\r\nabc", "POST /v2/route"}, 1); add({"nonsense\r\n\r\n", "a malformed request line"}, 1); add({"GET /v2/route?origin=1,2 HTTP/1.1\r\nHo", "a request cut in its headers"}); add({"", "a connection without a byte"});
  return A;
}
// A server on a cache directory; one per process
struct Server { TableGeo geo; HttpServerProc srv; Server(const DS& d, const string& dir, bool all, const vector<string>& more = {}) : geo(d), srv(args(d, dir, all, more)) { vfhttp::g_geo = &geo; }
  static vector<string> args(const DS& d, const string& dir, bool all, const vector<string>& more) { vector<string> v = {"--cachePath=" + dir, string("--cacheAllConnectionSets=") + (all ? "true" : "false"), string("--useEuclideanDistance=") + (d.euclid ? "true" : "false")}; v.insert(v.end(), more.begin(), more.end()); return v; }
  string ask(const Req& r) { return srv.raw(r.bytes); } };
inline string shorten(const string& s, size_t n = 1500) { return s.size() <= n ? s : s.substr(0, n) + "... (" + to_string(s.size()) + " bytes)"; }
// texts in shared memory, so that a parent can read what its child computed
struct SharedTexts { char* mem; size_t cap; size_t* used; vector<std::pair<size_t,size_t>>* dummy = nullptr; struct E { size_t off, len; }; E* e; SharedTexts(size_t n, size_t capacity = 1ull << 30) : cap(capacity) { mem = sharedMem<char>(cap); used = sharedMem<size_t>(1); e = sharedMem<E>(n + 1); }
  void set(size_t i, const string& s) { size_t o = __sync_fetch_and_add(used, s.size()); if (o + s.size() > cap) { fprintf(stderr, "shared text memory full\n"); _exit(2); } memcpy(mem + o, s.data(), s.size()); e[i] = {o, s.size()}; }
  string get(size_t i) const { return string(mem + e[i].off, e[i].len); } bool is(size_t i, const string& s) const { return e[i].len == s.size() && !memcmp(mem + e[i].off, s.data(), s.size()); } };
} // namespace vf
