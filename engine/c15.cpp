// C15: every history of requests, replacements of the cache files and refreshes
// up to a depth; whenever a completed refresh covers all that changed on disk,
// every probe is compared byte by byte with a server freshly started on the
// files now on disk.
#include "requests.hpp"
namespace vf { Counters g_cnt; }
using namespace vf;
static Pool P; static int cNodes, cAns, cCmp, cRefresh;
static const int NS = 8, NC = 5, NO = 10; // variants of the schedules, the scenarios, everything else
static const char* SN[NS] = {"base", "all trips 7 minutes later, one gone, one new", "the first line runs no trip", "other services and boarding flags, reverse order", "the schedule file of one line missing", "the schedule file of one line truncated", "no trip at all", "all schedule files missing"};
static const char* CN[NC] = {"base", "scenario 0 restricted, scenario 1 widened", "scenario 1 gone, scenario 3 new", "truncated file", "missing file"};
static const char* ON[NO] = {"base", "other coordinates, walks, agencies of lines, modes and distances", "one stop less", "nodes missing", "lines missing", "agencies missing", "services missing", "paths missing", "a node file truncated", "paths through other stops"};
struct V { int s = 0, c = 0, o = 0; bool operator==(const V& x) const { return s == x.s && c == x.c && o == x.o; } int id() const { return (s * NC + c) * NO + o; } static V of(int i) { return V{i / NO / NC, i / NO % NC, i % NO}; } string name() const { return "v" + to_string(s) + to_string(c) + to_string(o); } json text() const { return string("schedules: ") + SN[s] + "; scenarios: " + CN[c] + "; other: " + ON[o]; } };
static const int NV = NS * NC * NO;
static const int B = 8 * 3600;
static DS make(V v) {
  DS d; d.init(v.o == 2 ? 5 : 6); d.nAgencies = 2; d.nServices = 2;
  auto F = [&](int a, int b, int t) { if (a < d.ns && b < d.ns) { d.foot[a].push_back({b, t, t + 5}); d.foot[b].push_back({a, t + 10, t + 6}); } };
  F(1, 4, v.o == 1 ? 300 : 120); F(3, 5, 200); if (v.o == 1) F(0, 4, 100);
  d.lines = {LineM{0, 0, 1}, LineM{1, 1, 1}, LineM{0, 3, 1}}; if (v.o == 1) { d.lines[0].agency = 1; d.lines[2].mode = 1; }
  d.paths = {PathM{0, {0, 1, 2, 3}, {500, 501, 502}}, PathM{0, {3, 2, 1, 0}, {503, 504, 505}}, PathM{1, v.o == 2 ? vector<int>{1, 4, 3} : vector<int>{1, 4, 5}, {600, 601}}, PathM{2, {0, 4}, {700}}};
  if (v.o == 1) d.paths[0].dist = {900, 901, 902}; if (v.o == 9) { d.paths[0].stops = {0, 2, 1, 3}; d.paths[3].stops = {0, 5}; }
  if (v.o == 1) for (int i = 0; i < d.ns; i++) d.stopCoord.push_back({45.1 + 0.001 * i, -73.2 - 0.001 * i});
  if (v.s != 6) for (int p = 0; p < 4; p++) for (int k = 0; k < 3; k++) {
    if (v.s == 2 && p < 2) continue; if (v.s == 1 && p == 0 && k == 0) continue;
    TripM t; t.path = p; t.service = v.s == 3 ? 1 - k % 2 : k % 2; int c = B + k * 900 + p * 200 + (v.s == 1 ? 420 : 0); for (size_t i = 0; i < d.paths[p].stops.size(); i++) { t.arr.push_back(c); t.dep.push_back(c); c += 240; t.bd.push_back(!(v.s == 3 && i == 1)); t.ub.push_back(1); } d.trips.push_back(t); }
  if (v.s == 1) { TripM t = d.trips.back(); for (auto& x : t.arr) x += 333; for (auto& x : t.dep) x += 333; d.trips.push_back(t); }
  if (v.s == 3) std::reverse(d.trips.begin(), d.trips.end());
  ScenM a, b, c; a.services = {0, 1}; b.services = {0}; c.services = {0, 1}; c.exceptLines = {0};
  if (v.c == 1) { a.services = {1}; a.exceptModes = {3}; b.services = {0, 1}; }
  d.scen = {a, b, c}; if (v.c == 2) { d.scen = {a, ScenM(), c, b}; }
  d.places = {{{0, 60, 61}, {1, 400, 410}}, {{3, 60, 62}, {5, 90, 91}}, {{4, 30, 31}, {2, 500, 505}}}; return d;
}
static Files files(V v) {
  Files f = encodeCache(make(v)); string l0 = "lines/line_" + uuidStr(K_LINE, 0) + ".capnpbin";
  if (v.c == 2) { DS d = make(v); }
  if (v.s == 4) f.erase("lines/line_" + uuidStr(K_LINE, 1) + ".capnpbin"); if (v.s == 5) f[l0] = f[l0].substr(0, f[l0].size() / 2); if (v.s == 7) for (int i = 0; i < 3; i++) f.erase("lines/line_" + uuidStr(K_LINE, i) + ".capnpbin");
  if (v.c == 3) f["scenarios.capnpbin"] = f["scenarios.capnpbin"].substr(0, 40); if (v.c == 4) f.erase("scenarios.capnpbin");
  switch (v.o) { case 3: f.erase("nodes.capnpbin"); break; case 4: f.erase("lines.capnpbin"); break; case 5: f.erase("agencies.capnpbin"); break; case 6: f.erase("services.capnpbin"); break; case 7: f.erase("paths.capnpbin"); break; case 8: { string n = "nodes/node_" + uuidStr(K_STOP, 1) + ".capnpbin"; f[n] = f[n].substr(0, 20); break; } }
  return f;
}
static DS geoDs; static string root; static vector<Req> probes; static vector<int> warmOf; static SharedTexts* base;
static string dirOf(V v) { return root + "/versions/" + v.name(); }
static void link(const string& cur, V v) { string tmp = cur + "_"; unlink(tmp.c_str()); if (symlink(dirOf(v).c_str(), tmp.c_str()) || rename(tmp.c_str(), cur.c_str())) { perror("symlink"); _exit(3); } }

struct Op { int kind; int a = 0; V v; string name; }; // 0 write version v (component a: 0 schedules, 1 scenarios, 2 other, 3 all three), 1 refresh (a: 0 all, 1 schedules, 2 scenarios and schedules; name: query string), 2 ask probe a, 3 refresh all from the directory of v
static string upd(const string& q) { return "/updateCache?" + q; }
struct State { V disk, loaded; };
struct Run { Server& s; string cur; json hist; bool all; };
static string opText(const Op& o, V disk) { switch (o.kind) { case 0: return "files replaced: " + disk.text().get<string>(); case 1: return "GET " + o.name; case 3: return "GET " + o.name + " (" + o.v.text().get<string>() + ")"; default: return "GET " + probes[o.a].name; } }
static bool compareAll(Run& r, V v, const State& st) {
  for (size_t p = 0; p < probes.size(); p++) { P.at(r.hist.dump() + " then " + probes[p].name); string got = r.s.ask(probes[p]); P.count(cAns); P.count(cCmp);
    if (!base->is(v.id() * probes.size() + p, got)) { P.violation({{"violations", {"after the refresh an answer differs from that of a server freshly started on the files now on disk"}}, {"cacheAllConnectionSets", r.all}, {"history", r.hist}, {"request", probes[p].name}, {"answer", shorten(got)}, {"expected", shorten(base->get(v.id() * probes.size() + p))}}); return false; } }
  return true;
}
// applies one operation; false when a violation was found
static bool apply(Run& r, State& st, const Op& o) {
  if (o.kind == 0) { if (o.a == 0) st.disk.s = o.v.s; else if (o.a == 1) st.disk.c = o.v.c; else if (o.a == 2) st.disk.o = o.v.o; else st.disk = o.v; link(r.cur, st.disk); r.hist.push_back(opText(o, st.disk)); return true; }
  r.hist.push_back(opText(o, st.disk)); P.at(r.hist.dump()); P.count(cAns);
  if (o.kind == 2) { string got = r.s.ask(probes[o.a]); auto v = parseResponses(got); if (v.size() != 1 || !v[0].error.empty()) { P.violation({{"violations", {"not exactly one well-formed response"}}, {"history", r.hist}, {"answer", shorten(got)}}); return false; }
    if (st.loaded == st.disk && !base->is(st.disk.id() * probes.size() + o.a, got)) { P.violation({{"violations", {"an answer differs from that of a fresh server"}}, {"cacheAllConnectionSets", r.all}, {"history", r.hist}, {"answer", shorten(got)}, {"expected", shorten(base->get(st.disk.id() * probes.size() + o.a))}}); return false; } return true; }
  P.count(cRefresh); Resp a = r.s.srv.get(o.name); json j = parseBody(a);
  if (a.code != 200 || !a.error.empty() || j.value("status", "") != "success") { P.violation({{"violations", {"the refresh is not answered with success"}}, {"history", r.hist}, {"answer", shorten(a.body)}, {"code", a.code}}); return false; }
  if (o.kind == 3) { st.loaded = V{-1, -1, -1}; return compareAll(r, o.v, st); }
  // what is loaded now; -1: some mixture
  V& l = st.loaded; if (o.a == 0) l = st.disk; else if (l.o == st.disk.o && l.o >= 0) { if (o.a == 2) l.c = st.disk.c; if (o.a == 1 || o.a == 2) l.s = st.disk.s; if (o.a == 4) l = V{-1, -1, -1}; } else l = V{-1, -1, -1};
  // a partial refresh leaves a mixture until everything is refreshed
  if (l == st.disk) return compareAll(r, st.disk, st);
  return true;
}
static void explore(Run& r, State st, const vector<Op>& ops, int depth, int last) {
  for (size_t k = 0; k < ops.size(); k++) {
    if (P.violated()) return; const Op& o = ops[k]; if (last >= 0 && o.kind == 0 && ops[last].kind == 0 && ops[last].a == o.a) continue; if (o.kind == 0) { V d = st.disk; if (o.a == 0) d.s = o.v.s; else if (o.a == 1) d.c = o.v.c; else if (o.a == 2) d.o = o.v.o; else d = o.v; if (d == st.disk) continue; }
    if (depth == 1 && o.kind == 0) continue; // nothing to observe
    P.count(cNodes); int s = forked([&] { alarm(P.hang); State t = st; Run q{r.s, r.cur, r.hist, r.all}; if (apply(q, t, o) && depth > 1) explore(q, t, ops, depth - 1, k); }); link(r.cur, st.disk);
    if (s && !P.violated()) { r.hist.push_back(opText(o, st.disk)); P.violation({{"violations", {signame(s, P.hang) + " during or after this history"}}, {"cacheAllConnectionSets", r.all}, {"history", r.hist}, {"at", string(P.sh->at)}, {"stderr", P.stderrTail(P.scratch + "/stderr")}}); return; } }
}

int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off); P.engine = "c15asan"; P.parse(argc, argv); P.prop = "C15"; bool th = P.tier == "thorough";
  cNodes = P.counter("states"); cAns = P.counter("transitions"); cCmp = P.counter("traces_validated_against_impl"); cRefresh = P.counter("refreshes"); P.hang = 60; P.batch = 4;
  root = P.scratch; geoDs = make(V()); mkdir((root + "/versions").c_str(), 0755);
  auto R = [&](bool fwd, int o, int e, int s, bool alt = false) { Q q = route(fwd, o, e, fwd ? B - 120 : B + 2400, OMIT); q.scen = s; q.alt = alt; return q; };
  for (int s = 0; s < 4; s++) { probes.push_back(reqOf(geoDs, R(true, 0, 1, s))); if (s < 3) probes.push_back(reqOf(geoDs, R(false, 2, 1, s))); if (s < 2) { Q a = acc(true, 0, B - 120, OMIT); a.scen = s; probes.push_back(reqOf(geoDs, a)); } }
  { Q a = acc(false, 1, B + 2400, OMIT); probes.push_back(reqOf(geoDs, a)); probes.push_back(reqOf(geoDs, R(true, 0, 1, 0, true))); probes.push_back(reqOf(geoDs, R(true, 0, 2, 1, true))); probes.push_back(summaryOf(geoDs, R(true, 0, 1, 2, true))); probes.push_back(reqOf(geoDs, R(true, 2, 1, 0))); }
  base = new SharedTexts((size_t)NV * probes.size());
  // the versions on disk, and what a fresh server answers on each
  { vector<pid_t> ps; int nb = 8; for (int w = 0; w < nb; w++) { pid_t p = fork(); if (!p) { for (int i = w; i < NV; i += nb) { V v = V::of(i); writeDir(dirOf(v), files(v)); int st = forked([&] { alarm(100); if (P.replay.empty()) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); } Server s(geoDs, dirOf(v), false); for (size_t p = 0; p < probes.size(); p++) base->set(i * probes.size() + p, s.ask(probes[p])); }); if (st) for (size_t p = 0; p < probes.size(); p++) base->set(i * probes.size() + p, "baseline: " + signame(st, 100)); } _exit(0); } ps.push_back(p); } for (pid_t p : ps) { int st; waitpid(p, &st, 0); } }
  if (P.args.count("--list")) { for (int i = 0; i < NV; i++) { V v = V::of(i); std::map<string,int> c; for (size_t p = 0; p < probes.size(); p++) { string b = base->get(i * probes.size() + p); json j = parseBody(parseResponses(b).at(0)); c[j.value("status", "?") + " " + j.value("errorCode", "")]++; } std::cout << v.text() << " " << json(c) << "\n"; } return 0; }

  struct Task { int kind; V a, b; int warm; bool stale, all; int form; string q; vector<Op> ops; int depth; int first; }; vector<Task> tasks;
  vector<string> formsS = {upd("names=schedules"), upd("cache=schedules"), upd("name=unknown,schedules")}, formsCS = {upd("names=scenarios,schedules"), upd("cache_names=schedules,scenarios"), upd("names=schedules&names=scenarios")}, formsA = {upd("names=all"), upd("caches=nodes,data_sources,persons,od_trips,agencies,services,lines,paths,scenarios,schedules"), upd("names=schedules,scenarios,paths,lines,services,agencies,od_trips,persons,data_sources,nodes")};
  auto round = [&](V a, V b, int warm, bool stale, bool all, int form, const string& q) { Task t; t.kind = 0; t.a = a; t.b = b; t.warm = warm; t.stale = stale; t.all = all; t.form = form; t.q = q; tasks.push_back(t); };
  // 1. the schedules alone: every pair of schedule variants, under several of the other kinds
  for (int c : th ? vector<int>{0, 1, 2, 3, 4} : vector<int>{0, 2}) for (int o : th ? vector<int>{0, 1, 2, 3, 5, 8} : vector<int>{0, 1}) for (int s = 0; s < NS; s++) for (int s2 = 0; s2 < NS; s2++) for (int all = 0; all < 2; all++) for (int w = 0; w < 4; w++) for (int stale = 0; stale < 2; stale++) for (size_t q = 0; q < formsS.size(); q++) if (q == 0 || w == 3) round(V{s, c, o}, V{s2, c, o}, w, stale, all, 1, formsS[q]);
  // 2. scenarios and schedules: every pair
  for (int o : th ? vector<int>{0, 1, 2} : vector<int>{0}) for (int i = 0; i < NS * NC; i++) for (int j = 0; j < NS * NC; j++) for (int all = 0; all < 2; all++) for (int w : th ? vector<int>{0, 1, 2, 3} : vector<int>{3}) for (size_t q = 0; q < formsCS.size(); q++) if (th || q == (i + j) % formsCS.size()) round(V{i / NC, i % NC, o}, V{j / NC, j % NC, o}, w, (i + j) % 2, all, 2, formsCS[q]);
  // 3. everything: every pair of the other kinds under several pairs of schedules and scenarios
  vector<std::pair<std::pair<int,int>, std::pair<int,int>>> sc = {{{0, 0}, {0, 0}}, {{0, 0}, {1, 1}}, {{6, 0}, {0, 2}}, {{5, 3}, {0, 0}}, {{0, 0}, {7, 4}}, {{3, 1}, {2, 0}}};
  for (int o = 0; o < NO; o++) for (int o2 = 0; o2 < NO; o2++) for (auto& x : sc) for (int all = 0; all < 2; all++) for (int w : th ? vector<int>{0, 1, 2, 3} : vector<int>{3}) for (size_t q = 0; q < formsA.size() + 1; q++) if (th || q == 0 || q == 1 + (o + o2) % formsA.size()) round(V{x.first.first, x.first.second, o}, V{x.second.first, x.second.second, o2}, w, (o + o2) % 2, all, q == formsA.size() ? 3 : 0, q == formsA.size() ? "" : formsA[q]);
  // 4. the tree of all histories over a small alphabet of operations
  vector<Op> ops; auto W = [&](int comp, V v) { Op o; o.kind = 0; o.a = comp; o.v = v; ops.push_back(o); }; auto U = [&](int form, const string& q) { Op o; o.kind = 1; o.a = form; o.name = q; ops.push_back(o); }; auto A = [&](int p) { Op o; o.kind = 2; o.a = p; ops.push_back(o); };
  W(0, V{1, 0, 0}); W(0, V{6, 0, 0}); W(1, V{0, 1, 0}); W(2, V{0, 0, 1}); W(3, V{0, 0, 0}); U(0, formsA[0]); U(1, formsS[0]); U(2, formsCS[0]); A(0); A(3);
  if (th) { W(0, V{2, 0, 0}); W(2, V{0, 0, 2}); W(1, V{0, 3, 0}); A((int)probes.size() - 3); U(4, upd("names=nodes")); U(4, upd("names=lines,paths")); U(4, upd("names=scenarios")); }
  for (int all = 0; all < 2; all++) for (size_t k = 0; k < ops.size(); k++) for (size_t k2 = 0; k2 < ops.size(); k2++) { Task t; t.kind = 1; t.all = all; t.ops = ops; t.depth = th ? 5 : 5; t.first = k * 100 + k2; tasks.push_back(t); }
  auto describe = [&](uint64_t i) { Task& t = tasks[i]; if (t.kind) return json{{"what", "every history of this length over the alphabet of operations, starting with these two"}, {"length", t.depth}, {"first", opText(t.ops[t.first / 100], V())}, {"second", opText(t.ops[t.first % 100], V())}, {"cacheAllConnectionSets", t.all}}; return json{{"what", "a server on the old files, requests, the new files, requests, the refresh, all probes; twice"}, {"old", t.a.text()}, {"new", t.b.text()}, {"refresh", t.form == 3 ? "names=all with the path of the new files" : t.q}, {"cacheAllConnectionSets", t.all}, {"requests_before", t.warm}}; };
  P.cov["versions_on_disk"] = NV; P.cov["probes"] = probes.size(); P.cov["counting"] = "states: distinct histories (rounds old files / requests / new files / refresh, and nodes of the tree of operation sequences); transitions: requests executed; traces_validated_against_impl: answers compared with the fresh-server baseline";
  P.assumptions = {"the files change only between requests", "a refresh of the schedules (and scenarios) alone is judged when nothing else differs between what is loaded and what is on disk"};
  return P.run(tasks.size(), [&](uint64_t i) {
    Task& t = tasks[i]; string cur = P.scratch + "/cur"; V start = t.kind ? V() : t.a; link(cur, start); Server s(geoDs, cur, t.all); Run r{s, cur, json::array({"server started on " + start.text().get<string>()}), t.all}; State st{start, start};
    if (t.kind) { const Op &a = t.ops[t.first / 100], &b = t.ops[t.first % 100]; P.count(cNodes, 2); if (apply(r, st, a) && apply(r, st, b)) explore(r, st, t.ops, t.depth - 2, t.first % 100); unlink(cur.c_str()); _exit(0); }
    P.count(cNodes); auto ask = [&](int p) { Op o; o.kind = 2; o.a = p; return apply(r, st, o); }; auto warm = [&](int w) { if (w == 1) return ask(0); if (w == 2) return ask((int)probes.size() - 5) && ask(3); if (w == 3) { for (size_t p = 0; p < probes.size(); p++) if (!ask(p)) return false; } return true; };
    Op w; w.kind = 0; w.a = 3; Op u; u.kind = t.form == 3 ? 3 : 1; u.a = t.form;
    for (int k = 0; k < 2; k++) { V to = k ? t.a : t.b; u.v = to; u.name = t.form == 3 ? upd("names=all&path=../" + to.name()) : t.q; if (k && t.form != 3 && !th && t.warm != 3) break; if (!warm(k ? 1 : t.warm)) break; if (t.form != 3) { w.v = to; apply(r, st, w); if (t.stale && !warm(1)) break; } if (!apply(r, st, u)) break; }
    unlink(cur.c_str()); _exit(0);
  }, describe);
}
