// C14: concurrent requests under a controlled scheduler.  Every schedule with
// at most one preemption at any scheduling point (functions of the repository,
// allocations, locks, hook points, router calls) and at most two (thorough:
// three) at the coarse ones (locks, hook points, router calls), for every
// combination of requests, cache setting and state of the cache; each answer
// against the one an idle server gives, then the same probes again one by one.
// Built twice: AddressSanitizer (lifetimes), ThreadSanitizer (races that the
// explored schedules do not order).
#include "requests.hpp"
#include "sched/sched.hpp"
namespace vf { Counters g_cnt; }
using namespace vf;
static Pool P; static int cRun, cAns, cPre, cBlocked, cCombo; static DS D[2]; static string dirs[2]; static vector<Req> R[2]; static SharedTexts* base[2]; static sched::Trace* TR; static bool tsan = false;
static const int B = 8 * 3600;
struct PointGeo : TableGeo { using TableGeo::TableGeo; vector<T::NodeTimeDistance> getAccessibleNodesFootpathsFromPoint(const T::Point& p, const std::map<uuid, T::Node>& n, int m, float s, bool r = false) override { sched::point(sched::COARSE); auto v = TableGeo::getAccessibleNodesFootpathsFromPoint(p, n, m, s, r); sched::point(sched::COARSE); return v; } };
// the OSRM table service over the places of the data set
static string routerReplyAt(const DS& d, const string& target) { sched::point(sched::COARSE); string r = routerTable(d, target, false); sched::point(sched::COARSE); return r; }
static DS net(bool euclid) {
  DS d; d.init(5); d.nAgencies = 2; d.nServices = 2; d.foot[2].push_back({3, 100, 90}); d.foot[3].push_back({2, 100, 90});
  d.lines = {LineM{0, 0, 1}, LineM{1, 1, 1}, LineM{0, 0, 1}}; d.paths = {PathM{0, {0, 1, 2}, {500, 501}}, PathM{1, {0, 4, 3}, {600, 601}}, PathM{2, {3, 4}, {700}}};
  for (int p = 0; p < 3; p++) for (int k = 0; k < 2; k++) { TripM t; t.path = p; t.service = k; int c = B + k * 300 + p * 100 + (p == 2 ? 800 : 0); for (size_t i = 0; i < d.paths[p].stops.size(); i++) { t.arr.push_back(c); t.dep.push_back(c); c += 240 + 20 * k; t.bd.push_back(1); t.ub.push_back(1); } d.trips.push_back(t); }
  ScenM a; a.services = {0}; d.scen.push_back(a); a.services = {1}; d.scen.push_back(a); a.services = {0, 1}; a.exceptLines = {0}; d.scen.push_back(a); a = {}; a.services = {0, 1}; a.onlyAgencies = {1}; a.exceptLines = {1}; d.scen.push_back(a); // 3: no trip
  d.places = {{{0, 60, 61}}, {{4, 60, 62}, {2, 120, 130}}, {{2, 30, 31}}};
  if (!euclid) { for (double x : {0.0, 0.010, 0.020, 0.022, 0.030}) d.stopCoord.push_back({45.5, -73.6 + x}); d.placeCoord = {{45.5002, -73.5996}, {45.5002, -73.5695}, {45.5002, -73.5799}}; } // not the same stops near each place
  if (euclid) { d.euclid = true; for (int i = 0; i < 5; i++) d.stopCoord.push_back({45.5 + 0.006 * (i % 2), -73.6 + 0.02 * i}); d.placeCoord = {{45.5004, -73.5996}, {45.5004, -73.5204}, {45.5004, -73.5604}}; }
  return d; }
struct Task { int data, warm; bool all; vector<int> rq; int mode, bound; }; // mode 0: fine, one preemption; 1: coarse points, bound; 2: fine then coarse / coarse then fine
static vector<Task> tasks; static const Task* cur; static HttpServerProc* srv;
static json planText(const sched::Plan& p) { json a = json::array(); for (int i = 0; i < p.nc; i++) a.push_back("at forced switch " + to_string(i) + ", choice " + to_string(p.choice[i])); for (int i = 0; i < p.np; i++) a.push_back("before point " + to_string(p.p[i].at) + ", to thread " + to_string(p.p[i].to)); return json{{"points", p.fine ? "all" : "locks, hook points, router calls"}, {"decisions", a}}; }
static json where() { json j; j["cacheAllConnectionSets"] = cur->all; j["walking_router"] = cur->data ? "bird distance" : "table"; j["served_before"] = cur->warm < 0 ? json("nothing") : json(R[cur->data][cur->warm].name); json q = json::array(); for (int r : cur->rq) q.push_back(R[cur->data][r].name); j["concurrent_requests"] = q; return j; }
static bool go(const sched::Plan& plan) {
  P.count(cRun); memset((void*)TR, 0, offsetof(sched::Trace, pt));
  int st = forked([&] { alarm(60); sched::neverReuse(); vector<string> out(cur->rq.size()); vector<std::function<void(int)>> f; for (size_t i = 0; i < cur->rq.size(); i++) f.push_back([&](int k) { out[k] = srv->raw(R[cur->data][cur->rq[k]].bytes); });
    sched::run(f.size(), f.data(), plan, TR); P.count(cAns, f.size()); P.count(cPre, TR->preempted); P.count(cBlocked, TR->blockedTimes > 0);
    auto judge = [&](int r, const string& got, const string& when) { if (base[cur->data]->is(r, got)) return; json j = where(); j["violations"] = {when}; j["schedule"] = planText(plan); j["request"] = R[cur->data][r].name; j["answer"] = shorten(got); j["expected"] = shorten(base[cur->data]->get(r)); P.violation(j); };
    for (size_t i = 0; i < f.size(); i++) judge(cur->rq[i], out[i], "the answer to a concurrent request differs from that of an idle server");
    static const int after[] = {1, 0, 2}; for (int r : after) { P.count(cAns); judge(r, srv->raw(R[cur->data][r].bytes), "after concurrent requests, the answer to a request differs from that of an idle server"); } });
  if (st && !P.violated()) { json j = where(); j["violations"] = {TR->deadlock ? "the concurrent requests block each other forever" : tsan && WIFEXITED(st) && WEXITSTATUS(st) == 98 ? "a data race between concurrent requests" : signame(st, 60) + " while or after serving concurrent requests"}; j["schedule"] = planText(plan); j["stderr"] = P.stderrTail(P.scratch + "/stderr"); P.violation(j); }
  return !P.violated();
}
// every schedule with at most 'left' further preemptions, whose decisions come after the last one of the plan
// (a forced switch at which c points had been counted comes after point c-1 and before point c)
static void dfs(const sched::Plan& plan, int left, long last) {
  if (!go(plan)) return; uint64_t n = TR->n; vector<sched::Point> pt(TR->pt, TR->pt + n); int nf = std::min(TR->forced, 16); vector<int> opts(TR->forcedOptions, TR->forcedOptions + nf); vector<long> at; for (int i = 0; i < nf; i++) at.push_back(2 * (long)TR->forcedAt[i] - 1);
  for (int i = plan.nc; i < nf; i++) if (at[i] >= last) for (int c = 1; c < opts[i]; c++) { sched::Plan q = plan; while (q.nc < i) q.choice[q.nc++] = 0; q.choice[q.nc++] = c; dfs(q, left, at[i]); if (P.violated()) return; }
  if (left > 0 && plan.np < sched::MAXPLAN) for (long k = 0; k < (long)n; k++) if (2 * k > last) for (int t = 0; t < (int)cur->rq.size(); t++) if (t != pt[k].thread && pt[k].enabled >> t & 1) { sched::Plan q = plan; q.p[q.np].at = k; q.p[q.np].to = t; q.np++; for (int i = q.nc; i < nf && at[i] < 2 * k; i++) q.choice[q.nc++] = 0; dfs(q, left - 1, 2 * k); if (P.violated()) return; }
}
static void fine(const Task& t) {
  for (int first = 0; first < (int)t.rq.size(); first++) { sched::Plan p; p.fine = true; p.nc = 1; p.choice[0] = first; if (!go(p)) return; uint64_t n = TR->n; vector<sched::Point> pt(TR->pt, TR->pt + n);
    for (uint64_t k = 0; k < n && pt[k].thread == first; k++) for (int to = 0; to < (int)t.rq.size(); to++) if (to != first && pt[k].enabled >> to & 1) { sched::Plan q = p; q.np = 1; q.p[0].at = k; q.p[0].to = to; if (!go(q)) return; 
      if (t.mode == 2) { uint64_t n2 = TR->n; vector<sched::Point> p2(TR->pt, TR->pt + n2); for (uint64_t m = k + 1; m < n2 && p2[m].thread == to; m++) if (pt[k].kind || p2[m].kind) { sched::Plan z = q; z.np = 2; z.p[1].at = m; z.p[1].to = first; if (!go(z)) return; } } } }
}
int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off); P.parse(argc, argv); tsan = P.args.count("--tsan"); P.engine = tsan ? "c14tsan" : "c14poison"; P.prop = "C14"; bool th = P.tier == "thorough";
  cCombo = P.counter("states"); cRun = P.counter("schedules"); cAns = P.counter("transitions"); cPre = P.counter("preemptions"); cBlocked = P.counter("schedules_with_blocking"); P.hang = th ? 2000 : 800; TR = sharedMem<sched::Trace>();
  for (int e = 0; e < 2; e++) { D[e] = net(e); dirs[e] = P.scratch + "/data" + to_string(e); writeDir(dirs[e], encodeCache(D[e])); auto rq = [&](bool fwd, int o, int d, int s, bool alt = false) { Q q = route(fwd, o, d, fwd ? B - 300 : B + 1500, OMIT); q.scen = s; q.alt = alt; return q; }; auto ac = [&](bool fwd, int p, int s) { Q q = acc(fwd, p, fwd ? B - 300 : B + 1500, OMIT); q.scen = s; return q; };
    const DS& d = D[e]; R[e] = {reqOf(d, rq(true, 0, 1, 0)), reqOf(d, rq(true, 0, 1, 1)), reqOf(d, rq(true, 0, 1, 2)), reqOf(d, ac(true, 0, 0)), reqOf(d, ac(false, 1, 1)), reqOf(d, rq(true, 0, 1, 1, true)), reqOf(d, rq(false, 0, 2, 0)), reqOf(d, rq(true, 0, 1, 3)), summaryOf(d, rq(true, 0, 1, 0, true)), get("/v2/route?origin=abc&destination=1,2"), reqOf(d, rq(true, 0, 2, 0)), reqOf(d, rq(false, 0, 1, 1)), reqOf(d, rq(true, 0, 2, 2, true)), reqOf(d, ac(true, 2, 3)), get("/v2/accessibility?place=1,1&scenario_id=" + uuidStr(K_SCEN, 0) + "&time_of_trip=-1"), reqOf(d, rq(true, 1, 0, 0))};
    base[e] = new SharedTexts(R[e].size(), 1 << 24); for (size_t r = 0; r < R[e].size(); r++) { int st = forked([&] { alarm(100); if (P.replay.empty()) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); } vfhttp::g_router = [e](const string& t) { return routerReplyAt(D[e], t); }; Server s(D[e], dirs[e], false); base[e]->set(r, s.ask(R[e][r])); _exit(0); }); if (st) base[e]->set(r, "baseline: " + signame(st, 100)); } }
  if (P.args.count("--list")) { for (int e = 0; e < 2; e++) for (size_t r = 0; r < R[e].size(); r++) { string b = base[e]->get(r); std::cout << e << " " << r << " " << R[e][r].name << " -> " << b.size() << " " << parseBody(parseResponses(b).at(0)).dump().substr(0, 250) << "\n"; } return 0; }
  auto add = [&](int data, bool all, int warm, vector<int> rq, int mode, int bound = 0) { tasks.push_back(Task{data, warm, all, rq, mode, bound}); };
  int nr = th ? R[0].size() : tsan ? 7 : 10; vector<int> f2 = th ? vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : vector<int>{0, 1, 3, 5};
  for (int data = 0; data < 2; data++) for (int all = 0; all < 2; all++) {
    if (data && !th) { for (int i : {0, 1, 4}) for (int j : {0, 1, 5}) add(data, all, -1, {i, j}, 1, 1); continue; }
    // two requests: coarse points
    for (int i = 0; i < nr; i++) for (int j = i; j < nr; j++) for (int w : th ? (data ? vector<int>{-1, 0} : vector<int>{-1, 0, 1, 2}) : tsan ? vector<int>{-1, 1} : vector<int>{-1, 0, 1}) add(data, all, w, {i, j}, 1, tsan ? 1 : th && !data && w == -1 ? 3 : 2);
    // two requests: any point
    if (!tsan && !data) for (int i : f2) for (int j : f2) if (i <= j) for (int w : th ? vector<int>{-1, 0, 1} : j == 0 || i == 5 ? vector<int>{-1, 1} : vector<int>{-1}) add(data, all, w, {i, j}, 0);
    // three requests
    vector<int> s3 = th ? vector<int>{0, 1, 2, 3, 5} : vector<int>{0, 1, 3}; for (int i : s3) for (int j : s3) for (int k : s3) if (i <= j && j <= k) for (int w : {-1, 0}) add(data, all, w, {i, j, k}, 1, tsan ? 1 : th ? 2 : 1);
    if (!tsan && th && !data) for (int i : {0, 1}) for (int j : {0, 5}) add(data, all, -1, {i, j}, 2); }
  // the long ones first
  std::stable_sort(tasks.begin(), tasks.end(), [](const Task& a, const Task& b) { auto c = [](const Task& t) { return t.mode == 2 ? 0 : t.mode == 0 ? 1 : t.bound >= 3 ? 2 : 3; }; return c(a) < c(b); });
  auto describe = [&](uint64_t i) { cur = &tasks[i]; json j = where(); j["schedules"] = cur->mode == 0 ? "one preemption at any point" : cur->mode == 2 ? "two preemptions, one of them at a coarse point" : to_string(cur->bound) + " preemptions at coarse points"; return j; };
  P.cov["counting"] = "states: combinations of concurrent requests, cache setting, walking router and earlier request; schedules: executions under distinct schedules; transitions: requests executed; all answers are compared with the idle-server baseline";
  P.assumptions = {"sequentially consistent interleavings of the scheduling points; the ThreadSanitizer build reports what is not ordered by synchronisation", "the first use of a function-local static is not interrupted", "two or three requests at a time; no cache refresh in flight; network of 5 stops and 6 trips", "in-memory sockets: each request is read, handled and answered in a thread of its own, as in the thread pool"};
  return P.run(tasks.size(), [&](uint64_t i) { cur = &tasks[i]; P.count(cCombo); PointGeo geo(D[cur->data]); vfhttp::g_geo = &geo; vfhttp::g_router = [](const string& t) { return routerReplyAt(D[cur->data], t); }; TR = sharedMem<sched::Trace>(); bool ran = false; sched::inlineThreads = true;
    HttpServerProc s(Server::args(D[cur->data], dirs[cur->data], cur->all, {}), [&](HttpServerProc& p) { srv = &p; ran = true; sched::inlineThreads = false; if (cur->warm >= 0) p.raw(R[cur->data][cur->warm].bytes); // no other thread: the race detector is blind in the forks of a process with several
      if (cur->mode == 1) { sched::Plan q; q.fine = false; dfs(q, cur->bound, -2); } else fine(*cur); _exit(0); });
    _exit(ran ? 0 : 95); }, describe);
}
