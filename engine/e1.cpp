// E1: exhaustive enumeration of bounded families of networks, scenarios and
// queries on the real engine, against the reference model (model.hpp).
#include "data.hpp"
#include "families.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <signal.h>
#include <time.h>
#include <iostream>
#ifdef VF_CACHE
#include "cachesys.hpp"
#ifdef VF_HTTP
typedef vf::HttpSys LoadedSys;
#else
typedef vf::CacheSys LoadedSys;
#endif
#endif

#ifdef VF_COV
extern "C" void __gcov_dump(void);
#define VF_END __gcov_dump()
#else
#define VF_END (void)0
#endif
#ifdef VF_MEMROUTER
#define ENGINE "e1osrm"
#elif defined(VF_HTTP)
#define ENGINE "e1http"
#elif defined(VF_CACHE)
#define ENGINE "e1cache"
#else
#define ENGINE "e1"
#endif
namespace vf { Counters g_cnt; }
using namespace vf;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Shared {          // one per worker, in shared memory
  volatile uint64_t fam, idx, q, inQuery;
  uint64_t states, transitions, datasets, answers, compared, skipped;
  uint64_t legs[12], outcomes[16], alts[8];
  char viol[1 << 16]; volatile int hasViol;
  uint64_t batchDone; volatile uint64_t known; // bit per listed finding that was seen
};

struct Ctx { int prop; string tier; vector<Family> fams; Shared* sh = nullptr; bool verbose = false; string scratch, onlyFam; std::map<string,int> known; vector<string> knownText; };
static const char* OUTC[] = {"success", "NO_ROUTING_FOUND", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION", "NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE", "other"};

static bool applicable(int prop, const DS& ds, const Q& q) {
  switch (prop) {
    case C01: case C02: case C06: return !q.acc;
    case C03: return !q.acc && q.fwd && effective(q).maxFirst <= 0;
    case C05: return !q.acc && q.fwd && effective(q).maxFirst <= 0 && uniformWaiting(ds, q);
    case C04: return !q.acc && !q.fwd && uniformWaiting(ds, q);
    case C08: return q.acc && q.fwd && effective(q).maxFirst <= 0;
    case C09: return q.acc && !q.fwd && uniformWaiting(ds, q);
    case C10: case C19: return !q.acc;
    default: return true;
  }
}

static void tally(Shared* sh, const json& a) {
  sh->answers++;
  string s = statusOf(a); int o = 9;
  if (s == "success") { o = 0; try { const json& res = a.at("result"); if (res.contains("routes")) { size_t n = res.at("routes").size(); sh->alts[std::min<size_t>(n, 7)]++; if (n) sh->legs[std::min<size_t>(11, (res.at("routes").at(0).at("steps").size() - 1) / 3)]++; } } catch (...) {} }
  else { string r = reasonOf(a); for (int k = 1; k < 9; k++) if (r == OUTC[k]) o = k; }
  sh->outcomes[o]++;
}

static bool shiftDS(const DS& d, long long off, DS& out) {
  out = d; for (auto& t : out.trips) { for (auto& x : t.arr) { x += off; if (x < 0 || x >= 32 * 3600) return false; } for (auto& x : t.dep) { x += off; if (x < 0 || x >= 32 * 3600) return false; } } return true;
}

// The offsets applied to a data set: hour and day boundaries, both ends
static vector<long long> offsets(const DS& d, int k, uint64_t idx) {
  long long lo = LLONG_MAX, hi = LLONG_MIN; for (auto& t : d.trips) for (size_t i = 0; i < t.arr.size(); i++) { lo = std::min<long long>(lo, std::min(t.arr[i], t.dep[i])); hi = std::max<long long>(hi, std::max(t.arr[i], t.dep[i])); }
  if (lo > hi) return {3600};
  long long first = d.trips[0].dep[0], H32 = 32 * 3600;
  vector<long long> all = {-lo, H32 - 1 - hi, ((first / 3600) + 1) * 3600 - first, 86400 - first, -(first % 3600) - 1, 1, -1, 3600, 86400 - hi - 1, 25 * 3600 - first + 7, -lo / 2, 13, 3599};
  std::sort(all.begin() + 2, all.end()); all.erase(std::unique(all.begin() + 2, all.end()), all.end());
  vector<long long> out; 
  if (k >= (int)all.size()) { out = all; }
  else { out.push_back(all[idx % 2]); for (int i = 1; i < k; i++) out.push_back(all[2 + (idx / 2 + i) % (all.size() - 2)]); }
  std::sort(out.begin(), out.end()); out.erase(std::unique(out.begin(), out.end()), out.end());
  out.erase(std::remove(out.begin(), out.end(), 0), out.end()); return out;
}

// Runs the queries of one data set (or only query `only`); returns true when a
// violation was found (recorded in `why`)
static bool runDataset(Ctx& c, int fi, uint64_t idx, long only, json& why) {
  Family& f = c.fams[fi]; DS ds; if (!f.build(idx, ds)) return false;
  vector<Q> qs; f.queries(idx, ds, qs);
  if (qs.empty()) return false;
  Shared* sh = c.sh; sh->datasets++; sh->fam = fi; sh->idx = idx; sh->q = 0; sh->inQuery = 1; sh->batchDone++;
  // a data set that cannot be loaded is a violation of whatever is being decided
#ifdef VF_CACHE
  std::unique_ptr<CacheDir> dir; std::unique_ptr<LoadedSys> sysp;
  dir.reset(new CacheDir(c.scratch)); dir->write(ds); sysp.reset(new LoadedSys(ds, dir->path, false)); LoadedSys& sys = *sysp;
#else
  Sys sys(ds);
#endif
  std::unique_ptr<Sys> sys2; if (c.prop == C11) sys2.reset(new Sys(ds, false, true));
  auto violation = [&](size_t qi, const Q& q, const json& ans, const vector<string>& msgs, json extra = json()) {
    why = {{"property", propName(c.prop)}, {"engine", ENGINE}, {"tier", c.tier}, {"families", c.onlyFam}, {"family", f.name}, {"family_index", fi}, {"index", idx}, {"query_index", qi}, {"request", queryString(ds, q)}, {"violations", msgs}, {"answer", ans}, {"data", dumpDS(ds)}, {"access_egress_tables", "data.places: place k has longitude -73.5-0.01k, latitude 45.5+0.01k unless stated"}};
    if (!extra.is_null()) why["other_answer"] = extra;
  };
  #if defined(VF_CACHE) && !defined(VF_HTTP)
  struct Shifted { long long off; std::unique_ptr<DS> ds; std::unique_ptr<CacheDir> dir; std::unique_ptr<CacheSys> sys; };
#else
  struct Shifted { long long off; std::unique_ptr<DS> ds; std::unique_ptr<Sys> sys; };
#endif
  vector<Shifted> sh12;
  if (c.prop == C12) for (long long o : offsets(ds, f.shifts, idx)) { Shifted s; s.off = o; s.ds.reset(new DS()); if (!shiftDS(ds, o, *s.ds)) continue; 
#if defined(VF_CACHE) && !defined(VF_HTTP)
    s.dir.reset(new CacheDir(c.scratch)); s.dir->path += "_"; s.dir->write(*s.ds); s.sys.reset(new CacheSys(*s.ds, s.dir->path, false)); s.dir.reset();
#else
    s.sys.reset(new Sys(*s.ds));
#endif
    sh12.push_back(std::move(s)); }
  sh->inQuery = 0;
  for (size_t i = 0; i < qs.size(); i++) {
    if (only >= 0 && (long)i != only) continue;
    Q q = qs[i]; if (!applicable(c.prop, ds, q)) continue;
    sh->q = i; sh->inQuery = 1;
    Report r; r.want = 1u << c.prop; vector<string> msgs; json extra;
    json a;
    if (c.prop == C10) { Q p = q; p.alt = false; q.alt = true; json plain = sys.ask(p); a = sys.ask(q); extra = plain; tally(sh, plain);
      checkAlternatives(ds, q, plain, a, r); sh->compared++; }
    else if (c.prop == C19) { for (int alt = 0; alt < 2; alt++) { q.alt = alt; a = sys.ask(q); json sum = sys.askSum(q); size_t b = r.bad.size(); checkSummary(ds, q, a, sum, r); sh->compared++; sh->answers++; if (r.bad.size() > b) { extra = sum; break; } if (!alt) tally(sh, a); } }
    else if (c.prop == C11) { if (q.alt) { sh->inQuery = 0; continue; } a = sys.ask(q); extra = sys2->ask(q); if (objective(a) != objective(extra)) r.fail(C11, "under the restricted scenario: " + objective(a).dump() + "; with the excluded trips removed: " + objective(extra).dump()); sh->compared++;
      string s = statusOf(a); if (s != "success" && s != "no_routing_found") r.fail(C11, "unexpected answer " + a.dump().substr(0, 200)); }
    else if (c.prop == C12) {
      a = sys.ask(q); string s = statusOf(a); if (s != "success" && s != "no_routing_found") r.fail(C12, "unexpected answer " + a.dump().substr(0, 200));
      long long lo = LLONG_MAX, hi = LLONG_MIN; clockRange(a, lo, hi);
      if (q.t < 0 || q.t >= 32 * 3600 || (lo <= hi && (lo < 0 || hi >= 32 * 3600))) { sh->skipped++; sh->inQuery = 0; continue; }
      for (auto& x : sh12) {
        long long t2 = q.t + x.off; if (t2 < 0 || t2 >= 32 * 3600 || (lo <= hi && (lo + x.off < 0 || hi + x.off >= 32 * 3600))) { sh->skipped++; continue; }
        Q q2 = q; q2.t = t2; json b = x.sys->ask(q2); long long l2 = LLONG_MAX, h2 = LLONG_MIN; clockRange(b, l2, h2);
        if (l2 <= h2 && (l2 < 0 || h2 >= 32 * 3600 || l2 - x.off < 0 || h2 - x.off >= 32 * 3600)) { sh->skipped++; continue; }
        sh->compared++; sh->answers++;
        if (unshift(b, x.off) != a) { r.fail(C12, "moved by " + to_string(x.off) + " s the answer is not the same answer moved by " + to_string(x.off) + " s"); extra = b; break; }
      } }
    else {
#ifdef VF_CACHE
      if (c.prop == C16) r.want |= 1u << C01;
#endif
      a = sys.ask(q);
      bool names = r.want >> C16 & 1;
      if (q.acc) checkAccAnswer(ds, q, a, r, names); else checkRouteAnswer(ds, q, a, r, names);
      sh->compared++;
    }
    tally(sh, a); sh->inQuery = 0;
    if (c.verbose) std::cout << queryString(ds, q) << "\n" << a.dump() << "\n";
    for (auto& b : r.bad) if (msgs.size() < 8) msgs.push_back((b.first != c.prop ? propName(b.first) + ": " : "") + b.second);
    if (!msgs.empty() && !c.known.empty()) { string k = propName(c.prop) + " " + f.name + " " + to_string(idx) + " " + to_string(i); for (auto& m : msgs) k += " " + m; auto it = c.known.find(k); if (it != c.known.end()) { sh->known |= 1ull << it->second; continue; } }
    if (!msgs.empty()) { violation(i, q, a, msgs, extra); return true; }
  }
  return false;
}

static void resetCounters() { g_cnt = Counters(); }
static void finishCounters(Shared* sh) { sh->states += g_cnt.states; sh->transitions += g_cnt.transitions; resetCounters(); }
static const int HANG_S = 40;
static void arm() { alarm(HANG_S); }

// run fn in a forked child; returns exit status (wait status)
template <class F> static int inChild(F fn) {
  fflush(stdout); pid_t p = fork(); if (p == 0) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); fn(); VF_END; _exit(0); }
  int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st;
}
static string statusText(int st) { if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM) return "no answer within " + to_string(HANG_S) + " s"; return string("the process dies (") + strsignal(WTERMSIG(st)) + ")"; } return "exit code " + to_string(WEXITSTATUS(st)); }

static void setViol(Shared* sh, const json& j) { string s = j.dump(); if (s.size() >= sizeof sh->viol) { json k = j; k.erase("data"); k["answer"] = "(too long)"; k["other_answer"] = nullptr; s = k.dump().substr(0, sizeof sh->viol - 1); } strcpy(sh->viol, s.c_str()); sh->hasViol = 1; }

static vector<Family> families(int prop, bool th, const string& tier);

int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off);
  Ctx c; c.tier = "quick"; string replay, out = "/dev/stdout", rdir = "."; int workers = 8; double deadline = 780; string onlyFam; bool list = false; long stride = 1; // --stride n: every n-th batch only (for trying out changes)
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return string(argv[++i]); };
    if (a == "--property") c.prop = atoi(nx().c_str() + 1); else if (a == "--tier") c.tier = nx(); else if (a == "--replay") replay = nx(); else if (a == "--evidence") out = nx(); else if (a == "--replay-dir") rdir = nx(); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--deadline") deadline = atof(nx().c_str()); else if (a == "--family" || a == "--families") onlyFam = nx(); else if (a == "--list") list = true; else if (a == "--stride") stride = atol(nx().c_str()); else if (a == "--scratch") c.scratch = nx();
    else if (a == "--known") { std::ifstream in(nx()); for (string l; std::getline(in, l); ) { const string pre = "finding: property="; size_t x = l.find(" : "); if (l.compare(0, pre.size(), pre) || x == string::npos || c.known.size() >= 60) continue; // finding: property=<id> <family> <index> <query> <violation> : <description>
      c.known[l.substr(pre.size(), x - pre.size())] = c.knownText.size(); c.knownText.push_back(l.substr(pre.size(), 3) + " " + l.substr(x + 3)); } } }
  json rp; if (!replay.empty()) { std::ifstream in(replay); in >> rp; c.prop = atoi(rp["property"].get<string>().c_str() + 1); c.tier = rp["tier"]; c.verbose = true; }
  c.fams = families(c.prop, c.tier == "thorough", c.tier);
  if (!rp.is_null() && rp.contains("families")) onlyFam = rp["families"]; c.onlyFam = onlyFam;
  if (!onlyFam.empty()) { vector<Family> v; for (auto& f : c.fams) if (("," + onlyFam + ",").find("," + f.name + ",") != string::npos) v.push_back(f); c.fams = v; }
  if (list) { for (auto& f : c.fams) std::cout << f.name << " " << f.n << " " << f.what << "\n"; return 0; }
  string pn = propName(c.prop); double t0 = now();
  Shared* shs = (Shared*)mmap(0, sizeof(Shared) * workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (shs == MAP_FAILED) return 2; memset((void*)shs, 0, sizeof(Shared) * workers);
  if (!replay.empty()) {
    c.sh = shs; long only = rp.value("query_index", -1L); uint64_t from = rp.value("batch_from", rp["index"].get<uint64_t>()); if (rp.contains("batch_from")) only = -1;
    json why; bool v = false; int st = inChild([&] { alarm(300); for (uint64_t k = from; k <= rp["index"].get<uint64_t>(); k++) if (runDataset(c, rp["family_index"], k, k == rp["index"].get<uint64_t>() ? only : -1, why)) { setViol(c.sh, why); break; } });
    v = c.sh->hasViol || st != 0; if (st) std::cout << statusText(st) << "\n"; if (c.sh->hasViol) std::cout << json::parse(c.sh->viol)["violations"].dump(1) << "\n";
    std::cout << (v ? "reproduced\n" : "not reproduced\n"); return v ? 1 : 0;
  }
  uint64_t* stop = (uint64_t*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); stop[0] = 0; stop[1] = 0;
  // stop[0]: violation found; stop[1]: next batch ticket; stop[2]: deadline hit; stop[3]: unreproducible events
  vector<std::pair<int,uint64_t>> batches; // (family, first index), interleaved
  { vector<vector<std::pair<int,uint64_t>>> per; for (size_t f = 0; f < c.fams.size(); f++) { per.push_back({}); for (uint64_t b = 0; b < c.fams[f].n; b += c.fams[f].batch) per.back().push_back({(int)f, b}); }
    // small families first, then in order
    vector<size_t> ord; for (size_t f = 0; f < per.size(); f++) ord.push_back(f); std::stable_sort(ord.begin(), ord.end(), [&](size_t a, size_t b) { return per[a].size() < per[b].size(); });
    for (size_t f : ord) for (size_t k = 0; k < per[f].size(); k++) if (k % stride == f % std::min<size_t>(stride, per[f].size())) batches.push_back(per[f][k]); }
  vector<pid_t> pids;
  for (int w = 0; w < workers; w++) {
    fflush(stdout); pid_t p = fork(); if (p) { pids.push_back(p); continue; }
    c.sh = &shs[w]; if (!c.scratch.empty()) { c.scratch += "/w" + to_string(w); mkdir(c.scratch.c_str(), 0755); }
    for (;;) {
      uint64_t b = __sync_fetch_and_add(&stop[1], 1); if (b >= batches.size() || stop[0]) break;
      if (now() - t0 > deadline) { stop[2] = 1; break; }
      int fi = batches[b].first; uint64_t lo = batches[b].second, hi = std::min(c.fams[fi].n, lo + c.fams[fi].batch);
      c.sh->inQuery = 0; c.sh->hasViol = 0;
      int st = inChild([&] { resetCounters(); for (uint64_t k = lo; k < hi; k++) { arm(); json why; if (runDataset(c, fi, k, -1, why)) { why["batch_from"] = lo; setViol(c.sh, why); break; } } alarm(0); finishCounters(c.sh); });
      if (st == 0 && !c.sh->hasViol) continue;
      // something happened: reproduce it alone, then with its data set, then with the whole batch
      uint64_t idx = st ? (uint64_t)c.sh->idx : json::parse(c.sh->viol)["index"].get<uint64_t>(); long qi = st ? (long)c.sh->q : json::parse(c.sh->viol)["query_index"].get<long>();
      c.sh->hasViol = 0; bool ok = false; string crash; json why; int mode = 0;
      for (mode = 0; mode < 3 && !ok; mode++) {
        int s2 = inChild([&] { alarm(HANG_S * (mode == 2 ? 4 : 2)); uint64_t from = mode == 2 ? lo : idx; for (uint64_t k = from; k <= idx; k++) { json y; if (runDataset(c, fi, k, mode == 0 ? qi : -1, y)) { setViol(c.sh, y); break; } } });
        if (s2) { ok = true; crash = statusText(s2); } else if (c.sh->hasViol) ok = true;
        if (ok) break;
      }
      if (!ok) { __sync_fetch_and_add(&stop[3], 1); continue; }
      if (!crash.empty()) { DS ds; Family& f = c.fams[fi]; uint64_t id2 = c.sh->idx; f.build(id2, ds); vector<Q> qs; f.queries(id2, ds, qs); long q2 = c.sh->q; why = {{"property", pn}, {"engine", ENGINE}, {"tier", c.tier}, {"families", c.onlyFam}, {"family", f.name}, {"family_index", fi}, {"index", id2}, {"query_index", q2}, {"request", q2 < (long)qs.size() ? queryString(ds, qs[q2]) : ""}, {"violations", {crash}}, {"data", dumpDS(ds)}}; }
      else { why = json::parse(c.sh->viol); }
      if (mode == 2) why["batch_from"] = lo; else why.erase("batch_from");
      if (mode == 1) why["query_index"] = -1;
      if (__sync_fetch_and_add(&stop[0], 1) == 0) { string path = rdir + "/replay_" + pn + ".json"; std::ofstream o(path); o << why.dump(1) << "\n"; }
      break;
    }
    _exit(0);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  Shared t; memset((void*)&t, 0, sizeof t);
  for (int w = 0; w < workers; w++) { Shared& s = shs[w]; t.states += s.states; t.transitions += s.transitions; t.datasets += s.datasets; t.answers += s.answers; t.compared += s.compared; t.skipped += s.skipped; t.known |= s.known; for (int k = 0; k < 12; k++) t.legs[k] += s.legs[k]; for (int k = 0; k < 16; k++) t.outcomes[k] += s.outcomes[k]; for (int k = 0; k < 8; k++) t.alts[k] += s.alts[k]; }
  json cov; 
  bool model = !(c.prop == C11 || c.prop == C12 || c.prop == C01 || c.prop == C02 || c.prop == C06 || c.prop == C10 || c.prop == C19);
  // For the properties whose oracle is a relation between runs or a validation of the answer,
  // a state is a (data set, request) configuration and a transition an executed request.
  cov["states"] = model ? t.states : t.compared; cov["transitions"] = model ? t.transitions : t.answers;
  cov["counting"] = model ? "states: distinct improved labels of the reference search; transitions: relaxations of the reference search" : "states: (data set, request) configurations judged; transitions: requests executed by the real engine";
  cov["traces_validated_against_impl"] = t.compared; cov["datasets"] = t.datasets; cov["answers"] = t.answers; if (c.prop == C12) cov["shifts_outside_the_domain"] = t.skipped;
  json oc, lg, al; for (int k = 0; k < 10; k++) if (t.outcomes[k]) oc[OUTC[k]] = t.outcomes[k]; for (int k = 0; k < 12; k++) if (t.legs[k]) lg[to_string(k)] = t.legs[k]; for (int k = 1; k < 8; k++) if (t.alts[k]) al[to_string(k) + (k == 7 ? "+" : "")] = t.alts[k];
  cov["outcomes"] = oc; cov["rides_per_route"] = lg; cov["routes_per_answer"] = al; cov["unreproducible_events"] = stop[3];
  bool capped = stop[2]; cov["exhaustive"] = !capped && !stop[0] && stride == 1; if (capped) cov["cap"] = "wall clock limit of " + to_string((int)deadline) + " s reached: batches from ticket " + to_string(stop[1]) + " of " + to_string(batches.size()) + " were not run";
  json fam = json::array(); for (auto& f : c.fams) fam.push_back({{"name", f.name}, {"members", f.n}, {"what", f.what}}); cov["families"] = fam;
  json samples = json::array(); for (auto& f : c.fams) { for (uint64_t idx : {f.n / 2, f.n / 3 + 1}) { DS ds; if (idx >= f.n || !f.build(idx, ds)) continue; vector<Q> qs; f.queries(idx, ds, qs); for (auto& q : qs) if (applicable(c.prop, ds, q)) { json j = {{"family", f.name}, {"index", idx}, {"request", queryString(ds, q)}}; if (ds.trips.size() < 6) j["data"] = dumpDS(ds); samples.push_back(j); break; } break; } if (samples.size() >= 6) break; }
  cov["samples"] = samples;
  json ev = {{"property", pn}, {"tier", c.tier}, {"seed", getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0}, {"level", "model_checking"}, {"coverage", cov}, {"wall_s", now() - t0}, {"violations", stop[0] ? 1 : 0},
    {"assumptions", {"no data values outside the stated alphabets", "the reference model in engine/model.hpp states the property correctly"}}};
  { std::ofstream o(out); o << ev.dump(1) << "\n"; }
  std::cout << pn << " " << c.tier << ": " << t.datasets << " data sets, " << t.answers << " answers, " << t.compared << " compared, " << t.states << " states, " << t.transitions << " transitions, " << (now() - t0) << " s" << (capped ? " (capped)" : "") << "\n" << oc.dump() << " rides " << lg.dump() << " alternatives " << al.dump() << "\n";
  for (size_t k = 0; k < c.knownText.size(); k++) if (t.known >> k & 1) std::cout << "KNOWN-FINDING: property=" << c.knownText[k] << "\n";
  if (stop[0]) { string path = rdir + "/replay_" + pn + ".json"; std::ifstream in(path); json w; in >> w; std::cout << w["violations"].dump(1) << "\nVIOLATION property=" << pn << " replay=" << path << "\n"; return 1; }
  return 0;
}

static vector<Family> families(int prop, bool th, const string&) {
#ifdef VF_MEMROUTER
  return {famW(th)};
#endif
  vector<Family> v;
  switch (prop) {
    case C01: v = {famC(th), famO(th), famB(th, false), famB(th, true), famA(th), famZ(th), famF(th), famH(th), famHW(th), famJ(), famK(th, false), famK(th, true), famL(th), famM(th), famX()}; break;
    case C02: v = {famF(th), famO(th), famE(th), famA(th), famC(th), famF0(), famH(th), famK(th, false), famK(th, true), famL(th), famM(th), famX()}; break;
    case C03: v = {famA(th), famZ(th), famZ(th, true), famZZ(), famB(th, false), famB(th, true), famC(th), famD(th), famF(th), famE(th), famK(th, false), famL(th), famM(th), famX()}; break;
    case C04: case C05: v = {famA(th), famZ(th), famZZ(), famB(th, false), famC(th), famD(th), famF(th), famK(th, false), famL(th), famM(th), famX()}; break;
    case C06: v = {famC(th), famO(th), famB(th, false), famB(th, true), famJ(), famA(th), famF(th), famH(th), famK(th, false), famK(th, true), famL(th), famM(th), famX()}; break;
    case C07: v = {famF0(), famZ(th), famA(th), famF(th), famD(th), famE(th), famB(th, true), famK(th, false), famL(th), famM(th), famX()}; break;
    case C08: v = {famA(th), famZ(th), famZ(th, true), famZZ(), famB(th, false), famB(th, true), famC(th), famD(th), famF(th), famE(th), famK(th, false), famL(th), famM(th), famX()}; break;
    case C09: v = {famA(th), famZ(th), famZZ(), famB(th, false), famC(th), famD(th), famF(th), famE(th), famK(th, false), famL(th), famM(th), famX()}; break;
    case C10: v = {famH(th), famZ(th), famHW(th), famK(th, true), famB(th, false), famA(th), famL(th), famM(th, true), famX(true)}; break;
    case C11: v = {famE11(th), famK11(th)}; break;
    case C19: v = {famH(th), famHW(th), famK(th, false), famK(th, true), famJ(), famL(th), famF0(), famE(th), famX(true)}; if (th) { v.push_back(famC(th)); v.push_back(famB(th, false)); v.push_back(famB(th, true)); v.push_back(famA(th)); } break;
    case C12: v = {famD(th), famA(th), famK(th, false), famM(th), famL(th)}; break;
#ifdef VF_HTTP
    case C16: v = {famJ(), famF(th), famE(th), famF0(), famK(th, false), famK(th, true), famY()}; break;
#else
    case C16: v = {famJ(), famD(th), famA(th), famB(th, true), famE(th), famK(th, false), famL(th), famX()}; break;
#endif
  }
#ifdef VF_HTTP
  if (prop != C11 && prop != C12 && prop != C16) v.push_back(famY());
#endif
  return v;
}
