// C17: every single-file fault (deletion, emptiness, truncation at each byte,
// each bit flip, zeroed ranges, each schema-level field corruption) and every
// subset of missing files, at start-up and through a refresh of a running
// server; the server runs under AddressSanitizer and UBSan.
#include "requests.hpp"
#include "mutate.hpp"
namespace vf { Counters g_cnt; }
using namespace vf;
static Pool P; static int cFault, cAns, cStart, cRefresh, cErr, cServed, cCmp;
static const int B = 8 * 3600;
static DS tiny() { DS d; d.init(3); d.nAgencies = 1; d.nServices = 1; d.foot[1].push_back({2, 60, 61}); d.lines = {LineM{0, 0, 1}, LineM{0, 1, 1}}; d.paths = {PathM{0, {0, 1}, {500}}, PathM{1, {1, 2}, {600}}};
  for (int p = 0; p < 2; p++) { TripM t; t.path = p; t.arr = {B + p * 900, B + p * 900 + 300}; t.dep = t.arr; t.bd = {1, 1}; t.ub = {1, 1}; d.trips.push_back(t); }
  ScenM a; a.services = {0}; d.scen = {a}; d.places = {{{0, 60, 61}}, {{2, 60, 62}}}; return d; }
static DS rich() { DS d; d.init(5); d.nAgencies = 2; d.nServices = 2; auto F = [&](int a, int b, int t) { d.foot[a].push_back({b, t, t + 5}); d.foot[b].push_back({a, t + 10, t + 6}); }; F(1, 4, 120); F(2, 3, 200);
  d.lines = {LineM{0, 0, 1}, LineM{1, 1, 1}, LineM{0, MODE_TRANSFERABLE, 1}}; d.paths = {PathM{0, {0, 1, 2}, {500, 501}}, PathM{1, {1, 4, 3}, {600, 601}}, PathM{2, {2, 3}, {700}}};
  for (int p = 0; p < 3; p++) for (int k = 0; k < 3; k++) { TripM t; t.path = p; t.service = k % 2; int c = B + k * 900 + p * 400; for (size_t i = 0; i < d.paths[p].stops.size(); i++) { t.arr.push_back(c); t.dep.push_back(c); c += 240; t.bd.push_back(1); t.ub.push_back(1); } d.trips.push_back(t); }
  ScenM a, b; a.services = {0, 1}; a.onlyLines = {0, 1, 2}; a.onlyModes = {0, 1, 2}; a.onlyAgencies = {0, 1}; a.onlyNodes = {0}; b.services = {0, 1}; b.exceptLines = {2}; b.exceptModes = {3}; b.exceptAgencies = {}; b.exceptNodes = {4}; d.scen = {a, b};
  d.places = {{{0, 60, 61}, {1, 400, 410}}, {{3, 60, 62}}}; return d; }

struct Fault { vector<std::pair<string, string>> put; vector<string> del; string text;
  int missing = 0, bad = 0;      // kinds (bits) whose file is absent / present but without usable content
  bool optionalOnly = false;     // touches nothing a query depends on
  bool scen = false;             // the scenarios may change
  int without = -1; };           // bit set of line files gone, when nothing else changed
static const char* KINDS[7] = {"AGENCIES", "SERVICES", "NODES", "LINES", "PATHS", "SCENARIOS", "SCHEDULES"};
static const char* KFILE[6] = {"agencies", "services", "nodes", "lines", "paths", "scenarios"};
struct World { DS ds; Files files; vector<string> names, uuids; vector<Req> probes; vector<string> base; std::map<int, vector<string>> byLines; };
static World W[2];
static string lineFile(int l) { return "lines/line_" + uuidStr(K_LINE, l) + ".capnpbin"; }
static string nodeFile(int s) { return "nodes/node_" + uuidStr(K_STOP, s) + ".capnpbin"; }
static void prepare(World& w, const DS& ds) {
  w.ds = ds; EncodeOpts o; o.dataSources = true; w.files = encodeCache(ds, o); for (auto& x : w.files) w.names.push_back(x.first);
  for (int k : {(int)K_STOP, (int)K_LINE, (int)K_PATH, (int)K_TRIP, (int)K_SERVICE, (int)K_AGENCY, (int)K_SCEN, (int)K_DS}) { w.uuids.push_back(uuidStr(k, 0)); if (k != K_DS) w.uuids.push_back(uuidStr(k, 1)); }
  auto R = [&](bool fwd, int s, bool alt = false) { Q q = route(fwd, 0, 1, fwd ? B - 300 : B + 3600, OMIT); q.scen = s; q.alt = alt; return q; };
  w.probes = {reqOf(ds, R(true, 0)), reqOf(ds, R(false, 0)), summaryOf(ds, R(true, 0, true))}; { Q a = acc(true, 0, B - 300, OMIT); w.probes.push_back(reqOf(ds, a)); a = acc(false, 1, B + 3600, OMIT); w.probes.push_back(reqOf(ds, a)); }
  if (ds.scen.size() > 1) w.probes.push_back(reqOf(ds, R(true, 1, true)));
}
static void report(const World& w, const Fault& f, const string& when, const string& what, const json& more = json::object()) { json j = {{"violations", {what}}, {"fault", f.text}, {"when", when}, {"directory", &w == &W[0] ? "two lines, three stops" : "three lines, five stops"}}; for (auto& x : more.items()) j[x.key()] = x.value(); P.violation(j); }
// asks every probe and judges the answers together
static bool probe(const World& w, Server& s, const Fault& f, const string& when) {
  vector<json> a; vector<string> raw; int de = 0; string code;
  for (auto& r : w.probes) { P.at(f.text + " | " + when + " | " + r.name); string out = s.ask(r); P.count(cAns); raw.push_back(out); auto v = parseResponses(out);
    if (v.size() != 1 || !v[0].error.empty()) { report(w, f, when, "not exactly one well-formed response", {{"request", r.name}, {"answer", shorten(out)}}); return false; }
    json j = parseBody(v[0]); string st = j.value("status", ""); a.push_back(j);
    if (st == "data_error") { if (v[0].code != 200) { report(w, f, when, "data_error without HTTP 200", {{"answer", shorten(out)}}); return false; } string c = j.value("errorCode", ""); bool known = c == "DATA_ERROR"; for (auto k : KINDS) known |= c == string("MISSING_DATA_") + k; if (!known) { report(w, f, when, "undocumented errorCode of data_error", {{"answer", shorten(out)}}); return false; } if (de && c != code) { report(w, f, when, "two requests get different data errors", {{"codes", {code, c}}}); return false; } code = c; de++; }
    else if (st == "success" || st == "no_routing_found") { if (v[0].code != 200) { report(w, f, when, "an answer without HTTP 200", {{"answer", shorten(out)}}); return false; } }
    else if (st == "query_error" && f.scen && v[0].code == 400 && (j.value("errorCode", "") == "INVALID_SCENARIO" || j.value("errorCode", "") == "MISSING_PARAM_SCENARIO" || j.value("errorCode", "") == "EMPTY_SCENARIO")) {}
    else { report(w, f, when, "the request is neither answered from the data nor refused with data_error", {{"request", r.name}, {"answer", shorten(out)}}); return false; } }
  if (de && de != (int)a.size()) { report(w, f, when, "some requests are refused with data_error, others answered", {{"answers", a}}); return false; }
  P.count(de ? cErr : cServed);
  if (f.missing | f.bad) {
    if (!de) { report(w, f, when, "data are missing but the requests are not refused with data_error", {{"answer", shorten(raw[0])}}); return false; }
    bool ok = false; for (int k = 0; k < 7; k++) if ((f.missing | f.bad) >> k & 1) ok |= code == string("MISSING_DATA_") + KINDS[k]; if (f.bad) ok |= code == "DATA_ERROR";
    if (!ok) { report(w, f, when, "the errorCode does not name data that are missing", {{"errorCode", code}}); return false; } }
  if (f.optionalOnly && !de) for (size_t p = 0; p < raw.size(); p++) { P.count(cCmp); if (raw[p] != w.base[p]) { report(w, f, when, "data no query depends on change an answer", {{"request", w.probes[p].name}, {"answer", shorten(raw[p])}, {"expected", shorten(w.base[p])}}); return false; } }
  if (f.without >= 0 && !(f.missing | f.bad)) { auto it = w.byLines.find(f.without); if (it != w.byLines.end()) for (size_t p = 0; p < raw.size(); p++) { P.count(cCmp); if (raw[p] != it->second[p]) { report(w, f, when, "the answer is not the one without the trips of the missing files", {{"request", w.probes[p].name}, {"answer", shorten(raw[p])}, {"expected", shorten(it->second[p])}}); return false; } } }
  return true;
}
static void applyFault(const World& w, const string& dir, const Fault& f, bool undo) {
  for (auto& x : f.put) writeFile(dir + "/" + x.first, undo ? w.files.at(x.first) : x.second);
  for (auto& x : f.del) if (undo) writeFile(dir + "/" + x, w.files.at(x)); else unlink((dir + "/" + x).c_str());
}
static bool refresh(const World& w, Server& s, const Fault& f, const string& when, const string& names) {
  P.at(f.text + " | " + when + " | refresh " + names); P.count(cRefresh); Resp a = s.srv.get("/updateCache?names=" + names); json j = parseBody(a);
  if (a.code != 200 || !a.error.empty() || j.value("status", "") != "success") { report(w, f, when, "the refresh is not answered with success", {{"answer", shorten(a.body)}, {"error", a.error}}); return false; } return true; }
static bool same(const World& w, Server& s, const Fault& f, const string& when) { for (size_t p = 0; p < w.probes.size(); p++) { P.at(f.text + " | " + when + " | " + w.probes[p].name); string out = s.ask(w.probes[p]); P.count(cAns); P.count(cCmp); if (out != w.base[p]) { report(w, f, when, "after the files were repaired and refreshed, an answer differs from that on the valid files", {{"request", w.probes[p].name}, {"answer", shorten(out)}, {"expected", shorten(w.base[p])}}); return false; } } return true; }

struct Gen { string name; int world; uint64_t n; std::function<Fault(uint64_t)> get; int modes; }; // modes: 1 start, 2 refresh of everything, 4 refresh of the kind of the file, 8 refresh without repair in between
static string kindOf(const string& f) { auto st = [&](const char* p) { return f.compare(0, strlen(p), p) == 0; }; if (st("agencies")) return "agencies"; if (st("services")) return "services"; if (st("nodes")) return "nodes"; if (st("lines/")) return "schedules"; if (st("lines")) return "lines"; if (st("paths")) return "paths"; if (st("scenarios")) return "scenarios"; if (st("dataSources.")) return "data_sources"; if (f.find("persons") != string::npos) return "persons"; return "od_trips"; }
static Fault on(const World& w, const string& file, const string& content, const string& text) { Fault f; f.put.push_back({file, content}); f.text = file + ": " + text; f.scen = file.compare(0, 9, "scenarios") == 0 || file.compare(0, 8, "services") == 0; f.optionalOnly = file.compare(0, 11, "dataSources") == 0; return f; }

int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off); P.engine = "c17asan"; P.parse(argc, argv); P.prop = "C17"; bool th = P.tier == "thorough";
  cFault = P.counter("states"); cAns = P.counter("transitions"); cStart = P.counter("starts"); cRefresh = P.counter("refreshes"); cErr = P.counter("answered_with_data_error"); cServed = P.counter("served"); cCmp = P.counter("traces_validated_against_impl"); P.hang = 90;
  prepare(W[0], tiny()); prepare(W[1], rich());
  // what the server answers on the valid directories, and on those without some line files
  { string dir = P.scratch + "/base"; for (int k = 0; k < 2; k++) { int nl = W[k].ds.lines.size(); for (int gone = 0; gone < (1 << nl) - 1; gone++) { DS d = W[k].ds; vector<TripM> t; for (size_t i = 0; i < d.trips.size(); i++) if (!(gone >> d.lineOf(i) & 1)) t.push_back(d.trips[i]); d.trips = t; bool ids = true; (void)ids;
      // the trips keep their identifiers: encode the whole and write lines without schedules for those gone
      Files f = W[k].files; for (int l = 0; l < nl; l++) if (gone >> l & 1) { ::capnp::MallocMessageBuilder m; auto x = m.initRoot<line::Line>(); x.setUuid(uuidStr(K_LINE, l)); x.setMode(MODE_SHORT[W[k].ds.lines[l].mode]); x.setAgencyUuid(uuidStr(K_AGENCY, W[k].ds.lines[l].agency)); x.initSchedules(0); f[lineFile(l)] = packMessage(m); }
      writeDir(dir, f); SharedTexts tx(W[k].probes.size(), 1 << 24); int st = forked([&] { alarm(100); if (P.replay.empty()) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); } Server s(W[k].ds, dir, false); for (size_t p = 0; p < W[k].probes.size(); p++) tx.set(p, s.ask(W[k].probes[p])); _exit(0); }); if (st) { std::cerr << "the server does not work on valid files: " << signame(st, 100) << "\n"; std::cout << "\nVIOLATION property=C17 replay=valid-files\n"; return 1; }
      vector<string> v; for (size_t p = 0; p < W[k].probes.size(); p++) v.push_back(tx.get(p)); W[k].byLines[gone] = v; if (!gone) { W[k].base = v; for (auto& b : v) if (b.find("\"status\": \"success\"") == string::npos && b.find("\"status\":\"success\"") == string::npos) { std::cerr << "harness: a probe has no success answer on the valid files: " << b << "\n"; if (P.args.count("--list")) return 2; } } } removeDir(dir, W[k].files); } }

  vector<Gen> G; auto add = [&](const string& name, int world, uint64_t n, int modes, std::function<Fault(uint64_t)> g) { if (n && (P.only.empty() || P.only == name)) G.push_back({name, world, n, g, modes}); };
  // 1. bytes
  for (int wi = 0; wi < (th ? 2 : 1); wi++) for (auto& fn : W[wi].names) { const string& c = W[wi].files[fn]; size_t n = c.size(); const World& w = W[wi];
    add("truncated", wi, n, th ? 15 : 1 | 2, [&w, fn, &c](uint64_t i) { return on(w, fn, c.substr(0, i), "truncated to " + to_string(i) + " of " + to_string(c.size()) + " bytes"); });
    add("bit flip", wi, n * 8, wi == 0 ? (th ? 15 : 1) : 1, [&w, fn, &c](uint64_t i) { string s = c; s[i / 8] ^= 1 << i % 8; return on(w, fn, s, "bit " + to_string(i % 8) + " of byte " + to_string(i / 8) + " flipped"); });
    for (int len : th ? vector<int>{1, 2, 3, 4, 5, 6, 7, 8, 16, 32, 64, 128} : vector<int>{1, 8, 64}) add("zeroed range", wi, n, 1, [&w, fn, &c, len](uint64_t i) { string s = c; for (size_t k = i; k < s.size() && k < i + len; k++) s[k] = 0; return on(w, fn, s, to_string(len) + " bytes zeroed at " + to_string(i)); });
    add("ones", wi, n, 1, [&w, fn, &c](uint64_t i) { string s = c; s[i] = (char)0xff; return on(w, fn, s, "byte " + to_string(i) + " set to 255"); });
    if (th) { add("byte removed", wi, n, 1, [&w, fn, &c](uint64_t i) { string s = c; s.erase(i, 1); return on(w, fn, s, "byte " + to_string(i) + " removed"); }); add("byte inserted", wi, n * 2, 1, [&w, fn, &c](uint64_t i) { string s = c; s.insert(i / 2, 1, i % 2 ? (char)0xff : (char)0); return on(w, fn, s, "a byte inserted at " + to_string(i / 2)); }); }
    // the words of the message before packing: pointers and lengths
    if (fn.find(".count") == string::npos) { kj::ArrayInputStream in(kj::arrayPtr((const kj::byte*)c.data(), c.size())); ::capnp::PackedMessageReader r(in); (void)r; }
  }
  // 2. every field of every message
  for (int wi = th ? 0 : 1; wi < 2; wi++) for (auto& fn : W[wi].names) { World& w = W[wi]; string o, what; if (mutantOf(fn, w.files[fn], -1, w.uuids, th, o, what)) continue; uint64_t n = atoll(what.c_str());
    add("field", wi, n, th ? 15 : 1 | 8, [&w, fn, th](uint64_t i) { string o, what; mutantOf(fn, w.files.at(fn), i, w.uuids, th, o, what); return on(w, fn, o, what); }); }
  // 3. subsets of missing files; the other kinds of files: all there, one gone, all gone
  auto subset = [&](const World& w, int req, int nodes, int lines, int opt, bool empty, string& t) { Fault f; auto drop = [&](const string& fn) { if (empty) f.put.push_back({fn, ""}); else f.del.push_back(fn); }; int nl = w.ds.lines.size(); f.text = empty ? "empty files:" : "missing files:";
    for (int k = 0; k < 6; k++) if (req >> k & 1) { drop(string(KFILE[k]) + ".capnpbin"); (empty ? f.bad : f.missing) |= 1 << k; f.text += string(" ") + KFILE[k]; }
    for (int s = 0; s < w.ds.ns; s++) if (nodes == 2 || (nodes == 1 && s == 1)) { drop(nodeFile(s)); f.text += " node " + to_string(s); }
    for (int l = 0; l < nl; l++) if (lines >> l & 1) { drop(lineFile(l)); f.text += " line " + to_string(l); } if (lines == (1 << nl) - 1) (empty ? f.bad : f.missing) |= 64; if (!empty && !req && !nodes) f.without = lines;
    string ds = "dataSources/" + uuidStr(K_DS, 0) + "/"; const char* O[5] = {"", "persons.capnpbin", "persons.capnpbin.count", "odTrips.capnpbin", "odTrips.capnpbin.count"}; for (int k = 0; k < 5; k++) if (opt >> k & 1) { string fn = k ? ds + O[k] : "dataSources.capnpbin"; drop(fn); f.text += " " + fn; }
    f.optionalOnly = !req && !nodes && !lines && opt; return f; };
  static string dummy; { World& w = W[1];
    add("missing subset", 1, 64 * 3 * 8 * (th ? 32 : 4), th ? 15 : 1 | 2, [&w, subset, th](uint64_t i) { int o = i % (th ? 32 : 4); i /= th ? 32 : 4; static const int OP[4] = {0, 1, 31, 21}; return subset(w, i % 64, i / 64 % 3, i / 192, th ? o : OP[o], false, dummy); });
    add("empty subset", 1, 64 * 3 * 8, th ? 15 : 1 | 8, [&w, subset](uint64_t i) { return subset(w, i % 64, i / 64 % 3, i / 192, 0, true, dummy); });
    add("optional subset", 1, 64, 1 | 2, [&w, subset](uint64_t i) { return subset(w, 0, 0, 0, i % 32, i / 32, dummy); });
    // pairs of files, each missing, empty, cut in half or replaced by garbage or by the file of another kind
    int n = w.names.size(); const int K = 6; add("pair", 1, (uint64_t)n * n * K * K, th ? 3 : 1, [&w, n](uint64_t i) { int a = i % n, b = i / n % n, ka = i / n / n % K, kb = i / n / n / K; Fault f; auto put = [&](int x, int k) { const string& fn = w.names[x]; const string& c = w.files.at(fn); f.text += fn + (k == 0 ? " missing; " : k == 1 ? " empty; " : k == 2 ? " cut in half; " : k == 3 ? " replaced by text; " : k == 4 ? " replaced by another kind of file; " : " bytes of the second half zeroed; "); switch (k) { case 0: f.del.push_back(fn); break; case 1: f.put.push_back({fn, ""}); break; case 2: f.put.push_back({fn, c.substr(0, c.size() / 2)}); break; case 3: f.put.push_back({fn, "{\"this\": \"is not a message\"}"}); break; case 4: f.put.push_back({fn, w.files.at(fn.find("paths") == 0 ? "nodes.capnpbin" : "paths.capnpbin")}); break; default: f.put.push_back({fn, c.substr(0, c.size() / 2) + string(c.size() - c.size() / 2, 0)}); } }; put(a, ka); if (a < b) put(b, kb); else f.text += "(alone) "; f.scen = true; if (a > b) { f.put.clear(); f.del.clear(); f.text = "nothing"; } return f; }); }
  // 4. the words of the messages before packing (thorough: every bit of every word)
  for (int wi = 0; wi < 2; wi++) for (auto& fn : W[wi].names) { if (fn.find(".count") != string::npos || (wi && !th)) continue; const World& w = W[wi]; const string& c = w.files.at(fn);
    auto words = std::make_shared<vector<uint64_t>>(); { kj::ArrayInputStream in(kj::arrayPtr((const kj::byte*)c.data(), c.size())); ::capnp::PackedMessageReader r(in); size_t dummy2 = 0; (void)dummy2; ::capnp::MallocMessageBuilder m; auto root = r.getRoot<::capnp::AnyPointer>(); m.setRoot(root); auto flat = ::capnp::messageToFlatArray(m); words->resize(flat.size()); memcpy(words->data(), flat.begin(), flat.size() * 8); }
    int per = th ? 64 + 4 : 12; add("word", wi, words->size() * per, 1, [&w, fn, words, per](uint64_t i) { vector<uint64_t> v = *words; size_t k = i / per; int b = i % per; string t; if (per > 12) { if (b < 64) { v[k] ^= 1ull << b; t = "bit " + to_string(b) + " flipped"; } else { v[k] = b == 64 ? 0 : b == 65 ? ~0ull : b == 66 ? v[(k + 1) % v.size()] : v[k] + 4; t = b == 64 ? "zeroed" : b == 65 ? "all ones" : b == 66 ? "replaced by the next word" : "pointer moved by a word"; } } else { static const int BITS[8] = {0, 2, 31, 32, 34, 35, 48, 63}; if (b < 8) { v[k] ^= 1ull << BITS[b]; t = "bit " + to_string(BITS[b]) + " flipped"; } else { v[k] = b == 8 ? 0 : b == 9 ? ~0ull : b == 10 ? v[(k + 1) % v.size()] : v[k] + 4; t = b == 8 ? "zeroed" : b == 9 ? "all ones" : b == 10 ? "replaced by the next word" : "pointer moved by a word"; } }
      // pack the words again
      kj::VectorOutputStream os; { ::capnp::_::PackedOutputStream ps(os); ps.write(v.data(), v.size() * 8); } auto a = os.getArray(); return on(w, fn, string((const char*)a.begin(), a.size()), "word " + to_string(k) + " of the message " + t); }); }

  struct Chunk { int g; uint64_t lo, hi; int mode; }; vector<Chunk> C; uint64_t faults = 0;
  for (size_t g = 0; g < G.size(); g++) { faults += G[g].n; for (int m = 1; m <= 8; m *= 2) if (G[g].modes & m) { uint64_t step = m == 1 ? 48 : 32; for (uint64_t lo = 0; lo < G[g].n; lo += step) C.push_back({(int)g, lo, std::min(G[g].n, lo + step), m}); } }
  // interleave the generators, so that a wall clock limit cuts all of them
  if (th) { std::stable_sort(C.begin(), C.end(), [](const Chunk& a, const Chunk& b) { return a.lo < b.lo; }); }
  if (P.args.count("--list")) { std::map<string, uint64_t> s; for (auto& g : G) s[g.name] += g.n; std::cout << json(s).dump(1) << "\n" << C.size() << " chunks\n"; for (auto& b : W[1].base) std::cout << shorten(b, 300) << "\n"; return 0; }
  { json s = json::object(); for (auto& g : G) s[g.name] = s.value(g.name, 0) + g.n; P.cov["faults"] = s; }
  static const char* MODES[] = {"", "start-up", "refresh of everything, then repair", "", "refresh of the kind of the file, then repair", "", "", "", "refresh of everything, one fault after the other"};
  P.cov["counting"] = "states: (fault, start-up or refresh) pairs; transitions: requests answered; traces_validated_against_impl: answers compared with those on the valid files";
  P.assumptions = {"AddressSanitizer, UBSan and assertions of the standard library detect the memory errors", "two fixed valid directories (2 lines / 3 stops, 3 lines / 5 stops)"};
  return P.run(C.size(), [&](uint64_t ci) {
    const Chunk& c = C[ci]; const Gen& g = G[c.g]; const World& w = W[g.world]; string dir = P.scratch + "/d" + to_string(g.world); writeDir(dir, w.files);
    if (c.mode == 1) { for (uint64_t i = c.lo; i < c.hi && !P.violated(); i++) { Fault f = g.get(i); applyFault(w, dir, f, false); P.count(cFault); P.at(f.text + " | start-up"); { P.count(cStart); Server s(w.ds, dir, i % 2); if (s.srv.ended) { report(w, f, "start-up", "main() returns instead of serving"); } else probe(w, s, f, "start-up"); } applyFault(w, dir, f, true); } removeDir(dir, w.files); return; }
    Fault none; none.text = "none"; P.at("start-up on valid files"); Server s(w.ds, dir, ci % 2); P.count(cStart); string when = MODES[c.mode];
    for (uint64_t i = c.lo; i < c.hi && !P.violated(); i++) { Fault f = g.get(i); P.count(cFault); applyFault(w, dir, f, false); string names = "all"; if (c.mode == 4 && f.put.size() + f.del.size() == 1) names = kindOf(f.put.empty() ? f.del[0] : f.put[0].first);
      bool ok = refresh(w, s, f, when, names) && probe(w, s, f, when); applyFault(w, dir, f, true); if (!ok) break; if (c.mode == 8) continue;
      if (!refresh(w, s, f, when, "all") || !same(w, s, f, when)) break; }
    if (c.mode == 8 && !P.violated()) { Fault f; f.text = g.name + " faults " + to_string(c.lo) + " to " + to_string(c.hi - 1); if (refresh(w, s, f, when, "all")) same(w, s, f, when); }
    removeDir(dir, w.files); _exit(0);
  }, [&](uint64_t ci) { const Chunk& c = C[ci]; return json{{"faults", G[c.g].name}, {"first", G[c.g].get(c.lo).text}, {"number", c.hi - c.lo}, {"applied", MODES[c.mode]}}; });
}
