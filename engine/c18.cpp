// C18: every request that differs from a valid one in up to two (thorough:
// three) parameters, each parameter over an alphabet of absent, duplicated,
// malformed, ambiguous and extreme values; every subset of omitted optional
// parameters; /updateCache requests; ready and not-ready data; framings of the
// bytes.  A reference reading of each value (what it may mean, which defects it
// has) decides which answers are right; the server runs from main() to the
// bytes of the answer under AddressSanitizer and UBSan.
#include "requests.hpp"
namespace vf { Counters g_cnt; }
using namespace vf;
static Pool P; static int cReq, cAns, cCmp, cErr, cOk, cUpd, cData;
static const int B = 8 * 3600;

// ---- the data: every default lies between two observable values
static DS city() {
  DS d; d.init(14); d.nAgencies = 2; d.nServices = 2;
  auto F = [&](int a, int b, int t) { d.foot[a].push_back({b, t, t}); };
  F(8, 7, 1200); F(8, 6, 1201);
  int nl = 0; auto L = [&](vector<int> stops, vector<int> deps, int hop, int svc = 0) { int p = d.paths.size(); d.lines.push_back(LineM{nl % 2, nl % 2, 1}); nl++; d.paths.push_back(PathM{p, stops, vector<int>(stops.size() - 1, 700)}); for (int b : deps) { TripM t; t.path = p; t.service = svc; int c = b; for (size_t i = 0; i < stops.size(); i++) { t.arr.push_back(c); t.dep.push_back(c); c += hop; t.bd.push_back(1); t.ub.push_back(1); } d.trips.push_back(t); } };
  L({0, 9}, {B, B + 4000}, 600); L({0, 8}, {B, B + 4000}, 500); L({7, 5}, {B + 2400, B + 7000}, 300); L({6, 4}, {B + 2400, B + 7000}, 300); L({0, 10}, {B}, 100000); L({0, 11, 9}, {B + 300, B + 4100}, 200, 1); L({12, 9}, {B + 200, 26 * 3600, 31 * 3600 + 3599 - 700}, 400, 1); L({0, 13}, {25 * 3600}, 300);
  ScenM a; a.services = {0, 1}; d.scen.push_back(a); ScenM b; b.services = {1}; d.scen.push_back(b); ScenM e; d.scen.push_back(e); // 2: empty
  d.places = {{{0, 60, 61}, {12, 400, 410}}, {{9, 60, 61}}, {{0, 1200, 1300}}, {{0, 1201, 1301}}, {{9, 1200, 1300}}, {{9, 1201, 1301}}, {{5, 60, 61}}, {{4, 60, 61}}, {{10, 60, 61}}, {{13, 60, 61}}};
  return d;
}
static DS D; static string dirReady;

// ---- parameters
enum Slot { sO, sD, sP, sS, sT, sTT, sAL, sMW, sTO, sAC, sEG, sTR, sFW, sX, NSLOT };
static const char* KEY[NSLOT] = {"origin", "destination", "place", "scenario_id", "time_of_trip", "time_type", "alternatives", "min_waiting_time", "max_travel_time", "max_access_travel_time", "max_egress_travel_time", "max_transfer_travel_time", "max_first_waiting_time", ""};
static const string HUGE_ = "2147483647";
static const string DEFAULTS[NSLOT] = {"", "", "", "", "", "0", "false", "180", HUGE_, "1200", "1200", "1200", "1800", ""};
typedef std::set<string> Set;
// What the text of one parameter may mean (canonical values) and the defects it may be refused for
struct Val { string text; vector<string> vals; Set errs; bool plain = false; };
static string kv(int s, const string& raw) { return string(KEY[s]) + "=" + raw; }

// One reading of a raw integer: in vals when it is (or may be taken for) an integer in range, in errs when it is (or may be taken as) malformed
static void readInt(const string& dec, vector<string>& vals, Set& errs, const std::function<string(long)>& norm) {
  size_t i = 0; bool odd = false; while (i < dec.size() && isspace((unsigned char)dec[i])) { i++; odd = true; } size_t st = i; if (i < dec.size() && (dec[i] == '+' || dec[i] == '-')) { if (dec[i] == '+') odd = true; i++; } size_t ds = i; while (i < dec.size() && isdigit((unsigned char)dec[i])) i++; bool num = i > ds; size_t de = i; while (i < dec.size() && isspace((unsigned char)dec[i])) { i++; odd = true; }
  if (!num || i != dec.size()) { errs.insert("INVALID_NUMERICAL_DATA"); return; }
  if (de - ds > 1 && dec[ds] == '0') odd = true; string n = dec.substr(ds, de - ds); while (n.size() > 1 && n[0] == '0') n.erase(0, 1);
  if (n.size() > 10) { errs.insert("INVALID_NUMERICAL_DATA"); return; } long v = atol(n.c_str()); if (dec[st] == '-') v = -v;
  if (v > INT_MAX || v < INT_MIN) { errs.insert("INVALID_NUMERICAL_DATA"); return; }
  string c = norm(v); if (!c.empty()) vals.push_back(c); else errs.insert("MISSING_PARAM_TIME_OF_TRIP"); if (odd || c.empty()) errs.insert("INVALID_NUMERICAL_DATA");
}
static string pct(const string& s) { string r; for (unsigned char c : s) { if (isalnum(c) || strchr("-._~,", c)) r += c; else { char b[8]; snprintf(b, 8, "%%%02X", c); r += b; } } return r; }
static string normOf(int slot, long v) { if (slot == sT) return v < 0 ? "" : to_string(v); if (slot == sMW) return v < 0 ? "0" : to_string(v); return v <= 0 ? HUGE_ : to_string(v); }
static Val intVal(int slot, const string& dec, const string& raw = "") { Val v; v.text = kv(slot, raw.empty() ? pct(dec) : raw); readInt(dec, v.vals, v.errs, [&](long x) { return normOf(slot, x); }); if (slot == sT && dec.empty()) v.errs.insert("MISSING_PARAM_TIME_OF_TRIP"); return v; }
static const char* MISSING[NSLOT] = {"MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_PLACE", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_TIME_OF_TRIP"};
static const char* INVALID[NSLOT] = {"INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_PLACE"};
static Val coordVal(int slot, const string& dec, const string& raw, int how, const string& canon = "") { // how: 0 bad, 1 good, 2 may be either
  Val v; v.text = kv(slot, raw.empty() ? pct(dec) : raw); if (how) v.vals.push_back(canon.empty() ? dec : canon); if (how != 1) v.errs.insert(INVALID[slot]); if (dec.empty()) v.errs.insert(MISSING[slot]); return v; }
static Val both(const Val& a, const Val& b) { Val v; v.text = a.text + "&" + b.text; v.vals = a.vals; v.vals.insert(v.vals.end(), b.vals.begin(), b.vals.end()); v.errs = a.errs; v.errs.insert(b.errs.begin(), b.errs.end()); return v; }
static vector<Val> ALPHA[NSLOT];
static void alphabetsOf(bool th) {
  for (int s : {(int)sO, (int)sD, (int)sP}) { auto& A = ALPHA[s]; string g = place(D, s == sD ? 1 : 0), g2 = place(D, s == sD ? 4 : 2), lon = g.substr(0, g.find(',')), lat = g.substr(g.find(',') + 1);
    auto bad = [&](const string& x, const string& raw = "") { A.push_back(coordVal(s, x, raw, 0)); }; auto good = [&](const string& x, const string& raw = "", const string& c = "") { A.push_back(coordVal(s, x, raw, 1, c)); }; auto may = [&](const string& x, const string& raw = "", const string& c = "") { A.push_back(coordVal(s, x, raw, 2, c)); };
    good(g); A.back().plain = true; good(g2); good(g, lon + "%2C" + lat); good("0,0"); good("-0,-0"); good("-70.5,44.25"); good(place(D, 5)); good("179.999999,-89.999999");
    { Val m; m.errs = {MISSING[s]}; A.push_back(m); Val n; n.text = KEY[s]; n.errs = {MISSING[s], INVALID[s]}; A.push_back(n); }
    bad(""); bad("abc"); bad("a,b"); bad("1,2,3"); bad(","); bad(",,"); bad(lon); bad(lon + ","); bad("," + lat); bad(lon + ",abc"); bad("abc," + lat); bad(lon + "x," + lat); bad(lon + "," + lat + "x"); bad(lon + ";" + lat, lon + ";" + lat); bad(lon + " " + lat); bad("nan,nan"); bad("nan," + lat); bad(lon + ",inf"); bad("-inf,inf"); bad("1e400," + lat); bad(lon + ",-1e400"); bad("--1,1"); bad("1..2,3"); bad(g + string("\0", 1)); bad(string("\xff\xfe,\x80")); bad("%", "%"); bad("null,null"); bad("{}"); bad(g + "," + g); bad(lon + string(",\0", 2) + lat);
    may(" " + lon + "," + lat, "", g); may(lon + ", " + lat, "", g); may(g, "+" + g); may("1e2,4e1", "", "100,40"); may("0x10,0x10", "0x10,0x10", "16,16"); may("999,45.5"); may("-73.6,91"); may("1e300,-1e300", "1e300,-1e300"); may("1.7976931348623157e308,-1.7976931348623157e308"); may(".5,.5", "", "0.5,0.5"); may("5.,5.", "", "5,5"); may("1e-400,1", "", "0,1"); may("000000000000000000000000000000000000000000000001,2", "", "1,2"); may(lon + string(400, '0') + "," + lat, "", g); may(lon + " ," + lat, "", g); may(g + " ", "", g);
    Val gv = coordVal(s, g, "", 1), g2v = coordVal(s, g2, "", 1), bv = coordVal(s, "abc", "", 0), ev = coordVal(s, "", "", 0); A.push_back(both(gv, gv)); A.push_back(both(gv, g2v)); A.push_back(both(g2v, gv)); A.push_back(both(gv, bv)); A.push_back(both(bv, gv)); A.push_back(both(gv, ev)); A.push_back(both(bv, ev));
    Val up; up.text = (s == sO ? "ORIGIN=" : s == sD ? "Destination=" : "Place=") + g; up.vals = {g}; up.errs = {MISSING[s]}; A.push_back(up); Val gu = both(gv, up); gu.errs.clear(); A.push_back(gu); Val enc; enc.text = (s == sO ? "%6frigin=" : s == sD ? "d%65stination=" : "%70lace=") + g; enc.vals = {g}; enc.errs = {MISSING[s]}; A.push_back(enc); }
  { auto& A = ALPHA[sS]; string g = uuidStr(K_SCEN, 0), g1 = uuidStr(K_SCEN, 1), emp = uuidStr(K_SCEN, 2), unk = uuidStr(K_SCEN, 77), U = g, nd = g; for (auto& c : U) c = toupper(c); nd.erase(std::remove(nd.begin(), nd.end(), '-'), nd.end());
    auto V = [&](const string& raw, vector<string> vals, Set errs) { Val v; v.text = kv(sS, raw); v.vals = vals; v.errs = errs; return v; }; const char *MS = "MISSING_PARAM_SCENARIO", *UN = "PARAM_ERROR_UNKNOWN", *ES = "EMPTY_SCENARIO";
    A.push_back(V(g, {g}, {})); A.back().plain = true; A.push_back(V(g1, {g1}, {})); { Val m; m.errs = {MS}; A.push_back(m); Val n; n.text = KEY[sS]; n.errs = {MS, UN}; A.push_back(n); }
    A.push_back(V(unk, {}, {MS})); A.push_back(V(emp, {}, {ES})); A.push_back(V("00000000-0000-0000-0000-000000000000", {}, {MS})); A.push_back(V("ffffffff-ffff-ffff-ffff-ffffffffffff", {}, {MS})); A.push_back(V(uuidStr(K_SERVICE, 0), {}, {MS}));
    for (string b : {string(""), string("abc"), g.substr(0, 35), g + "0", g.substr(0, 8), string("%00"), g + "%00", string("%FF%FE"), g + "-", string("0"), string(4000, 'a'), string("a0000007_0000_4000_8000_000000000000"), string("a0000007-00004-000-8000-000000000000"), "{" + g, g + "," + g1, "%20" + g, "'" + g + "'", string("g0000007-0000-4000-8000-000000000000")}) A.push_back(V(b, {}, {MS, UN}));
    A.push_back(V(U, {g}, {MS, UN})); A.push_back(V(nd, {g}, {MS, UN})); A.push_back(V("%7B" + g + "%7D", {g}, {MS, UN})); A.push_back(V("a0%30000a7" + g.substr(8), {g, ""}, {MS, UN})); A.back().vals = {g};
    Val gv = V(g, {g}, {}), g1v = V(g1, {g1}, {}), uv = V(unk, {}, {MS}), bv = V("abc", {}, {MS, UN}), ev = V(emp, {}, {ES}); A.push_back(both(gv, gv)); A.push_back(both(gv, g1v)); A.push_back(both(g1v, gv)); A.push_back(both(gv, uv)); A.push_back(both(uv, gv)); A.push_back(both(gv, bv)); A.push_back(both(bv, gv)); A.push_back(both(gv, ev)); A.push_back(both(ev, gv)); A.push_back(both(ev, bv)); A.push_back(both(uv, uv));
    Val up; up.text = "SCENARIO_ID=" + g; up.vals = {g}; up.errs = {MS}; A.push_back(up); }
  vector<string> badInts = {"", "abc", "1.5", "12abc", "1e3", "0x10", "2147483648", "-2147483649", "99999999999999999999", string(600, '9'), "--5", "-", "+", "5 5", "1,5", string("5\0", 2), string("\0", 1), "\xd9\xa3", "\xff", "nan", "inf", "null", "true", "5-", "1_000"};
  for (int s : {(int)sT, (int)sMW, (int)sTO, (int)sAC, (int)sEG, (int)sTR, (int)sFW}) { auto& A = ALPHA[s]; vector<string> g;
    if (s == sT) g = {to_string(B - 60 - 200), "0", "1", to_string(B - 60 - 1900), to_string(B - 460), "86399", "86400", to_string(25 * 3600 - 300), "93600", "111599", "115199", "115200", "115201", "118800", "200000", "2147483000", "2147483646", "2147483647", "-1", "-5", "-2147483648", "25500"}; else { g = {"1", "0", "-1", "-2147483648", "2147483647", "2147483646", s == sMW ? "140" : s == sTO ? "1000" : s == sFW ? "250" : s == sTR ? "1201" : "59", s == sMW ? "300" : s == sTO ? "100" : s == sFW ? "100" : s == sTR ? "1" : "60", "1800", "86400"}; Val m; m.vals = {DEFAULTS[s]}; m.plain = true; A.push_back(m); }
    for (auto& x : g) A.push_back(intVal(s, x)); if (s == sT) { A[0].plain = true; Val m; m.errs = {MISSING[s]}; A.push_back(m); }
    { Val n; n.text = KEY[s]; n.errs = {"INVALID_NUMERICAL_DATA"}; if (s == sT) n.errs.insert(MISSING[s]); A.push_back(n); }
    for (auto& x : badInts) A.push_back(intVal(s, x)); for (string x : {" 700", "+700", "0000700", "700 ", "\t700", "-0", "00"}) A.push_back(intVal(s, x)); A.push_back(intVal(s, " 700", "+700"));
    string p = s == sT ? to_string(B - 60 - 200) : "300", q = s == sT ? "25500" : "1300"; Val a = intVal(s, p), b = intVal(s, q), z = intVal(s, "abc"), e = intVal(s, ""), neg = intVal(s, "-1"); A.push_back(both(a, a)); A.push_back(both(a, b)); A.push_back(both(b, a)); A.push_back(both(a, z)); A.push_back(both(z, a)); A.push_back(both(a, neg)); A.push_back(both(neg, a)); A.push_back(both(e, a));
    Val up; up.text = kv(s, q); for (auto& c : up.text) c = toupper(c); up.vals = {q}; if (s == sT) up.errs = {MISSING[s]}; else up.vals.push_back(DEFAULTS[s]); A.push_back(up); }
  { auto& A = ALPHA[sTT]; auto V = [&](const string& raw, vector<string> vals, Set errs = {}) { Val v; v.text = kv(sTT, raw); v.vals = vals; v.errs = errs; A.push_back(v); }; Set bad = {"INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"}; { Val m; m.vals = {"0"}; m.plain = true; A.push_back(m); } V("0", {"0"}); V("1", {"1"}); for (string x : {"", "2", "-1", "abc", "1.5", "%FF", "%00", "99999999999", "forward"}) V(x, {"0"}, bad); for (string x : {"01", "+1", "1%20", "true", "1x"}) V(x, {"0", "1"}, bad); V("0&time_type=1", {"0", "1"}); V("1&time_type=1", {"1"}); V("1&time_type=abc", {"0", "1"}, bad); A.push_back(Val{"TIME_TYPE=1", {"0", "1"}, {}}); A.push_back(Val{"time_type", {"0"}, bad}); }
  { auto& A = ALPHA[sAL]; auto V = [&](const string& raw, vector<string> vals, Set errs = {}) { Val v; v.text = kv(sAL, raw); v.vals = vals; v.errs = errs; A.push_back(v); }; Set bad = {"INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"}; { Val m; m.vals = {"false"}; m.plain = true; A.push_back(m); } V("true", {"true"}); V("false", {"false"}); V("0", {"false"}); V("1", {"true"}); for (string x : {"", "2", "abc", "no", "%FF", "-1", "null"}) V(x, {"false"}, bad); for (string x : {"TRUE", "True", "yes", "on", "01", "true%20"}) V(x, {"false", "true"}, bad); V("true&alternatives=false", {"true", "false"}); V("false&alternatives=true", {"true", "false"}); A.push_back(Val{"ALTERNATIVES=true", {"false", "true"}, {}}); A.push_back(Val{"alternatives", {"false"}, bad}); }
  { auto& A = ALPHA[sX]; { Val m; m.plain = true; A.push_back(m); } for (string x : {"foo=bar", "type=line", "=", "&", "&&&", "=5", "foo", "foo=&foo=", "debug=1", "a%5B%5D=1", "max_number_of_transfers=abc", "%00=%00", "?", "/", "foo=bar#frag", "date=2020-01-01", "key=%", "key=%4", "key=%zz", "origin2=abc", "_origin=abc", "time_of_trip_=abc"}) { Val v; v.text = x; A.push_back(v); } Val l; l.text = "long=" + string(9000, 'x'); A.push_back(l); l.text.clear(); for (int i = 0; i < 300; i++) l.text += (i ? "&p" : "p") + to_string(i) + "=" + to_string(i); A.push_back(l); }
  (void)th;
}
// ---- endpoints
struct Endp { string path; bool acc; vector<int> slots; };
static vector<Endp> EP;
static string canonical(const Endp& e, const vector<string>& v) { string q = e.path + "?"; bool first = true; for (int s : e.slots) { if (s == sX) continue; q += (first ? "" : "&") + kv(s, v[s]); first = false; } return q; }
struct Session { Server srv; std::map<string, string> canon; bool notReady = false; Session(const string& dir, bool nr = false) : srv(D, dir, false), notReady(nr) {}
  const string& canonBody(const string& target) { auto it = canon.find(target); if (it != canon.end()) return it->second; P.count(cAns); Resp r = srv.srv.get(target); return canon[target] = r.error.empty() ? to_string(r.code) + "\n" + r.body : "harness: " + r.error; } };
static bool near(const json& a, double b) { return a.is_number() && (a.get<double>() == b || std::fabs(a.get<double>() - b) <= 1e-9 * std::fabs(b)); }
static string echo(const Endp& e, const json& j, const vector<string>& v) {
  if (!j.contains("query") || !j["query"].is_object()) return "no echo of the request"; const json& q = j["query"]; auto pt = [&](const char* k, const string& c) { double lon = strtod(c.c_str(), 0), lat = strtod(c.c_str() + c.find(',') + 1, 0); return q.contains(k) && q[k].is_array() && q[k].size() == 2 && near(q[k][0], lon) && near(q[k][1], lat); };
  if (e.acc ? !pt("place", v[sP]) : !pt("origin", v[sO]) || !pt("destination", v[sD])) return "the places are not those of the request"; if (!q.contains("timeOfTrip") || q["timeOfTrip"] != json(atol(v[sT].c_str()))) return "the time is not that of the request"; if (!q.contains("timeType") || q["timeType"] != json(atol(v[sTT].c_str()))) return "the time type is not that of the request"; return ""; }
static const Set DOCERR = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_PLACE", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_PLACE", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
static void bad(const string& what, const string& target, const string& answer, json more = json::object()) { json j = {{"violations", {what}}, {"request", shorten(target, 3000)}, {"answer", shorten(answer)}}; for (auto& x : more.items()) j[x.key()] = x.value(); P.violation(j); }
// chosen: a value of the alphabet per slot of the endpoint; order: of the parameters in the query string
static bool request(Session& S, const Endp& e, const vector<const Val*>& c, bool reversed, const string& raw = "") {
  string q; vector<int> sl = e.slots; if (reversed) std::reverse(sl.begin(), sl.end()); for (int s : sl) if (c[s] && !c[s]->text.empty()) q += (q.empty() ? "" : "&") + c[s]->text;
  string target = e.path + "?" + q; P.at(target.substr(0, 3000)); P.count(cReq); P.count(cAns); Resp r = S.srv.srv.get(target);
  if (!r.error.empty()) { bad("not exactly one well-formed response: " + r.error, target, r.body); return false; }
  json j = json::parse(r.body, nullptr, false); if (j.is_discarded() || !j.is_object()) { bad("the body is not a JSON object", target, r.body); return false; }
  string st = j.contains("status") && j["status"].is_string() ? j["status"].get<string>() : ""; bool certain = true, possible = true; Set errs; for (int s : e.slots) { if (s == sX || !c[s]) continue; if (!c[s]->errs.empty()) certain = false; if (c[s]->vals.empty()) possible = false; errs.insert(c[s]->errs.begin(), c[s]->errs.end()); }
  if (st == "query_error") { P.count(cErr); string code = j.value("errorCode", "(none)"); if (r.code != 400) { bad("query_error without HTTP 400", target, r.body); return false; } if (!errs.count(code)) { bad("HTTP 400 with an errorCode that names no defect of the request", target, r.body, {{"defects", errs}}); return false; } return true; }
  if (r.code != 200) { bad("neither HTTP 400 with query_error nor HTTP 200", target, r.body, {{"code", r.code}}); return false; }
  if (S.notReady) { P.count(cData); if (st != "data_error" || j.value("errorCode", "").compare(0, 13, "MISSING_DATA_")) { bad("the data are not ready but the answer is not data_error", target, r.body); return false; } return true; }
  if (!possible) { bad("a request with a defect is not refused", target, r.body, {{"defects", errs}}); return false; }
  if (st != "success" && st != "no_routing_found") { bad("HTTP 200 with an undocumented status", target, r.body); return false; }
  P.count(cOk);
  // the answer is that of the request with every parameter given explicitly, for one of the readings
  vector<vector<string>> cand(1, vector<string>(NSLOT)); for (int s : e.slots) { if (s == sX) continue; vector<vector<string>> n; for (auto& x : cand) for (auto& v : c[s]->vals) { x[s] = v; n.push_back(x); } cand = n; }
  string why; for (auto& v : cand) { string w = echo(e, j, v); if (!w.empty()) { why = w; continue; } const string& want = S.canonBody(canonical(e, v)); P.count(cCmp); if (want == "200\n" + r.body) return true; why = "the answer differs from that to " + canonical(e, v) + " : " + shorten(want); }
  (void)certain; bad("the request is not answered like the same request with every parameter given", target, r.body, {{"why", why}}); return false;
}
static vector<const Val*> baseOf(const Endp& e, int variant) { vector<const Val*> c(NSLOT, nullptr); for (int s : e.slots) for (auto& v : ALPHA[s]) if (v.plain) { c[s] = &v; break; } if (variant & 1) c[sTT] = &ALPHA[sTT][2]; if (variant & 2) { for (auto& v : ALPHA[sT]) if (v.text == kv(sT, to_string(B - 460))) c[sT] = &v; } if ((variant & 4) && !e.acc) c[sAL] = &ALPHA[sAL][1]; return c; }

// ---- /updateCache
static const vector<string> KIND = {"nodes", "data_sources", "persons", "od_trips", "agencies", "services", "lines", "paths", "scenarios", "schedules"};
static bool update(Session& S, const string& query, const Set& known, bool readable) {
  string target = "/updateCache" + query; P.at(target.substr(0, 3000)); P.count(cReq); P.count(cAns); P.count(cUpd); Resp r = S.srv.srv.get(target);
  if (!r.error.empty()) { bad("not exactly one well-formed response: " + r.error, target, r.body); return false; }
  json j = json::parse(r.body, nullptr, false); if (j.is_discarded() || !j.is_object()) { bad("the body is not a JSON object", target, r.body); return false; }
  string st = j.contains("status") && j["status"].is_string() ? j["status"].get<string>() : ""; if (r.code != 200) { bad("/updateCache without HTTP 200", target, r.body, {{"code", r.code}}); return false; }
  if (known.empty()) { if (st != "error" || !j.contains("error")) { bad("no known cache name, but the answer is not an error object", target, r.body); return false; } return true; }
  if (st != "success" || !j.contains("cache_names") || !j["cache_names"].is_string()) { bad("a known cache name, but no success object naming the refreshed caches", target, r.body); return false; }
  Set got; { string s = j["cache_names"]; size_t p = 0; while (p <= s.size()) { size_t c = s.find(',', p); if (c == string::npos) c = s.size(); got.insert(s.substr(p, c - p)); p = c + 1; } }
  Set every(KIND.begin(), KIND.end()); every.insert("all"); for (auto& g : got) if (!every.count(g)) { bad("the success object names a cache that does not exist", target, r.body); return false; } for (auto& k : known) if (!got.count(k) && !(k == "all" && got.size() >= KIND.size())) { bad("the success object does not name a refreshed cache", target, r.body, {{"missing", k}}); return false; }
  (void)readable; return true;
}

int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off); P.engine = "c18asan"; P.parse(argc, argv); P.prop = "C18"; bool th = P.tier == "thorough";
  cReq = P.counter("states"); cAns = P.counter("transitions"); cCmp = P.counter("traces_validated_against_impl"); cErr = P.counter("refused_with_400"); cOk = P.counter("answered_from_the_data"); cData = P.counter("answered_with_data_error"); cUpd = P.counter("cache_updates"); P.hang = 120; P.batch = 1;
  D = city(); alphabetsOf(th); dirReady = P.scratch + "/ready"; EncodeOpts eo; eo.dataSources = true; Files files = encodeCache(D, eo); writeDir(dirReady, files);
  vector<int> opt = {sTT, sMW, sTO, sAC, sEG, sTR, sFW, sX}; vector<int> r = {sO, sD, sS, sT, sAL}, a = {sP, sS, sT}; r.insert(r.end(), opt.begin(), opt.end()); a.insert(a.end(), opt.begin(), opt.end()); EP = {{"/v2/route", false, r}, {"/v2/summary", false, r}, {"/v2/accessibility", true, a}};
  // directories whose data are not ready: one kind of file missing
  vector<string> nrDirs; for (string k : {"agencies", "services", "nodes", "lines", "paths", "scenarios", "lines/"}) { Files f; for (auto& x : files) if (k == "lines/" ? x.first.compare(0, 6, "lines/") != 0 : x.first != k + ".capnpbin") f.insert(x); string d = P.scratch + "/without_" + to_string(nrDirs.size()); writeDir(d, f); nrDirs.push_back(d); }
  struct Task { int kind, ep, base, s1, v1, s2; string name; }; vector<Task> T; auto add = [&](Task t) { if (P.only.empty() || P.only == t.name) T.push_back(t); };
  // 1. all single deviations and all pairs (thorough: triples), from several valid requests, in both orders of the parameters
  for (int ep = 0; ep < 3; ep++) for (int b = 0; b < (EP[ep].acc ? 4 : 8); b++) { if (!th && b != 0 && b != 3 && b != 4) continue; for (int s : EP[ep].slots) for (size_t v = 0; v < ALPHA[s].size(); v++) add({0, ep, b, s, (int)v, 0, "pairs"}); }
  if (th) for (int ep = 0; ep < 3; ep++) for (size_t i = 0; i < EP[ep].slots.size(); i++) for (size_t k = i + 1; k < EP[ep].slots.size(); k++) for (size_t v = 0; v < ALPHA[EP[ep].slots[i]].size(); v++) add({1, ep, (int)(i + k) % 2 ? 0 : 1, EP[ep].slots[i], (int)v, EP[ep].slots[k], "triples"});
  // 2. omitted optional parameters: every subset, around every default; non-positive limits
  vector<std::pair<int,int>> od = {{0, 1}, {2, 1}, {3, 1}, {0, 4}, {0, 5}, {0, 6}, {0, 7}, {0, 8}, {2, 4}, {3, 5}, {2, 6}, {0, 9}}; vector<int> times = {B - 60 - 180, B - 60 - 179, B - 60 - 1800, B - 60 - 1801, B - 1200 - 180, B - 1200 - 1800, B - 1200 - 1801, B - 60 - 1980, B - 400 + 200 - 1800, B - 400 + 200 - 1801, B + 600 + 60, B + 600 + 59, B + 600 + 1200, B + 600 + 1201, B + 2700 + 60, B + 2700 + 59, B + 100000 + 60, B + 100000 + 59};
  for (int ep = 0; ep < 3; ep++) for (size_t p = 0; p < (EP[ep].acc ? D.places.size() : od.size()); p++) for (size_t t = 0; t < times.size(); t++) add({2, ep, (int)p, (int)t, 0, 0, "defaults"});
  // 3. not-ready data: single deviations
  for (int ep = 0; ep < 3; ep++) for (size_t d = 0; d < nrDirs.size(); d++) add({3, ep, (int)d, 0, 0, 0, "not ready"});
  // 4. framings
  for (int k = 0; k < 40; k++) add({4, 0, k, 0, 0, 0, "framings"});
  // 5. /updateCache
  for (int k = 0; k < 64; k++) add({5, 0, k, 0, 0, 0, "updateCache"});
  auto describe = [&](uint64_t i) { const Task& t = T[i]; json j = {{"what", t.name}}; if (t.kind <= 1) { j["endpoint"] = EP[t.ep].path; j["first_deviation"] = shorten(ALPHA[t.s1][t.v1].text, 200); j["then"] = t.kind ? "every pair of deviations of a later parameter and " + string(KEY[t.s2]) : string("every second deviation, and none"); } if (t.kind == 2) { j["endpoint"] = EP[t.ep].path; j["time"] = times[t.s1]; } return j; };
  { json al = json::object(); for (int s = 0; s < NSLOT; s++) al[s == sX ? "(other)" : KEY[s]] = ALPHA[s].size(); P.cov["values_per_parameter"] = al; }
  P.cov["counting"] = "states: distinct requests of the enumeration; transitions: requests executed (with the explicit requests they are compared with); traces_validated_against_impl: answers compared with those to the explicit request";
  P.assumptions = {"where the documentation does not say whether a value is malformed (leading blanks or zeros, +5, exponents in coordinates, UUIDs in upper case or without dashes, unknown time_type or alternatives values), both readings are accepted", "duplicated parameters: each occurrence may be the one used, and a malformed occurrence may be refused", "in-memory sockets: one request per read at the framing enumerated; the TCP layer is Boost.Asio's"};
  auto defaultsTask = [&](Session& S, const Task& t) {
    const Endp& e = EP[t.ep]; vector<Val> store(NSLOT);
    for (int tt = 0; tt < 2; tt++) for (int al = 0; al < (e.acc ? 1 : 2); al++) for (int m = 0; m < 64; m++) for (int np = 0; np < 3; np++) { // a bit per limit: omitted, or (np) not positive
      if (!th && np && __builtin_popcount(m) > 2 && m != 63) continue; vector<const Val*> c(NSLOT, nullptr); auto put = [&](int s, const string& txt, const string& v) { store[s] = Val{txt, {v}, {}}; c[s] = &store[s]; };
      if (e.acc) put(sP, kv(sP, place(D, t.base)), place(D, t.base)); else { put(sO, kv(sO, place(D, od[t.base].first)), place(D, od[t.base].first)); put(sD, kv(sD, place(D, od[t.base].second)), place(D, od[t.base].second)); put(sAL, al ? kv(sAL, "true") : "", al ? "true" : "false"); }
      put(sS, kv(sS, uuidStr(K_SCEN, 0)), uuidStr(K_SCEN, 0)); put(sT, kv(sT, to_string(times[t.s1])), to_string(times[t.s1])); put(sTT, tt ? kv(sTT, "1") : "", tt ? "1" : "0"); put(sX, "", "");
      for (int k = 0; k < 6; k++) { int s = sMW + k; static const char* OTHER[6] = {"100", "5000", "1300", "1300", "1300", "2500"}; if (m >> k & 1) { if (np == 0) put(s, "", DEFAULTS[s]); else { string v = np == 1 ? "0" : "-7"; put(s, kv(s, v), normOf(s, atol(v.c_str()))); } } else if (np == 0) put(s, kv(s, OTHER[k]), OTHER[k]); else put(s, "", DEFAULTS[s]); }
      if (!request(S, e, c, m & 1)) return; } };
  return P.run(T.size(), [&](uint64_t i) {
    const Task& t = T[i]; Session S(t.kind == 3 ? nrDirs[t.base] : dirReady, t.kind == 3); const Endp& e = EP[t.ep];
    if (t.kind == 0) { vector<const Val*> c = baseOf(e, t.base); c[t.s1] = &ALPHA[t.s1][t.v1]; bool rev = t.base & 1; request(S, e, c, rev); bool past = false; for (int s2 : e.slots) { if (s2 == t.s1) { past = true; continue; } if (!past) continue; const Val* keep = c[s2]; for (auto& v : ALPHA[s2]) { if (&v == keep) continue; c[s2] = &v; if (!request(S, e, c, rev)) _exit(0); } c[s2] = keep; } }
    else if (t.kind == 1) { vector<const Val*> c = baseOf(e, t.base); c[t.s1] = &ALPHA[t.s1][t.v1]; for (auto& v2 : ALPHA[t.s2]) { alarm(P.hang); c[t.s2] = &v2; bool past = false; for (int s3 : e.slots) { if (s3 == t.s2) { past = true; continue; } if (!past) continue; const Val* keep = c[s3]; for (auto& v : ALPHA[s3]) { if (&v == keep) continue; c[s3] = &v; if (!request(S, e, c, false)) _exit(0); } c[s3] = keep; } if (S.canon.size() > 3000) S.canon.clear(); } }
    else if (t.kind == 2) defaultsTask(S, t);
    else if (t.kind == 3) { for (int s1 : e.slots) for (auto& v : ALPHA[s1]) { vector<const Val*> c = baseOf(e, 0); c[s1] = &v; if (!request(S, e, c, false)) _exit(0); if (v.errs.size()) for (int s2 : {(int)sT, (int)sS}) if (s2 != s1) { auto c2 = c; c2[s2] = &ALPHA[s2][3]; if (!request(S, e, c2, true)) _exit(0); } }
      for (string q : {"", "?names=unknown", "?names=", "?names=all", "?names=nodes,schedules", "?caches=unknown,lines"}) { Set k; if (q.find("all") != string::npos) k = {"all"}; if (q.find("nodes") != string::npos) k = {"nodes", "schedules"}; if (q.find(",lines") != string::npos) k = {"lines"}; if (!update(S, q, k, true)) _exit(0); } vector<const Val*> c = baseOf(e, 0); request(S, e, c, false);
      // the files return: the requests are answered
      if (update(S, "?names=all&path=../ready", {"all"}, true)) { S.notReady = false; for (int b = 0; b < 4; b++) request(S, e, baseOf(e, b), false); S.notReady = true; if (update(S, "?names=all", {"all"}, true)) request(S, e, c, false); } }
    else if (t.kind == 4) { // the same requests in other bytes
      vector<string> targets; for (auto& ep : EP) for (int b : {0, 3}) { vector<const Val*> c = baseOf(ep, b); string q; for (int s : ep.slots) if (c[s] && !c[s]->text.empty()) q += (q.empty() ? "" : "&") + c[s]->text; targets.push_back(ep.path + "?" + q); } targets.push_back("/v2/route?origin=abc&destination=1,2"); targets.push_back("/v2/accessibility?place=1,2"); targets.push_back("/updateCache?names=unknown"); targets.push_back("/updateCache?names=schedules"); targets.push_back("/v2/summary");
      auto want = [&](const string& tg) { return S.canonBody(tg); };
      auto chk = [&](const string& tg, const string& bytes, const vector<size_t>& cuts, const string& how) { P.at(how + " | " + tg); P.count(cReq); P.count(cAns); string out = S.srv.srv.raw(bytes, cuts); auto v = parseResponses(out); if (v.size() != 1 || !v[0].error.empty()) { bad("not exactly one well-formed response", tg, out, {{"framing", how}}); return false; } P.count(cCmp); if (to_string(v[0].code) + "\n" + v[0].body != want(tg)) { bad("the answer depends on how the bytes of the request arrive", tg, out, {{"framing", how}, {"expected", shorten(want(tg))}}); return false; } return true; };
      auto slash = [](string tg) { size_t q = tg.find('?'); return q == string::npos ? tg + "/" : tg.substr(0, q) + "/" + tg.substr(q); };
      for (size_t k = 0; k < targets.size(); k++) { const string& tg = targets[k]; string b = rawGet(tg);
        if (t.base < 20) { for (size_t c = 1 + t.base; c < b.size(); c += 20) { if (!chk(tg, b, {c}, "cut at byte " + to_string(c))) _exit(0); for (size_t c2 = c + 1; c2 < b.size(); c2 += th ? 1 : 17) if (!chk(tg, b, {c, c2}, "cut at bytes " + to_string(c) + ", " + to_string(c2))) _exit(0); } continue; }
        vector<size_t> every; for (size_t c = 1; c < b.size(); c++) every.push_back(c); string H = "Host: localhost\r\n", big; for (int h = 0; h < 200; h++) big += "X-Header-" + to_string(h) + ": " + string(100, 'v') + "\r\n";
        bool ok = true; switch (t.base) { case 20: ok = chk(tg, b, every, "byte by byte"); break; case 21: ok = chk(tg, "GET " + tg + " HTTP/1.0\r\n\r\n", {}, "HTTP/1.0"); break; case 22: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\nhost: localhost\r\nCONNECTION: close\r\n\r\n", {}, "Connection: close"); break; case 23: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + big + "\r\n", {}, "200 headers"); break; case 24: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + "Content-Length: 0\r\n\r\n", {}, "Content-Length: 0"); break; case 25: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + "Content-Length: 5\r\n\r\nhello", {}, "with a body"); break; case 26: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + "Content-Length: 5\r\n\r\nhello", every, "with a body, byte by byte"); break; case 27: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + "Transfer-Encoding: chunked\r\n\r\n5\r\nhello\r\n0\r\n\r\n", {}, "with a chunked body"); break; case 28: { string s = slash(tg); P.count(cReq); P.count(cAns); string out = S.srv.srv.raw(rawGet(s)); auto v = parseResponses(out); ok = v.size() == 1 && v[0].error.empty() && to_string(v[0].code) + "\n" + v[0].body == want(tg); if (!ok) bad("with a trailing slash the answer is another", s, out); break; } case 29: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + "Accept-Encoding: gzip\r\nAccept: text/html\r\nExpect: 100-continue\r\nUpgrade: h2c\r\n\r\n", {}, "other headers"); break; case 30: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + "Connection: keep-alive\r\n\r\n", {}, "keep-alive"); break; case 31: ok = chk(tg, "GET " + tg + " HTTP/1.1\r\n" + H + "X:\r\nY: \r\nZ:  padded  \r\n\r\n", {}, "empty headers"); break; default: break; }
        if (t.base >= 32) for (int rep = 0; rep < 6; rep++) for (size_t k2 = 0; k2 < targets.size(); k2++) { string b2 = rawGet(targets[k2]); P.count(cReq); P.count(cAns, 2); size_t n = b.size() + b2.size(), c = b.size(); vector<size_t> cuts = {c}; if (t.base > 32) cuts.push_back(c + 1 + (t.base - 33) * 6 + rep); if (t.base == 32 && rep) break; P.at(tg + " then " + targets[k2]); string out = S.srv.srv.raw(b + b2, cuts); auto v = parseResponses(out); (void)n; if (v.size() != 2 || !v[0].error.empty() || !v[1].error.empty() || to_string(v[0].code) + "\n" + v[0].body != want(tg) || to_string(v[1].code) + "\n" + v[1].body != want(targets[k2])) { bad("two requests on one connection do not get one response each, each as alone", tg + " then " + targets[k2], out); _exit(0); } }
        if (!ok) _exit(0); } }
    else { // /updateCache
      static const vector<string> KEYS = {"names", "caches", "cache_names", "name", "cache", "cache_name"}; struct NV { string raw; Set known; }; vector<NV> N = {{"", {}}, {"unknown", {}}, {"all", {"all"}}, {",", {}}, {",,,", {}}, {"nodes,unknown", {"nodes"}}, {"unknown,nodes", {"nodes"}}, {",nodes", {"nodes"}}, {"nodes,", {"nodes"}}, {"nodes,nodes", {"nodes"}}, {"nodes,,schedules", {"nodes", "schedules"}}, {"unknown,unknown2,", {}}, {"schedules,scenarios", {"schedules", "scenarios"}}, {"nodes%2Clines", {"nodes", "lines"}}, {"all,nodes", {"all", "nodes"}}, {"unknown,all", {"all"}}, {"%00", {}}, {"%FF", {}}, {"%22", {}}, {"a%22b%5C", {}}, {"nodes%00", {}}, {string(5000, 'x'), {}}, {"nodes;schedules", {}}, {"households", {}}, {"places", {}}};
      for (auto& k : KIND) N.push_back({k, {k}}); { string l; for (auto& k : KIND) l += (l.empty() ? "" : ",") + k; N.push_back({l, Set(KIND.begin(), KIND.end())}); l += "," + l + ",x"; N.push_back({l, Set(KIND.begin(), KIND.end())}); }
      struct PV { string txt; bool elsewhere; }; vector<PV> paths = {{"", false}, {"path=", false}, {"custom_path=", false}, {"custom_cache_path=.", false}, {"path=../ready", false}, {"path=no%2Fsuch", true}, {"path=no\"such", true}, {"path=%22%5C%0A%01", true}, {"path=%FF%FE", true}, {"path=" + string(5000, 'p'), true}, {"path=%00", true}, {"path=..%2F..%2F..", true}, {"custom_path=a=b", true}, {"path", false}};
      vector<const Val*> pr[3]; for (int k = 0; k < 3; k++) pr[k] = baseOf(EP[k], 0); auto probes = [&] { for (int k = 0; k < 3; k++) if (!request(S, EP[k], pr[k], false)) return false; return true; }; if (!probes()) _exit(0); int cell = 0;
      // one field of names, with and without a path
      for (auto& key : KEYS) for (auto& n : N) for (auto& p : paths) for (int order = 0; order < (p.txt.empty() ? 1 : 2); order++) { if (cell++ % 64 != t.base) continue; alarm(P.hang); string f = key + "=" + n.raw, q = "?" + (p.txt.empty() ? f : order ? p.txt + "&" + f : f + "&" + p.txt); if (!update(S, q, n.known, true)) _exit(0); if (p.elsewhere) { if (!n.known.empty() && !update(S, "?names=all", {"all"}, true)) _exit(0); } if (!n.known.empty() && !probes()) _exit(0); }
      // two fields of names
      for (size_t k1 = 0; k1 < KEYS.size(); k1++) for (size_t k2 = 0; k2 < KEYS.size(); k2++) { if (!th && k1 > 1 && k2 != k1) continue; for (auto& a : N) for (auto& b : N) { if (cell++ % 64 != t.base) continue; alarm(P.hang); Set u = a.known; u.insert(b.known.begin(), b.known.end()); if (!update(S, "?" + KEYS[k1] + "=" + a.raw + "&" + KEYS[k2] + "=" + b.raw, u, true)) _exit(0); if (!u.empty() && cell % (64 * 8) < 64 && !probes()) _exit(0); } }
      // other query strings
      for (string q : {"", "?", "?=", "?&", "?names", "?names&path", "?NAMES=unknown", "?foo=all", "?all", "?nodes", "?names==all", "?path=../ready", "?names=%", "?%6eames", "?=all", "?names=unknown&names=", "?names=&caches=", "/", "/?names=unknown"}) { if (cell++ % 64 != t.base) continue; if (!update(S, q, {}, true)) _exit(0); } if (!probes()) _exit(0); }
    _exit(0);
  }, describe);
}
