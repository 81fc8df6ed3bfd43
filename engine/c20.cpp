// C20: faults of the walking router.  The repository's server with its real
// router client over loopback TCP to a scripted stub: every listed fault, reply
// truncated at every byte, at the origin lookup, the destination lookup or both;
// all pairs and sequences of representative faults, interleaved with healthy
// exchanges; all orders of the router events of two concurrent requests.
// Part 'mem': server with in-memory sockets, AddressSanitizer.  Part 'bin': the
// server binary with one and with four threads (a second process).
#include "requests.hpp"
#include <sys/socket.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <dlfcn.h>
#include <dirent.h>
#include <poll.h>
namespace vf { Counters g_cnt; }
using namespace vf;
static Pool P; static int cSeq, cAns, cAff, cCmp, cExch, cFault; static DS D; static string dirD; static const int B = 8 * 3600;

// ---- faults
enum At { REPLY, CONNECT, RESOLVE, ACCEPT_CLOSE, ACCEPT_RST, PART_RST, READ_CLOSE, READ_RST };
enum Style { CL, CHUNKED, CLOSED };
struct Fault { string name; int at = REPLY; int err = 0; bool once = false;   // once: a second attempt of the same lookup is served
  std::function<string(const json& table)> reply; bool rst = false;                // the bytes of the reply; how the connection ends
  std::function<int(int mask, int n)> keep; bool usable = false; };           // which of the stops (bits) the reply still tells about
static string http(const string& status, const string& body, int style = CL, const string& more = "") { string h = "HTTP/1.1 " + status + "\r\nContent-Type: application/json; charset=UTF-8\r\n" + more;
  if (style == CL) return h + "Content-Length: " + to_string(body.size()) + "\r\n\r\n" + body; if (style == CLOSED) return h + "Connection: close\r\n\r\n" + body;
  h += "Transfer-Encoding: chunked\r\n\r\n"; for (size_t i = 0; i < body.size(); i += 60) { char b[20]; size_t n = std::min<size_t>(60, body.size() - i); snprintf(b, sizeof b, "%zx\r\n", n); h += b + body.substr(i, n) + "\r\n"; } return h + "0\r\n\r\n"; }
static string good(const json& t, int style = CL) { return http("200 OK", t.dump(), style); }

// ---- the stub
struct Lookup { int place; vector<int> stops; };
static bool parseQuery(const string& head, Lookup& l) { // GET /table/v1/walking/lon,lat;lon,lat?...
  size_t a = head.find("/table/v1/"); if (head.compare(0, 4, "GET ") || a == string::npos) return false; a = head.find('/', a + 10); size_t e = head.find('?', a); if (a == string::npos || e == string::npos) return false; string c = head.substr(a + 1, e - a - 1); l.place = -1; l.stops.clear(); size_t p = 0; bool first = true;
  while (p <= c.size()) { size_t q = c.find(';', p); if (q == string::npos) q = c.size(); double lon = 0, lat = 0; if (sscanf(c.c_str() + p, "%lf,%lf", &lon, &lat) != 2) return false; int k = -1; if (first) { for (size_t i = 0; i < D.places.size(); i++) if (fabs(D.placeLon(i) - lon) < 2e-6 && fabs(D.placeLat(i) - lat) < 2e-6) k = i; l.place = k; } else { for (int i = 0; i < D.ns; i++) if (fabs(D.stopLon(i) - lon) < 2e-6 && fabs(D.stopLat(i) - lat) < 2e-6) k = i; l.stops.push_back(k); } first = false; if (q == c.size()) break; p = q + 1; }
  return true; }
struct Script { // what the router does: per place, or per order of the lookups for what happens before the place is known
  std::mutex m; std::condition_variable cv; vector<int> order; vector<const Fault*> fault; vector<int> tries; vector<int> mask; size_t cur = 0; uint64_t exchanges = 0; vector<int> served;
  bool gated = false; vector<int> gate; size_t gatePos = 0; int unforced = 0;      // gate: order of the places in which lookups are answered
  void set(const vector<int>& places, const vector<const Fault*>& f) { std::lock_guard<std::mutex> l(m); order = places; fault = f; tries.assign(f.size(), 0); cur = 0; gated = false; served.clear(); } };
static Script SC; static int g_port = 0; static bool g_bin = false;
static json table(const Lookup& l) { json du = json::array({0}), di = json::array({0}); int b = 0; int mk = l.place >= 0 && l.place < (int)SC.mask.size() ? SC.mask[l.place] : -1; for (int s : l.stops) { double t = 99999, d = 99999; if (l.place >= 0) { int k = 0; for (auto& f : D.places[l.place]) { if (f.to == s && (mk >> k & 1)) { t = f.time - 0.3; d = f.dist - 0.4; } k++; } } du.push_back(t); di.push_back(d); b++; } return {{"code", "Ok"}, {"durations", json::array({du})}, {"distances", json::array({di})}, {"sources", json::array()}, {"destinations", json::array()}}; }
static void shut(int fd, bool rst) { if (rst) { linger g{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &g, sizeof g); } else { shutdown(fd, SHUT_WR); char b[4096]; pollfd pf{fd, POLLIN, 0}; while (poll(&pf, 1, 2000) > 0 && recv(fd, b, sizeof b, 0) > 0) {} } close(fd); }
static void sendAll(int fd, const string& s) { size_t p = 0; while (p < s.size()) { ssize_t n = send(fd, s.data() + p, s.size() - p, MSG_NOSIGNAL); if (n <= 0) return; p += n; } }
static void serve(int fd) {
  { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); }
  for (;;) {
    { const Fault* f = nullptr; std::lock_guard<std::mutex> l(SC.m); if (SC.cur < SC.fault.size()) f = SC.fault[SC.cur]; if (f && (f->at == ACCEPT_CLOSE || f->at == ACCEPT_RST || f->at == PART_RST) && !(f->once && SC.tries[SC.cur])) { SC.tries[SC.cur]++; SC.exchanges++; if (!f->once && SC.tries[SC.cur] >= 2 && SC.cur + 1 < SC.fault.size()) SC.cur++; if (f->at == PART_RST) { char b[8]; recv(fd, b, sizeof b, 0); } if (f->at == ACCEPT_CLOSE) { close(fd); } else shut(fd, true); return; } }
    string in; char b[8192]; while (in.find("\r\n\r\n") == string::npos) { ssize_t n = recv(fd, b, sizeof b, 0); if (n <= 0) { close(fd); return; } in.append(b, n); }
    Lookup l; if (!parseQuery(in, l)) { sendAll(fd, http("400 Bad Request", "{\"code\":\"InvalidUrl\"}")); continue; }
    const Fault* f = nullptr; json t; bool fin = true;
    { std::unique_lock<std::mutex> k(SC.m); SC.exchanges++; t = table(l); SC.served.push_back(l.place); size_t i = 0; for (; i < SC.order.size() && SC.order[i] != l.place; i++) {} if (i < SC.fault.size()) { f = SC.fault[i]; if (f && (f->at == CONNECT || f->at == RESOLVE || f->at == ACCEPT_CLOSE || f->at == ACCEPT_RST || f->at == PART_RST)) f = nullptr; SC.tries[i]++; if (f && f->once && SC.tries[i] > 1) f = nullptr; if (i + 1 > SC.cur && i + 1 <= SC.fault.size()) SC.cur = std::min(i + 1, SC.fault.size()); }
      if (SC.gated) { auto turn = [&] { return SC.gatePos >= SC.gate.size() || SC.gate[SC.gatePos] == l.place; }; while (!turn()) { size_t was = SC.gatePos; if (SC.cv.wait_for(k, std::chrono::milliseconds(250)) == std::cv_status::timeout && SC.gatePos == was && !turn()) { SC.unforced++; SC.gatePos++; SC.cv.notify_all(); } } SC.gatePos++; SC.cv.notify_all(); } }
    if (!f) { sendAll(fd, good(t)); continue; }
    switch (f->at) { case READ_CLOSE: shut(fd, false); return; case READ_RST: shut(fd, true); return; default: sendAll(fd, f->reply(t)); shut(fd, f->rst); return; }
  }
}
static int g_listen = -1;
static void startStub() {
  g_listen = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); if (bind(g_listen, (sockaddr*)&a, sizeof a) || listen(g_listen, 512)) { perror("stub"); _exit(2); } socklen_t n = sizeof a; getsockname(g_listen, (sockaddr*)&a, &n); g_port = ntohs(a.sin_port);
  std::thread([] { for (;;) { int fd = accept4(g_listen, nullptr, nullptr, SOCK_CLOEXEC); if (fd < 0) { if (errno == EMFILE || errno == EINTR || errno == ECONNABORTED) { usleep(1000); continue; } return; } std::thread(serve, fd).detach(); } }).detach(); }
// the connection and the resolution of the router's name, seen from the server's process ('mem')
static const Fault* early(int kind) { std::lock_guard<std::mutex> l(SC.m); if (SC.cur >= SC.fault.size()) return nullptr; const Fault* f = SC.fault[SC.cur]; if (!f || f->at != kind || (f->once && SC.tries[SC.cur])) return nullptr; SC.tries[SC.cur]++; SC.exchanges++; if (SC.cur + 1 < SC.fault.size()) SC.cur++; return f; }
extern "C" int connect(int fd, const sockaddr* a, socklen_t n) { static int (*real)(int, const sockaddr*, socklen_t); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "connect"); if (!g_bin && a->sa_family == AF_INET && ntohs(((const sockaddr_in*)a)->sin_port) == g_port) if (const Fault* f = early(CONNECT)) { errno = f->err; return -1; } return real(fd, a, n); }
extern "C" int getaddrinfo(const char* h, const char* s, const addrinfo* hi, addrinfo** r) { static int (*real)(const char*, const char*, const addrinfo*, addrinfo**); if (!real) real = (decltype(real))dlsym(RTLD_NEXT, "getaddrinfo"); if (!g_bin) if (const Fault* f = early(RESOLVE)) return f->err; return real(h, s, hi, r); }

// ---- the server under test
struct Sut { std::unique_ptr<HttpServerProc> mem; pid_t pid = -1; int port = 0; string err;
  string ask(const Req& r) { if (mem) return mem->raw(r.bytes);
    int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); a.sin_port = htons(port); if (connect(fd, (sockaddr*)&a, sizeof a)) { close(fd); return "(connection refused by the server)"; } timeval tv{30, 0}; setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); sendAll(fd, r.bytes);
    string in; char b[16384]; for (;;) { size_t e = in.find("\r\n\r\n"); if (e != string::npos) { size_t c = in.find("Content-Length: "); if (c != string::npos && c < e && in.size() >= e + 4 + atol(in.c_str() + c + 16)) break; } ssize_t n = recv(fd, b, sizeof b, 0); if (n <= 0) break; in.append(b, n); } close(fd); return in; }
  bool alive() { if (mem) return true; int st; return waitpid(pid, &st, WNOHANG) == 0; }
  void startMem() { vector<string> v = {"--cachePath=" + dirD, "--osrmHost=127.0.0.1", "--osrmPort=" + to_string(g_port), "--cacheAllConnectionSets=false", "--useEuclideanDistance=false"}; mem.reset(new HttpServerProc(v)); }
  void startBin(const string& exe, int threads) {
    for (int k = 0; k < 20; k++) { int fd = socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); bind(fd, (sockaddr*)&a, sizeof a); socklen_t n = sizeof a; getsockname(fd, (sockaddr*)&a, &n); port = ntohs(a.sin_port); close(fd);
      pid = fork(); if (!pid) { prctl_die(); int z = open("/dev/null", O_RDWR); dup2(z, 0); dup2(z, 1); dup2(z, 2); string p1 = "--port=" + to_string(port), p2 = "--cachePath=" + dirD, p3 = "--osrmPort=" + to_string(g_port), p4 = "--threads=" + to_string(threads); execl(exe.c_str(), exe.c_str(), p1.c_str(), p2.c_str(), "--osrmHost=127.0.0.1", p3.c_str(), p4.c_str(), (char*)0); _exit(127); }
      double t0 = nowS(); while (nowS() - t0 < 20) { int st; if (waitpid(pid, &st, WNOHANG) == pid) { pid = -1; break; } int f = socket(AF_INET, SOCK_STREAM, 0); a.sin_port = htons(port); int c = connect(f, (sockaddr*)&a, sizeof a); close(f); if (!c) return; usleep(20000); }
      if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); pid = -1; } }
    fprintf(stderr, "the server binary does not start\n"); _exit(3); }
  static void prctl_die();
  ~Sut() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); } } };
#include <sys/prctl.h>
void Sut::prctl_die() { prctl(PR_SET_PDEATHSIG, SIGKILL); }

// ---- requests and what they may answer
struct Rq { Req req; vector<int> places; bool acc; }; static vector<Rq> RQ; static SharedTexts* base; static vector<int> nStops; static int NM; // base: [request][mask of the first place][mask of the second]
static size_t baseIdx(int r, int ma, int mb) { return ((size_t)r * NM + ma) * NM + mb; }
static int fullMask(int p) { return (1 << D.places[p].size()) - 1; }
static string norm(const string& out) { auto v = parseResponses(out); if (v.size() != 1 || !v[0].error.empty()) return "malformed\n" + out; return to_string(v[0].code) + "\n" + v[0].body; }
static const std::set<string> REASONS = {"NO_ROUTING_FOUND", "NO_ACCESS_AT_ORIGIN", "NO_ACCESS_AT_DESTINATION", "NO_ACCESS_AT_ORIGIN_AND_DESTINATION", "NO_SERVICE_FROM_ORIGIN", "NO_SERVICE_TO_DESTINATION", "NO_ACCESS_AT_PLACE", "NO_SERVICE_AT_PLACE"};
static const std::set<string> ERRS = {"EMPTY_SCENARIO", "MISSING_PARAM_SCENARIO", "MISSING_PARAM_ORIGIN", "MISSING_PARAM_DESTINATION", "MISSING_PARAM_PLACE", "MISSING_PARAM_TIME_OF_TRIP", "INVALID_ORIGIN", "INVALID_DESTINATION", "INVALID_PLACE", "INVALID_NUMERICAL_DATA", "PARAM_ERROR_UNKNOWN"};
// empty: fine
static string judge(int r, const vector<const Fault*>& f, const string& out) {
  auto v = parseResponses(out); if (v.size() != 1 || !v[0].error.empty()) return "not exactly one well-formed response"; json j = json::parse(v[0].body, nullptr, false); if (j.is_discarded() || !j.is_object()) return "the body is not a JSON object"; string st = j.contains("status") && j["status"].is_string() ? j["status"].get<string>() : "(none)";
  string n = norm(out); auto& q = RQ[r]; bool any = false; for (auto x : f) any |= x != nullptr; int m0 = fullMask(q.places[0]), m1 = q.acc ? 0 : fullMask(q.places[1]);
  P.count(cCmp); if (n == base->get(baseIdx(r, m0, m1))) return ""; if (!any) return "after the faults, the answer differs from the one given without them";
  if (st == "query_error") return v[0].code == 400 && j.contains("errorCode") && j["errorCode"].is_string() && ERRS.count(j["errorCode"].get<string>()) ? "" : "an undocumented query error";
  if (st == "no_routing_found") { if (v[0].code != 200) return "no_routing_found without HTTP 200"; if (!j.contains("reason")) return ""; return j["reason"].is_string() && REASONS.count(j["reason"].get<string>()) ? "" : "an undocumented reason"; }
  // the answer with what the reply still tells
  vector<int> a = {m0}, b = {m1}; if (f[0]) { a.push_back(0); if (f[0]->usable) a.push_back(f[0]->keep(m0, q.places[0])); } if (!q.acc && f.size() > 1 && f[1]) { b.push_back(0); if (f[1]->usable) b.push_back(f[1]->keep(m1, q.places[1])); }
  for (int x : a) for (int y : b) if (n == base->get(baseIdx(r, x, y))) return "";
  return st == "success" ? "an answer that is neither an error nor justified by what the router replied" : "an undocumented answer"; }
static json names(const vector<const Fault*>& f) { json a = json::array(); for (auto x : f) a.push_back(x ? x->name : "healthy"); return a; }
static json hist = json::array();
static bool one(Sut& s, int r, const vector<const Fault*>& f) {
  SC.set(RQ[r].places, f); bool any = false; for (auto x : f) any |= x != nullptr; if (any) P.count(cAff); P.count(cAns);
  json h = {{"request", RQ[r].req.name}, {"router", names(f)}}; hist.push_back(h); if (hist.size() > 12) hist.erase(0); P.at(h.dump());
  string out = s.ask(RQ[r].req), why = judge(r, f, out); if (why.empty() && !s.alive()) why = "the server process is gone";
  if (why.empty()) return true; json j = {{"violations", {why}}, {"request", RQ[r].req.name}, {"router", names(f)}, {"answer", shorten(out)}, {"last_exchanges", hist}}; P.violation(j); return false; }
static bool healthy(Sut& s, int r) { return one(s, r, vector<const Fault*>(RQ[r].places.size(), nullptr)); }

// two requests at a time; order: of the places in which the router answers
static bool pairOf(Sut& s, int r1, int r2, const vector<const Fault*>& f1, const vector<const Fault*>& f2, const vector<int>& order) {
  { vector<int> pl = RQ[r1].places; pl.insert(pl.end(), RQ[r2].places.begin(), RQ[r2].places.end()); vector<const Fault*> f = f1; f.insert(f.end(), f2.begin(), f2.end()); SC.set(pl, f); std::lock_guard<std::mutex> l(SC.m); SC.cur = pl.size(); SC.gated = true; SC.gate = order; SC.gatePos = 0; }
  json h = {{"concurrent", {{{"request", RQ[r1].req.name}, {"router", names(f1)}}, {{"request", RQ[r2].req.name}, {"router", names(f2)}}}}, {"order_of_places", order}}; hist.push_back(h); if (hist.size() > 12) hist.erase(0); P.at(h.dump()); P.count(cAns, 2); P.count(cAff);
  string o1, o2; std::thread t([&] { o1 = s.ask(RQ[r1].req); }); o2 = s.ask(RQ[r2].req); t.join();
  string w1 = judge(r1, f1, o1), w2 = judge(r2, f2, o2); if (w1.empty() && w2.empty()) return true; json j = {{"violations", {w1.empty() ? w2 : w1}}, {"request", RQ[w1.empty() ? r2 : r1].req.name}, {"answer", shorten(w1.empty() ? o2 : o1)}, {"last_exchanges", hist}}; P.violation(j); return false; }

static vector<Fault> ALL; static vector<int> reps, few; // all the faults but truncations; representatives; fewer
static vector<Fault> TRUNC; // at every byte
static void faults() {
  auto add = [&](Fault f, int level) { if (level >= 1) reps.push_back(ALL.size()); if (level >= 2) few.push_back(ALL.size()); ALL.push_back(f); };
  auto none = [](int, int) { return 0; };
  for (auto& e : std::map<int, const char*>{{ECONNREFUSED, "refuses the connection"}, {ETIMEDOUT, "connection times out"}, {EHOSTUNREACH, "host unreachable"}, {ENETUNREACH, "network unreachable"}, {ECONNRESET, "connection reset while connecting"}, {EADDRNOTAVAIL, "no local address left"}}) { Fault f; f.name = e.second; f.at = CONNECT; f.err = e.first; f.keep = none; add(f, e.first == ECONNREFUSED ? 2 : 0); }
  for (int e : {EAI_AGAIN, EAI_NONAME, EAI_FAIL}) { Fault f; f.name = string("name resolution fails: ") + gai_strerror(e); f.at = RESOLVE; f.err = e; f.keep = none; add(f, e == EAI_AGAIN ? 1 : 0); }
  for (int once = 0; once < 2; once++) for (auto& e : std::map<int, const char*>{{ACCEPT_CLOSE, "closes the connection at once"}, {ACCEPT_RST, "resets the connection at once"}, {PART_RST, "resets in the middle of the query"}, {READ_CLOSE, "closes after the query"}, {READ_RST, "resets after the query"}}) { Fault f; f.name = string(e.second) + (once ? " (first attempt only)" : ""); f.at = e.first; f.once = once; f.keep = none; add(f, !once && e.first == READ_CLOSE ? 2 : e.first == READ_CLOSE || e.first == ACCEPT_RST ? 1 : 0); }
  auto rep = [&](const string& n, std::function<string(const json&)> r, int level = 0) { Fault f; f.name = n; f.reply = r; f.keep = none; add(f, level); };
  for (string st : {"400 Bad Request", "404 Not Found", "429 Too Many Requests", "500 Internal Server Error", "502 Bad Gateway", "503 Service Unavailable", "504 Gateway Timeout", "301 Moved Permanently", "204 No Content", "206 Partial Content"}) { int lv = st[0] == '5' && st[2] == '0' ? 2 : 0;
    rep("status " + st + ", OSRM error body", [st](const json&) { return http(st, "{\"code\":\"NoTable\",\"message\":\"no table\"}"); }, lv); rep("status " + st + ", empty body", [st](const json&) { return http(st, ""); }, st[0] == '4' ? 1 : 0); rep("status " + st + ", HTML body", [st](const json&) { return http(st, "<html><body>error</body></html>"); }); rep("status " + st + ", no Content-Length", [st](const json&) { return "HTTP/1.1 " + st + "\r\n\r\n"; }); rep("status " + st + ", chunked", [st](const json&) { return http(st, "{\"code\":\"NoTable\",\"message\":\"no table\"}", CHUNKED); }); }
  for (int style : {CL, CHUNKED, CLOSED}) { string sn = style == CL ? "" : style == CHUNKED ? " (chunked)" : " (until close)"; bool c = style == CL;
    for (string b : {string(""), string(" "), string("\r\n"), string("null"), string("true"), string("0"), string("-1.5"), string("\"durations\""), string("[]"), string("{}"), string("[[]]"), string("{"), string("}"), string("<html><body>Hello</body></html>"), string("OK"), string("\0\0\0", 3), string("\xff\xfe\x80"), string("{\"durations\":[[0,NaN]],\"distances\":[[0,1]]}"), string("{\"durations\":[[0,1e999]],\"distances\":[[0,1]]}"), string("{'durations':[[0,1]]}"), string("{\"durations\":[[0,10,]],\"distances\":[[0,1]]}"), string("\xef\xbb\xbf{"), string("{\"code\":\"NoTable\",\"message\":\"x\"}"), string("{\"code\":\"Ok\"}"), string(3000, '['), string(200000, 'x'), "\"" + string(100000, 'y') + "\""}) { string nm = b.size() > 60 ? to_string(b.size()) + " times " + b.substr(1, 1) : b; rep("body " + json(nm).dump(-1, ' ', false, json::error_handler_t::replace) + sn, [b, style](const json&) { return http("200 OK", b, style); }, !c ? 0 : b.empty() || b[0] == '<' ? 2 : b == "null" || b == "[]" || b == "{}" ? 1 : 0); }
    auto ed = [&](const string& n, std::function<void(json&)> e, int level = 0) { rep(n + sn, [e, style](const json& t) { json x = t; e(x); return http("200 OK", x.dump(), style); }, c ? level : 0); };
    for (string k : {"durations", "distances"}) { bool du = k == "durations"; ed("no " + k, [k](json& x) { x.erase(k); }, du ? 2 : 1); ed(k + " null", [k](json& x) { x[k] = nullptr; }, 0); for (string v : {"[]", "[null]", "[[]]", "[[0]]", "{}", "\"x\"", "5", "true", "[5]", "[\"x\"]", "[{}]", "[true]", "{\"0\":[0,1,2]}", "[[[]]]", "[[\"a\",\"b\",\"c\",\"d\"]]", "[[{},{},{},{}]]", "[[[],[],[],[]]]", "[[true,true,true,true]]"}) { if (v == "[[true,true,true,true]]" ) continue; ed(k + " " + v, [k, v](json& x) { x[k] = json::parse(v); }, v == "[null]" && du ? 1 : 0); } }
    ed("neither durations nor distances", [](json& x) { x.erase("durations"); x.erase("distances"); }, 0);
    ed("both tables empty", [](json& x) { x["durations"] = x["distances"] = json::array({json::array()}); }, 0);
    ed("only the diagonal", [](json& x) { x["durations"] = x["distances"] = json::array({json::array({0})}); }, 0); }
  // null entries, fewer entries: 'keep' in terms of the stops of the place, which are entries of the reply in the order asked
  auto keepFrom = [](std::function<bool(int entry, int n)> gone) { return [gone](int mask, int place) { // the stops are asked in the order of their numbers
      vector<int> near; for (int s = 0; s < D.ns; s++) near.push_back(s); int m = 0; for (size_t k = 0; k < D.places[place].size(); k++) if ((mask >> k & 1) && !gone(D.places[place][k].to, D.ns)) m |= 1 << k; return m; }; };
  for (int w = 1; w < 4; w++) { string wn = w == 1 ? "durations" : w == 2 ? "distances" : "both";
    for (int set = 1; set < (1 << D.ns); set++) { Fault f; f.name = "null entries " + to_string(set) + " of " + wn; f.usable = true; f.keep = keepFrom([set](int e, int) { return set >> e & 1; }); f.reply = [w, set](const json& t) { json x = t; for (int k = 0; k < 2; k++) if (w >> k & 1) { auto& a = x[k ? "distances" : "durations"][0]; for (size_t i = 1; i < a.size(); i++) if (set >> (i - 1) & 1) a[i] = nullptr; } return good(x); }; add(f, w == 1 && set == (1 << D.ns) - 1 ? 2 : (w == 1 && set == 1) || (w == 3 && set == 2) || (w == 2 && set == (1 << D.ns) - 1) ? 1 : 0); }
    for (int n = 0; n < D.ns; n++) { Fault f; f.name = "only " + to_string(n) + " entries of " + wn; f.usable = true; f.keep = keepFrom([n](int e, int) { return e >= n; }); f.reply = [w, n](const json& t) { json x = t; for (int k = 0; k < 2; k++) if (w >> k & 1) { auto& a = x[k ? "distances" : "durations"][0]; while ((int)a.size() > n + 1) a.erase(a.size() - 1); } return good(x); }; add(f, w == 3 && n == 1 ? 2 : n == 2 || (w == 2 && n == 0) ? 1 : 0); }
    for (int n : {1, 3, 40}) { Fault f; f.name = to_string(n) + " entries too many in " + wn; f.usable = true; f.keep = keepFrom([](int, int) { return false; }); f.reply = [w, n](const json& t) { json x = t; for (int k = 0; k < 2; k++) if (w >> k & 1) for (int i = 0; i < n; i++) x[k ? "distances" : "durations"][0].push_back(1); return good(x); }; add(f, w == 3 && n == 3 ? 1 : 0); } }
  // not HTTP, or not quite
  for (string b : {string("\r\n\r\n"), string("nonsense\r\n\r\n"), string("\0\0\0\0\r\n\r\n", 8), string("HTTP/1.1\r\n\r\n"), string("HTTP/1.1 \r\n\r\n"), string("HTTP/1.1 200 OK\r\nContent-Length\r\n\r\n"), string("HTTP/1.1 200 OK\r\nContent-Length: 0\r\n\r\n"), string("HTTP/1.1 200 OK\r\n\r\n"), string("HTTP/1.1 200 OK\r\nContent-Length: 50\r\n\r\n{}"), string("HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n{}"), string("HTTP/1.1 200 OK\r\nContent-Length: abc\r\n\r\n{}"), string("HTTP/1.1 200 OK\r\nContent-Length: \r\n\r\n{}"), string("HTTP/1.1 200 OK\r\nContent-Length: -1\r\n\r\n{}"), string("HTTP/1.1 200 OK\r\nContent-Length: 99999999999999999999999\r\n\r\n{}"), string("HTTP/1.1 200 OK\r\nContent-Length: 18446744073709551615\r\n\r\n{}"), string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n{}\r\n0\r\n\r\n"), string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n\r\n\r\n"), string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffffff\r\n{}\r\n"), string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nfffffff0\r\n{}\r\n"), string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n-1\r\n{}\r\n"), string("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n0\r\n\r\n"), string("HTTP/1.1 200 OK\r\nContent-Type: text/event-stream\r\n\r\n{}"), string("<html></html>"), string(70000, 'h'), "HTTP/1.1 200 OK\r\nX: " + string(100000, 'h') + "\r\n\r\n"}) rep("reply " + json(b.substr(0, 90)).dump(-1, ' ', false, json::error_handler_t::replace), [b](const json&) { return b; }, b == "nonsense\r\n\r\n" ? 1 : 0);
  { size_t n = ALL.size(); for (size_t i = 0; i < n; i++) if (ALL[i].at == REPLY && (i % 7 == 0)) { Fault f = ALL[i]; f.rst = true; f.name += ", then a reset"; ALL.push_back(f); } }
}
static void truncations(int place, int style, bool rst, vector<Fault>& out) { // of the reply about that place: every byte
  Lookup l; l.place = place; for (int s = 0; s < D.ns; s++) l.stops.push_back(s); size_t n = good(table(l), style).size();
  for (size_t k = 0; k <= n; k++) { Fault f; f.name = "reply" + string(style == CL ? "" : style == CHUNKED ? " (chunked)" : " (until close)") + " truncated to " + to_string(k) + " of " + to_string(n) + " bytes" + (rst ? ", then a reset" : ""); f.rst = rst; f.keep = [](int, int) { return 0; }; f.reply = [k, style](const json& t) { return good(t, style).substr(0, k); }; out.push_back(f); } }

struct Task { int kind; long a, b, c; string text; }; static vector<Task> tasks;
int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off); P.engine = "c20asan"; P.parse(argc, argv); P.prop = "C20"; bool th = P.tier == "thorough"; string exe = P.args.count("--server") ? P.args["--server"] : ""; signal(SIGPIPE, SIG_IGN);
  cSeq = P.counter("states"); cAns = P.counter("transitions"); cAff = P.counter("requests_with_router_faults"); cExch = P.counter("router_exchanges"); cCmp = P.counter("traces_validated_against_impl"); cFault = P.counter("schedules"); P.hang = 300;
  D.init(4); D.nAgencies = 1; D.nServices = 1; D.foot[1].push_back({2, 100, 90}); D.foot[2].push_back({1, 100, 90});
  D.lines = {LineM{0, 0, 1}, LineM{0, 1, 1}, LineM{0, 0, 1}}; D.paths = {PathM{0, {0, 1, 3}, {500, 501}}, PathM{1, {2, 3}, {600}}, PathM{2, {3, 1, 0}, {700, 701}}};
  for (int p = 0; p < 3; p++) for (int k = 0; k < 2; k++) { TripM t; t.path = p; int c = B + k * 600 + p * 150; for (size_t i = 0; i < D.paths[p].stops.size(); i++) { t.arr.push_back(c); t.dep.push_back(c); c += 240 + 20 * k; t.bd.push_back(1); t.ub.push_back(1); } D.trips.push_back(t); }
  ScenM a; a.services = {0}; D.scen = {a};
  D.places = {{{0, 60, 61}, {1, 200, 210}}, {{3, 60, 62}, {2, 120, 130}}, {{0, 90, 95}, {2, 30, 31}}, {{1, 45, 46}, {3, 50, 52}}}; D.stopCoord = {{45.5001, -73.6001}, {45.5003, -73.5998}, {45.5006, -73.6003}, {45.4998, -73.5996}}; D.placeCoord = {{45.5, -73.6}, {45.5005, -73.5995}, {45.5007, -73.6006}, {45.4996, -73.5991}};
  dirD = P.scratch + "/data"; writeDir(dirD, encodeCache(D));
  auto R = [&](bool fwd, int o, int d, bool alt = false) { Q q = route(fwd, o, d, fwd ? B - 300 : B + 1500, OMIT); q.alt = alt; return q; };
  RQ = {{reqOf(D, R(true, 0, 1)), {0, 1}, false}, {reqOf(D, R(false, 0, 1)), {0, 1}, false}, {reqOf(D, R(true, 0, 1, true)), {0, 1}, false}, {summaryOf(D, R(true, 0, 1, true)), {0, 1}, false}, {reqOf(D, acc(true, 0, B - 300, OMIT)), {0}, true}, {reqOf(D, acc(false, 1, B + 1500, OMIT)), {1}, true}, {reqOf(D, R(true, 2, 3)), {2, 3}, false}, {reqOf(D, acc(true, 2, B - 300, OMIT)), {2}, true}};
  NM = 4; SC.mask = vector<int>(D.places.size(), 3); faults();
  // what the server answers without faults, for each set of stops within reach
  base = new SharedTexts(RQ.size() * NM * NM, 1 << 26);
  { vector<pid_t> ps; for (int w = 0; w < NM; w++) { fflush(stdout); pid_t p = fork(); if (!p) { for (int mb = 0; mb < NM; mb++) { int st = forked([&] { alarm(100); if (P.replay.empty()) { int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); } startStub(); Sut s; s.startMem(); for (size_t r = 0; r < RQ.size(); r++) { SC.mask.assign(D.places.size(), 3); SC.mask[RQ[r].places[0]] = w; if (!RQ[r].acc) SC.mask[RQ[r].places[1]] = mb; SC.set({}, {}); base->set(baseIdx(r, w, mb), norm(s.ask(RQ[r].req))); } _exit(0); }); if (st) for (size_t r = 0; r < RQ.size(); r++) base->set(baseIdx(r, w, mb), "baseline: " + signame(st, 100)); } _exit(0); } ps.push_back(p); } for (pid_t p : ps) waitpid(p, nullptr, 0); }
  if (P.args.count("--list")) { for (size_t r = 0; r < RQ.size(); r++) for (int m : {15, 5, 3, 0}) std::cout << r << " " << m << " " << base->get(baseIdx(r, m / 4, m % 4)).substr(0, 230) << "\n"; std::cout << ALL.size() << " faults, " << reps.size() << " " << few.size() << "\n"; }
  { auto answered = json::array(); for (size_t r = 0; r < RQ.size(); r++) answered.push_back(base->get(baseIdx(r, 3, RQ[r].acc ? 0 : 3)).substr(0, 3)); P.cov["baseline_codes"] = answered; }
  // 0: each fault x where x request; 1: truncations; 2: pairs at the two ends; 3: sequences; 4: two requests at a time; 5: the binary
  auto T = [&](int k, long a, long b, long c, const string& t) { tasks.push_back({k, a, b, c, t}); };
  for (size_t i = 0; i < ALL.size(); i += 8) T(0, i, std::min(i + 8, ALL.size()), 0, "each fault, at each lookup of each request");
  for (int style : {CL, CHUNKED, CLOSED}) for (int rst = 0; rst < 2; rst++) for (int r : th ? vector<int>{0, 1, 2, 3, 4, 5} : vector<int>{0, 2, 4}) for (int part = 0; part < 4; part++) T(1, style * 2 + rst, r, part, "reply truncated at every byte");
  for (size_t i = 0; i < ALL.size(); i++) { bool rep = std::find(reps.begin(), reps.end(), i) != reps.end(); if (rep || th) T(2, i, rep, 0, "one fault at the origin, every other at the destination, and the other way round"); }
  for (size_t i = 0; i < few.size(); i++) for (size_t k = 0; k < few.size(); k++) T(3, i, k, 0, "sequences of three requests with faults");
  for (int i : reps) T(4, i, 0, 0, "two requests at a time");
  if (!exe.empty()) for (int t : {1, 4}) for (size_t i = 0; i < ALL.size(); i += th ? 4 : 8) T(5, i, std::min(i + (th ? 4 : 8), ALL.size()), t, "server binary with " + to_string(t) + " threads");
  P.cov["counting"] = "states: fault sequences; transitions: requests; router_exchanges: connections and replies of the stub; schedules: orders of router events of two concurrent requests"; P.cov["faults"] = ALL.size(); P.cov["representative_faults"] = reps.size();
  P.assumptions = {"the router does not stall: every fault ends the exchange", "a request in whose reply some entries are missing may be answered from the others", "answers are compared with those of the same server without faults; network of 4 stops, 6 trips, 4 places"};
  auto describe = [&](uint64_t i) { return json{{"what", tasks[i].text}, {"a", tasks[i].a}, {"b", tasks[i].b}, {"c", tasks[i].c}}; };
  return P.run(tasks.size(), [&](uint64_t ti) {
    const Task& t = tasks[ti]; startStub(); Sut s; hist = json::array(); if (t.kind == 5) { g_bin = true; s.startBin(exe, t.c); } else { struct rlimit rl = {160, 160}; setrlimit(RLIMIT_NOFILE, &rl); s.startMem(); }
    auto seqDone = [&] { P.count(cSeq); std::lock_guard<std::mutex> l(SC.m); P.count(cExch, SC.exchanges); SC.exchanges = 0; };
    auto applies = [&](const Fault& f) { return !g_bin || (f.at != CONNECT && f.at != RESOLVE) || false; };
    if (t.kind == 0 || t.kind == 5) for (long i = t.a; i < t.b; i++) { const Fault& f = ALL[i]; if (!applies(f)) continue;
      for (int r : t.kind == 5 && !th ? vector<int>{0, 3, 4} : vector<int>{0, 1, 2, 3, 4, 5}) for (int w = 1; w < (RQ[r].acc ? 2 : 4); w++) { vector<const Fault*> fs; if (w & 1) fs.push_back(&f); else fs.push_back(nullptr); if (!RQ[r].acc) fs.push_back(w & 2 ? &f : nullptr); if (!one(s, r, fs)) return; if (!healthy(s, r) || !healthy(s, (r + w) % RQ.size())) return; seqDone(); }
      if (t.kind == 5) for (auto& ord : vector<vector<int>>{{0, 2, 1, 3}, {2, 0, 3, 1}, {0, 1, 2, 3}}) { if (t.c > 1 && !pairOf(s, 0, 6, {&f, nullptr}, {nullptr, nullptr}, ord)) return; if (!healthy(s, 0) || !healthy(s, 6)) return; seqDone(); } }
    if (t.kind == 1) { int r = t.b, style = t.a / 2; for (int w = 0; w < (RQ[r].acc ? 1 : 3); w++) { vector<Fault>& F = *new vector<Fault>; truncations(RQ[r].places[w == 1], style, t.a & 1, F); for (size_t k = t.c; k < F.size(); k += 4) { vector<const Fault*> fs = {w == 1 ? nullptr : &F[k]}; if (!RQ[r].acc) fs.push_back(w == 0 ? nullptr : &F[k]); if (!one(s, r, fs)) return; if (k / 4 % (th ? 1 : 3) == 0 && !healthy(s, (int)(k / 4) % RQ.size())) return; seqDone(); } for (size_t q = 0; q < RQ.size(); q++) if (!healthy(s, q)) return; } }
    if (t.kind == 2) { const Fault& f = ALL[t.a]; vector<int> others = reps; if (t.b && th) { others.clear(); for (size_t i = 0; i < ALL.size(); i++) others.push_back(i); } for (int g : others) for (int sw = 0; sw < 2; sw++) for (int r : th ? vector<int>{0, 1, 2, 3} : vector<int>{0, 2}) { if (!one(s, r, sw ? vector<const Fault*>{&ALL[g], &f} : vector<const Fault*>{&f, &ALL[g]})) return; if (!healthy(s, (g + sw) % RQ.size())) return; seqDone(); } }
    if (t.kind == 3) for (int k : few) { const Fault *a = &ALL[few[t.a]], *b = &ALL[few[t.b]], *c = &ALL[k]; for (int w = 0; w < 27; w++) { auto at = [](const Fault* f, int w) { return w == 0 ? vector<const Fault*>{f, nullptr} : w == 1 ? vector<const Fault*>{nullptr, f} : vector<const Fault*>{f, f}; }; if (!th && w % 3 != w / 9) continue; if (!one(s, 0, at(a, w % 3)) || !one(s, w % 2 ? 2 : 1, at(b, w / 3 % 3)) || !one(s, 0, at(c, w / 9)) || !one(s, 4, {c})) return; if (!healthy(s, 0) || !healthy(s, (int)(w + k) % RQ.size())) return; seqDone(); } }
    if (t.kind == 4) { const Fault& f = ALL[t.a]; if (f.at != REPLY && f.at != READ_CLOSE && f.at != READ_RST) return;
      vector<vector<int>> orders; { vector<int> o = {0, 0, 1, 1}; do { orders.push_back(o); } while (std::next_permutation(o.begin(), o.end())); }
      for (auto& o : orders) for (int w = 1; w < 16; w++) { if (!th && w != 1 && w != 2 && w != 3 && w != 5 && w != 10 && w != 15) continue; for (int r1 : th ? vector<int>{0, 1, 2, 3} : vector<int>{0}) { int n[2] = {0, 0}; vector<int> ord; for (int x : o) ord.push_back(RQ[x ? 6 : r1].places[n[x]++]); P.count(cFault);
        // a fault that the client retries passes the gate again
        if (!pairOf(s, r1, 6, {w & 1 ? &f : nullptr, w & 2 ? &f : nullptr}, {w & 4 ? &f : nullptr, w & 8 ? &f : nullptr}, ord)) return; if (!healthy(s, (w + r1) % RQ.size())) return; seqDone(); } }
      for (int w = 1; w < 4; w++) for (int o = 0; o < 2; o++) { P.count(cFault); if (!pairOf(s, 5, 7, {w & 1 ? &f : nullptr}, {w & 2 ? &f : nullptr}, o ? vector<int>{1, 2} : vector<int>{2, 1})) return; if (!healthy(s, 5)) return; seqDone(); } }
    if (!s.alive()) P.violation({{"violations", {"the server process is gone"}}, {"last_exchanges", hist}});
    _exit(0);
  }, describe);
}
