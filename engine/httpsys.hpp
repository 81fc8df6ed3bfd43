// A server started by the repository's own main(), without its TCP sockets
// (see http/server_http.hpp). Its handlers run in the thread that asks.
#pragma once
#include "data.hpp"
#include <functional>
#include <mutex>
#include <condition_variable>
#include <thread>
#include <atomic>
#include <sstream>
int repo_main(int argc, char** argv);
namespace vfhttp {
struct Wire { std::string in; std::vector<size_t> cuts; size_t pos = 0; std::string out; bool closed = false; };
struct ServerIface { virtual ~ServerIface() {} virtual void exchange(Wire& w) = 0; };
extern TrRouting::GeoFilter* g_geo;
extern std::function<std::string(const std::string&)> g_router; // of the builds whose router's client has no socket
}
namespace vf {
struct Resp { int code = 0; string body, error; size_t count = 0; }; // error: why the bytes are not exactly one well-formed response
// Splits the bytes the server wrote into responses; each must have a status line, headers and a correct Content-Length
inline vector<Resp> parseResponses(const string& s) {
  vector<Resp> v; size_t p = 0;
  while (p < s.size()) { Resp r; size_t e = s.find("\r\n\r\n", p); if (s.compare(p, 9, "HTTP/1.1 ") || e == string::npos) { r.error = "not an HTTP response: " + s.substr(p, 60); v.push_back(r); return v; }
    r.code = atoi(s.c_str() + p + 9); long len = -1; size_t l = s.find("\r\n", p); int n = 0;
    while (l < e) { size_t b = l + 2, q = s.find("\r\n", b); string h = s.substr(b, q - b); size_t c = h.find(':'); if (c == string::npos) { r.error = "malformed header " + h; break; } string k = h.substr(0, c); for (auto& x : k) x = tolower(x); if (k == "content-length") { char* end; len = strtol(h.c_str() + c + 1, &end, 10); n++; if (*end) r.error = "malformed Content-Length"; } l = q; }
    if (r.error.empty() && n != 1) r.error = n ? "several Content-Length headers" : "no Content-Length header";
    if (!r.error.empty()) { v.push_back(r); return v; }
    if (len < 0 || e + 4 + len > s.size()) { r.error = "Content-Length " + to_string(len) + " but " + to_string(s.size() - e - 4) + " bytes follow"; r.body = s.substr(e + 4); v.push_back(r); return v; }
    r.body = s.substr(e + 4, len); p = e + 4 + len; v.push_back(r); }
  return v;
}
inline string rawGet(const string& target, const string& extra = "") { return "GET " + target + " HTTP/1.1\r\nHost: localhost\r\n" + extra + "\r\n"; }

struct HttpServerProc {
  static HttpServerProc*& cur() { static HttpServerProc* c = nullptr; return c; }
  std::mutex m; std::condition_variable cv; vfhttp::ServerIface* srv = nullptr; bool quit = false, ended = false; int rc = -1; std::thread th; vector<string> args; vector<char*> argv; std::function<void(HttpServerProc&)> inplace;
  // starts the server and waits until it listens (or main returned)
  explicit HttpServerProc(const vector<string>& a) : args(a) {
    args.insert(args.begin(), "trRouting"); for (auto& s : args) argv.push_back(&s[0]); argv.push_back(nullptr); cur() = this;
    th = std::thread([this] { int r = repo_main(args.size(), argv.data()); std::lock_guard<std::mutex> l(m); rc = r; ended = true; cv.notify_all(); });
    std::unique_lock<std::mutex> l(m); cv.wait(l, [this] { return srv || ended; });
  }
  // runs the server in this thread; once it listens, fn instead of waiting for requests
  HttpServerProc(const vector<string>& a, std::function<void(HttpServerProc&)> fn) : args(a), inplace(fn) { args.insert(args.begin(), "trRouting"); for (auto& s : args) argv.push_back(&s[0]); argv.push_back(nullptr); cur() = this; rc = repo_main(args.size(), argv.data()); ended = true; }
  ~HttpServerProc() { if (inplace) { cur() = nullptr; return; } { std::lock_guard<std::mutex> l(m); quit = true; srv = nullptr; } cv.notify_all(); th.join(); cur() = nullptr; }
  void started(vfhttp::ServerIface* s) { if (inplace) { srv = s; inplace(*this); srv = nullptr; return; } std::unique_lock<std::mutex> l(m); srv = s; cv.notify_all(); cv.wait(l, [this] { return quit; }); }
  string raw(const string& bytes, const vector<size_t>& cuts = {}) { vfhttp::Wire w; w.in = bytes; w.cuts = cuts; srv->exchange(w); return w.out; }
  Resp get(const string& target) {
    vector<Resp> v = parseResponses(raw(rawGet(target))); if (v.empty()) { Resp r; r.error = "no response"; return r; }
    v[0].count = v.size(); if (v.size() != 1 && v[0].error.empty()) v[0].error = to_string(v.size()) + " responses to one request"; return v[0]; }
};
inline json parseBody(const Resp& r) { if (!r.error.empty()) return json{{"status", "harness: " + r.error}}; json j = json::parse(r.body, nullptr, false); if (j.is_discarded()) return json{{"status", "harness: the body is not JSON"}, {"body", r.body.substr(0, 300)}}; return j; }
// The walking router's table service over the places of a data set: any sources and destinations, tenths of seconds and metres
// below the whole number that a traveller needs
inline string routerTable(const DS& d, const string& target, bool tenths) {
  size_t e = std::min(target.find('?'), target.size()), a = target.find_last_of('/', e); string c = target.substr(a + 1, e - a - 1), opt = e < target.size() ? "&" + target.substr(e + 1) + "&" : "&"; vector<std::pair<int,int>> at; // (0: place, 1: stop, 2: neither; index)
  for (size_t p = 0; p <= c.size();) { size_t q = std::min(c.find(';', p), c.size()); double lon = 0, lat = 0; sscanf(c.c_str() + p, "%lf,%lf", &lon, &lat); std::pair<int,int> x{2, 0}; auto near = [&](double y, double z) { return std::fabs(y - lat) < 2e-6 && std::fabs(z - lon) < 2e-6; };
    for (int s = 0; s < d.ns; s++) if (near(d.stopLat(s), d.stopLon(s))) x = {1, s}; for (size_t k = 0; k < d.places.size(); k++) if (near(d.placeLat(k), d.placeLon(k))) x = {0, (int)k}; at.push_back(x); p = q + 1; }
  auto list = [&](const string& k) { vector<size_t> v; size_t p = opt.find("&" + k + "="); if (p != string::npos) { p += k.size() + 2; string l = opt.substr(p, opt.find('&', p) - p); std::istringstream is(l); string n; while (l != "all" && std::getline(is, n, ';')) if ((size_t)atol(n.c_str()) < at.size()) v.push_back(atol(n.c_str())); } if (v.empty()) for (size_t i = 0; i < at.size(); i++) v.push_back(i); return v; };
  auto rows = list("sources"), cols = list("destinations"); string ann = "duration"; { size_t p = opt.find("&annotations="); if (p != string::npos) { p += 13; ann = opt.substr(p, opt.find('&', p) - p); } }
  auto table = [&](bool dist) { string t = "["; for (size_t i : rows) { t += t.size() > 1 ? ",[" : "["; bool first = true; for (size_t j : cols) { auto x = at[i], y = at[j]; int v = 99999; if (i == j) v = 0; if (x.first > y.first) std::swap(x, y); if (x.first == 0 && y.first == 1) for (auto& f : d.places[x.second]) if (f.to == y.second) v = dist ? f.dist : f.time;
      static const int ten[] = {0, 4, 1}; int w = 10 * v - (v && v < 99999 && tenths ? ten[(x.second + y.second + (dist ? 1 : 0)) % 3] : 0); t += (first ? "" : ",") + to_string(w / 10) + (w % 10 ? "." + to_string(w % 10) : ""); first = false; } t += "]"; } return t + "]"; };
  string r = "{\"code\":\"Ok\""; if (ann.find("duration") != string::npos) r += ",\"durations\":" + table(false); if (ann.find("distance") != string::npos) r += ",\"distances\":" + table(true); return r + "}";
}
} // namespace vf
