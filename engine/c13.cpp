// C13: every history of requests up to a length over stated alphabets, on both
// settings of the per-scenario cache; each answer is compared byte by byte with
// the one a server gives that has served nothing before.
#include "requests.hpp"
namespace vf { Counters g_cnt; }
using namespace vf;
struct Config { int data; bool all; };      // data 0: table router, 1: bird-distance router
struct Tree { int config; int depth; int alphabet; }; // alphabet 3 tiny, 2 small, 1 medium, 0 all
static Pool P; static DS ds[2]; static string dirs[2]; static Alphabets A[2]; static vector<Config> configs = {{0, false}, {0, true}, {1, false}, {1, true}};
static SharedTexts* base[2];
static int cHist, cAns, cConn;
static const vector<int>& letters(int data, int a) { static vector<int> every[2]; if (a == 3) return A[data].tiny; if (a == 2) return A[data].small; if (a == 1) return A[data].medium; if (every[data].empty()) for (size_t i = 0; i < A[data].all.size(); i++) every[data].push_back(i); return every[data]; }
struct Hist { int data; vector<int> v; string text() const { string s; for (size_t i = 0; i < v.size(); i++) s += (i ? "\n  " : "  ") + A[data].all[v[i]].name; return s; } };
static bool check(Server& s, const Config& c, Hist& h, int r) {
  h.v.push_back(r); if (h.v.size() <= 12) P.at("history:\n" + h.text()); string got = s.ask(A[c.data].all[r]); P.count(cAns);
  if (base[c.data]->is(r, got)) return true;
  json hist = json::array(); size_t from = h.v.size() > 60 ? h.v.size() - 60 : 0; for (size_t i = from; i < h.v.size(); i++) hist.push_back(A[c.data].all[h.v[i]].name);
  P.violation({{"violations", {"the answer to the last request of the history differs from that of a server that served nothing before"}}, {"cacheAllConnectionSets", c.all}, {"walking_router", c.data ? "bird distance" : "table"}, {"history_length", h.v.size()}, {"history", hist}, {"answer", shorten(got)}, {"expected", shorten(base[c.data]->get(r))}});
  return false;
}
static void explore(Server& s, const Config& c, const vector<int>& L, int depth, Hist& h) {
  for (int r : L) { if (P.violated()) return; int st = forked([&] { alarm(P.hang); Hist g = h; P.count(cHist); if (check(s, c, g, r) && depth > 1) explore(s, c, L, depth - 1, g); });
    if (st && !P.violated()) { Hist g = h; g.v.push_back(r); json hist = json::array(); for (int x : g.v) hist.push_back(A[c.data].all[x].name); P.violation({{"violations", {signame(st, P.hang) + " during this history"}}, {"cacheAllConnectionSets", c.all}, {"history", hist}}); return; } }
}
// a sequence containing every word of length n over k letters
static vector<int> deBruijn(int k, int n) { vector<int> a(k * n, 0), seq; std::function<void(int,int)> db = [&](int t, int p) { if (t > n) { if (n % p == 0) for (int j = 1; j <= p; j++) seq.push_back(a[j]); } else { a[t] = a[t - p]; db(t + 1, p); for (int j = a[t - p] + 1; j < k; j++) { a[t] = j; db(t + 1, t); } } }; db(1, 1); int m = seq.size(); for (int i = 0; i + 1 < n; i++) seq.push_back(seq[i % m]); return seq; }

int main(int argc, char** argv) {
  spdlog::set_level(spdlog::level::off); P.engine = "c13"; P.parse(argc, argv); P.prop = "C13"; bool th = P.tier == "thorough", asan = P.args.count("--asan"); if (asan) P.engine = "c13asan";
  cHist = P.counter("states"); cAns = P.counter("transitions"); cConn = P.counter("connections_with_two_requests"); P.hang = asan ? 200 : 100;
  for (int e = 0; e < 2; e++) { cityWithScenarios(ds[e], e); dirs[e] = P.scratch + "/data" + to_string(e); writeDir(dirs[e], encodeCache(ds[e])); A[e] = alphabets(ds[e]); base[e] = new SharedTexts(A[e].all.size()); }
  // baseline: one fresh server per request (keeping one connection set)
  { int nb = 8; vector<pid_t> ps; for (int w = 0; w < nb; w++) { pid_t p = fork(); if (!p) { int n = 0; for (int e = 0; e < 2; e++) for (size_t r = 0; r < A[e].all.size(); r++) if ((n++) % nb == w) { int st = forked([&] { alarm(100); Server s(ds[e], dirs[e], false); base[e]->set(r, s.ask(A[e].all[r])); }); if (st) base[e]->set(r, "baseline: " + signame(st, 100)); } _exit(0); } ps.push_back(p); } for (pid_t p : ps) { int st; waitpid(p, &st, 0); } }
  if (P.args.count("--list")) { for (int e = 0; e < 2; e++) { for (size_t r = 0; r < A[e].all.size(); r++) std::cout << r << " " << A[e].all[r].name << " -> " << base[e]->get(r).size() << " " << base[e]->get(r).substr(0, 15) << "\n"; std::cout << A[e].medium.size() << " " << A[e].small.size() << " " << A[e].tiny.size() << "\n"; } return 0; }
  // tasks
  struct Task { int kind, config, alphabet, depth, first, second; }; vector<Task> tasks;
  vector<Tree> trees; 
  for (int c = 0; c < 4; c++) { if (asan) { trees.push_back({c, th ? 3 : 2, th ? 2 : 1}); continue; } bool main = c < 2; trees.push_back({c, 2, 0}); trees.push_back({c, main ? (th ? 4 : 3) : (th ? 3 : 2), 1}); if (main) { trees.push_back({c, th ? 5 : 4, 2}); trees.push_back({c, th ? 8 : 6, 3}); } }
  for (auto& t : trees) for (int r : letters(configs[t.config].data, t.alphabet)) tasks.push_back({0, t.config, t.alphabet, t.depth, r, -1});
  for (int c = 0; c < 4; c++) { tasks.push_back({1, c, 0, asan && !th ? 1 : 2, 0, 0}); tasks.push_back({1, c, 1, asan && !th ? 2 : 3, 0, 0}); if (!asan) tasks.push_back({1, c, 2, 4, 0, 0}); }
  for (int c = 0; c < 4; c++) for (int r : letters(configs[c].data, asan ? 1 : 0)) tasks.push_back({2, c, 1, 2, r, 0});
  for (int c = 0; c < 4; c++) for (int r : letters(configs[c].data, asan ? 1 : 0)) tasks.push_back({3, c, 0, asan ? 30 : 300, r, 0});
  auto describe = [&](uint64_t k) { Task& t = tasks[k]; const char* what[] = {"every history of this length starting with this request, over this alphabet", "one long history containing every word of this length over this alphabet", "this request followed by each request of the alphabet on the same connection", "this request repeated"}; static const char* an[] = {"all requests", "medium", "small", "tiny"};
    return json{{"what", what[t.kind]}, {"walking_router", configs[t.config].data ? "bird distance" : "table"}, {"cacheAllConnectionSets", configs[t.config].all}, {"alphabet", an[t.alphabet]}, {"letters", letters(configs[t.config].data, t.alphabet).size()}, {"length", t.depth}, {"request", A[configs[t.config].data].all[t.first].name}}; };
  json tr = json::array(); for (auto& t : trees) tr.push_back({{"walking_router", configs[t.config].data ? "bird distance" : "table"}, {"cacheAllConnectionSets", configs[t.config].all}, {"letters", letters(configs[t.config].data, t.alphabet).size()}, {"length", t.depth}});
  P.cov["history_trees"] = tr; P.cov["counting"] = "states: histories (nodes of the trees of request sequences, each explored in a process of its own); transitions: requests executed; every answer is compared with the baseline";
  P.assumptions = {"one data set (a city of 12 stops), 12 scenarios", "each request is compared with the answer of a server that served nothing before; the truth of that answer is decided by C01 to C12, C16, C18"};
  return P.run(tasks.size(), [&](uint64_t k) {
    Task& t = tasks[k]; Config c = configs[t.config]; Server s(ds[c.data], dirs[c.data], c.all); Hist h{c.data, {}};
    if (t.kind == 0) { P.count(cHist); if (check(s, c, h, t.first) && t.depth > 1) explore(s, c, letters(c.data, t.alphabet), t.depth - 1, h); }
    else if (t.kind == 1) { auto& L = letters(c.data, t.alphabet); P.count(cHist); for (int x : deBruijn(L.size(), t.depth)) { if (h.v.size() % 1000 == 0) alarm(P.hang); if (!check(s, c, h, L[x])) return; } }
    else if (t.kind == 3) { for (int i = 0; i < t.depth; i++) if (!check(s, c, h, t.first)) return; }
    else { string a = base[c.data]->get(t.first); if (parseResponses(a).size() != 1 || !parseResponses(a)[0].error.empty() || A[c.data].all[t.first].bytes.compare(0, 4, "GET ")) return;
      for (int r : letters(c.data, t.alphabet)) { if (A[c.data].all[r].bytes.compare(0, 5, "GET /") || parseResponses(base[c.data]->get(r)).size() != 1) continue; P.at(A[c.data].all[t.first].name + "\n" + A[c.data].all[r].name); P.count(cConn); P.count(cAns, 2);
        string got = s.srv.raw(A[c.data].all[t.first].bytes + A[c.data].all[r].bytes, {A[c.data].all[t.first].bytes.size()}); if (got != a + base[c.data]->get(r)) { P.violation({{"violations", {"two requests on one connection are not answered like each alone"}}, {"requests", {A[c.data].all[t.first].name, A[c.data].all[r].name}}, {"answers", shorten(got, 3000)}, {"expected", shorten(a + base[c.data]->get(r), 3000)}}); return; } } }
    _exit(0);
  }, describe);
}
