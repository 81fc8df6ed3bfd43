// Driver of the whole-server checks: numbered tasks, run by forked workers in
// forked children, so that a crash or a hang of the code under test is one
// more observation.  A violation is reproduced before it is reported.
#pragma once
#include "httpsys.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <iostream>
#include <functional>
namespace vf {
inline double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
template <class Tp> inline Tp* sharedMem(size_t n = 1) { void* p = mmap(0, sizeof(Tp) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(2); } return (Tp*)p; }
struct PShared { volatile uint64_t task; uint64_t cnt[64]; char at[1 << 15]; char viol[1 << 17]; volatile int hasViol; };
inline string signame(int st, int hang) { if (WIFSIGNALED(st)) { if (WTERMSIG(st) == SIGALRM) return "no answer within " + to_string(hang) + " s"; if (WTERMSIG(st) == SIGKILL) return "killed (out of memory?)"; return string("the process dies (") + strsignal(WTERMSIG(st)) + ")"; } return "the process exits with code " + to_string(WEXITSTATUS(st)); }
template <class F> inline int forked(F fn) { fflush(stdout); pid_t p = fork(); if (p < 0) { perror("fork"); _exit(2); } if (p == 0) { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); fn(); _exit(0); } int st = 0; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} return st; }

struct Pool {
  string prop, engine, tier = "quick", out = "/dev/null", rdir = ".", scratch = "/tmp", replay, only; int workers = 8; double deadline = 600; int hang = 40; uint64_t batch = 1;
  PShared* sh = nullptr;        // of the running worker
  vector<string> counters;      // names of sh->cnt
  json cov = json::object(), assumptions = json::array(); bool stopped = false;
  std::map<string, string> args;
  void parse(int argc, char** argv) {
    for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&]() { return i + 1 < argc ? string(argv[++i]) : string(); };
      if (a == "--property") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--replay") replay = nx(); else if (a == "--evidence") out = nx(); else if (a == "--replay-dir") rdir = nx(); else if (a == "--workers") workers = atoi(nx().c_str()); else if (a == "--deadline") deadline = atof(nx().c_str()); else if (a == "--scratch") scratch = nx(); else if (a == "--only") only = nx(); else args[a] = nx(); } }
  int counter(const string& n) { for (size_t i = 0; i < counters.size(); i++) if (counters[i] == n) return i; counters.push_back(n); return counters.size() - 1; }
  void count(int c, uint64_t n = 1) { __sync_fetch_and_add(&sh->cnt[c], n); }
  void at(const string& s) { size_t n = std::min(s.size(), sizeof sh->at - 1); memcpy(sh->at, s.data(), n); sh->at[n] = 0; }
  void violation(json j) { if (sh->hasViol) return; string s = j.dump(-1, ' ', false, json::error_handler_t::replace); if (s.size() >= sizeof sh->viol) { json k; k["violations"] = j["violations"]; for (auto& x : k["violations"]) if (x.is_string()) x = x.get<string>().substr(0, 2000); s = k.dump(-1, ' ', false, json::error_handler_t::replace).substr(0, sizeof sh->viol - 1); } memcpy(sh->viol, s.c_str(), s.size() + 1); sh->hasViol = 1; }
  bool violated() const { return sh->hasViol; }
  string stderrTail(const string& f) { std::ifstream in(f); std::stringstream b; b << in.rdbuf(); string s = b.str(); size_t p = s.find("ERROR: "); if (p == string::npos) p = s.find("runtime error"); if (p == string::npos) p = s.find("Assertion"); if (p == string::npos) p = s.find("terminate called"); if (p != string::npos) { p = s.rfind('\n', p); s = s.substr(p == string::npos ? 0 : p + 1); } return s.substr(0, 1500); }

  // fn(task): explores one task inside a child; total tasks n
  int run(uint64_t n, const std::function<void(uint64_t)>& fn, const std::function<json(uint64_t)>& describe = nullptr) {
    double t0 = nowS(); PShared* all = sharedMem<PShared>(workers + 1);
    auto child = [&](uint64_t lo, uint64_t hi, int limit, const string& err) { return forked([&] { if (!err.empty()) { int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd >= 0) { dup2(fd, 2); if (replay.empty()) dup2(fd, 1); } } for (uint64_t k = lo; k < hi && !sh->hasViol; k++) { sh->task = k; sh->at[0] = 0; alarm(limit); fn(k); alarm(0); } }); };
    if (!replay.empty()) {
      json j; { std::ifstream in(replay); in >> j; } sh = all; uint64_t k = j.at("task"), lo = j.value("task_from", k); string err = scratch + "/stderr";
      int st = child(lo, k + 1, hang * 4, ""); if (st) std::cout << signame(st, hang * 4) << " at " << sh->at << "\n"; if (sh->hasViol) std::cout << json::parse(sh->viol).dump(1) << "\n"; bool v = st || sh->hasViol; std::cout << (v ? "reproduced\n" : "not reproduced\n"); return v ? 1 : 0; }
    uint64_t* ctl = sharedMem<uint64_t>(8); // 0 ticket, 1 violations, 2 deadline, 3 unreproducible, 4 tasks done
    vector<pid_t> pids; uint64_t nb = (n + batch - 1) / batch; string pn = prop;
    for (int w = 0; w < workers; w++) { fflush(stdout); pid_t p = fork(); if (p) { pids.push_back(p); continue; }
      sh = &all[w]; scratch += "/w" + to_string(w); mkdir(scratch.c_str(), 0755); string err = scratch + "/stderr";
      for (;;) { uint64_t b = __sync_fetch_and_add(&ctl[0], 1); if (b >= nb || ctl[1]) break; if (nowS() - t0 > deadline) { ctl[2] = 1; break; }
        uint64_t lo = b * batch, hi = std::min(n, lo + batch); sh->hasViol = 0;
        int st = child(lo, hi, hang, err); if (!st && !sh->hasViol) { __sync_fetch_and_add(&ctl[4], hi - lo); continue; }
        uint64_t k = sh->task; bool ok = false; json why; uint64_t from = k;
        for (int mode = 0; mode < 2 && !ok; mode++) { sh->hasViol = 0; from = mode ? lo : k; uint64_t cnt[64]; memcpy(cnt, sh->cnt, sizeof cnt); int s2 = child(from, k + 1, hang * 2, err); memcpy(sh->cnt, cnt, sizeof cnt);
          if (s2) { ok = true; why = {{"violations", {signame(s2, hang * 2)}}, {"at", string(sh->at)}, {"stderr", stderrTail(err)}}; } else if (sh->hasViol) { ok = true; why = json::parse(sh->viol, nullptr, false); if (why.is_discarded()) why = {{"violations", {"(report too long)"}}}; } }
        if (!ok) { __sync_fetch_and_add(&ctl[3], 1); std::cerr << "not reproduced: task " << k << " " << signame(st, hang) << "\n"; continue; }
        why["property"] = pn; why["engine"] = engine; why["tier"] = tier; why["only"] = only; why["task"] = k; if (from != k) why["task_from"] = from; if (describe) why["task_is"] = describe(k);
        if (__sync_fetch_and_add(&ctl[1], 1) == 0) { std::ofstream o(rdir + "/replay_" + pn + ".json"); o << why.dump(1, ' ', false, json::error_handler_t::replace) << "\n"; }
        break; }
      _exit(0); }
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
    json tot = json::object(); for (size_t c = 0; c < counters.size(); c++) { uint64_t s = 0; for (int w = 0; w < workers; w++) s += all[w].cnt[c]; tot[counters[c]] = s; }
    for (auto& x : tot.items()) cov[x.key()] = x.value();
    cov["tasks"] = n; cov["unreproducible_events"] = ctl[3]; cov["exhaustive"] = !ctl[2] && !ctl[1]; if (ctl[2]) cov["cap"] = "wall clock limit of " + to_string((int)deadline) + " s reached after " + to_string(ctl[4]) + " of " + to_string(n) + " tasks";
    if (describe) { json s = json::array(); for (uint64_t k : {n / 7, n / 3, n / 2, n * 4 / 5}) if (k < n) s.push_back(describe(k)); cov["samples"] = s; }
    json ev = {{"property", pn}, {"tier", tier}, {"seed", getenv("VERIF_SEED") ? atoi(getenv("VERIF_SEED")) : 0}, {"level", "model_checking"}, {"coverage", cov}, {"wall_s", nowS() - t0}, {"violations", ctl[1] ? 1 : 0}, {"assumptions", assumptions}};
    { std::ofstream o(out); o << ev.dump(1, ' ', false, json::error_handler_t::replace) << "\n"; }
    std::cout << pn << " " << engine << " " << tier << ": " << ctl[4] << " of " << n << " tasks, " << tot.dump() << ", " << (nowS() - t0) << " s" << (ctl[2] ? " (capped)" : "") << (ctl[3] ? " UNREPRODUCIBLE EVENTS" : "") << "\n";
    if (ctl[1]) { string path = rdir + "/replay_" + pn + ".json"; std::ifstream in(path); json w; in >> w; std::cout << w.value("violations", json()).dump(1, ' ', false, json::error_handler_t::replace) << "\n" << w.value("at", "") << "\n" << w.value("stderr", "") << "\nVIOLATION property=" << pn << " replay=" << path << "\n"; return 1; }
    return 0;
  }
};
} // namespace vf
