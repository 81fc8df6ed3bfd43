#include <sched.h>
// Glue between the harness and the repository's main() (compiled with -Dmain=repo_main)
#include "httpsys.hpp"
namespace vfhttp {
thread_local Wire* g_wire = nullptr; TrRouting::GeoFilter* g_geo = nullptr;
std::function<std::string(const std::string&)> g_router; std::string routerReply(const std::string& t) { return g_router(t); }
void serverStarted(ServerIface* s) { vf::HttpServerProc::cur()->started(s); }
}
// The server sleeps 100 ms after its start; nothing of it depends on that
extern "C" int nanosleep(const struct timespec*, struct timespec*) { sched_yield(); return 0; }
extern "C" int clock_nanosleep(clockid_t, int, const struct timespec*, struct timespec*) { sched_yield(); return 0; }
