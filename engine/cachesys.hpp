#pragma once
#include "cachedir.hpp"
#include "cache_fetcher.hpp"
namespace vf {
struct CacheDir { string path; Files files; CacheDir(const string& scratch) : path(scratch + "/c") {} void write(const DS& ds) { files = encodeCache(ds); writeDir(path, files); } ~CacheDir() { removeDir(path, files); } };
struct CacheSys {
  T::CacheFetcher fetcher; T::TransitData td; TableGeo geo; const DS& ds;
  CacheSys(const DS& d, const string& dir, bool cacheAll) : fetcher(dir), td(fetcher, cacheAll), geo(d), ds(d) {}
  json ask(const Q& q) { return q.acc ? askAcc(td, geo, queryParams(ds, q)) : askRoute(td, geo, queryParams(ds, q)); }
  json askSum(const Q& q) { return askSummary(td, geo, queryParams(ds, q)); }
};
}
#ifdef VF_HTTP
#include "httpsys.hpp"
namespace vf {
// The whole server, from main() to the bytes of the answer, on the cache files of a data set
struct HttpSys {
  TableGeo geo; const DS& ds; HttpServerProc srv;
  HttpSys(const DS& d, const string& dir, bool cacheAll = false) : geo(d), ds(d), srv({"--cachePath=" + dir, string("--cacheAllConnectionSets=") + (cacheAll ? "true" : "false"), string("--useEuclideanDistance=") + (d.euclid ? "true" : "false")}) { vfhttp::g_geo = &geo; vfhttp::g_router = [&d](const string& t) { return routerTable(d, t, true); }; }
  json ask(const Q& q) { return parseBody(srv.get(queryString(ds, q))); }
  json askSum(const Q& q) { return parseBody(srv.get("/v2/summary" + queryString(ds, q).substr(9))); }
};
}
#endif
