"""Builds harness programs from /repo's current working tree into /verif/.build.

Objects are cached by a hash of (all headers, the source, the flags); a fresh
copy of /verif compiles everything from scratch, in parallel."""
import glob, hashlib, os, subprocess, sys, threading, shutil
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
BASE = ["-std=c++17", "-O1", "-g0", "-w", "-D_GLIBCXX_ASSERTIONS", "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-pthread",
        "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL"]
LIBS = ["-lboost_regex", "-lboost_system", "-lboost_program_options", "-lboost_date_time", "-lpthread", "-lcapnp", "-lkj", "-lspdlog", "-lfmt"]
SERVER = "transit_routing_http_server.cpp"
NEVER = {"households_cache_fetcher.cpp", "places_cache_fetcher.cpp"}
VARIANTS = {"plain": [], "asan": ["-fsanitize=address,undefined", "-fno-sanitize=signed-integer-overflow", "-fno-sanitize-recover=undefined", "-fno-omit-frame-pointer"],
            "ubsan": ["-fsanitize=undefined"],
            "cov": ["--coverage", "-O0"],
            "tsan": ["-fsanitize=thread", "-g1"]}

class BuildError(Exception):
    pass

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout

def sources():
    s = sorted(glob.glob(REPO + "/src/**/*.cpp", recursive=True) + glob.glob(REPO + "/connection_scan_algorithm/src/**/*.cpp", recursive=True))
    return [x for x in s if os.path.basename(x) not in NEVER]

def headers_hash():
    h = hashlib.sha256()
    for pat in (REPO + "/include/**/*", REPO + "/connection_scan_algorithm/include/**/*", ROOT + "/engine/**/*.hpp"):
        for f in sorted(glob.glob(pat, recursive=True)):
            if os.path.isfile(f) and f.endswith((".hpp", ".h", ".capnp")):
                h.update(f.encode()); h.update(open(f, "rb").read())
    # headers next to the sources, if a change puts some there
    for f in sorted(glob.glob(REPO + "/src/**/*.h*", recursive=True) + glob.glob(REPO + "/connection_scan_algorithm/src/**/*.h*", recursive=True)):
        h.update(open(f, "rb").read())
    return h.hexdigest()

def capnp_dir():
    """Generates the schema classes; returns the include dir."""
    h = hashlib.sha256()
    schemas = sorted(glob.glob(REPO + "/include/capnp/*.capnp"))
    for f in schemas:
        h.update(open(f, "rb").read())
    inc = os.path.join(BUILD, "capnp-" + h.hexdigest()[:16])
    if not os.path.exists(inc + "/done"):
        tmp = inc + ".%d" % os.getpid()
        os.makedirs(tmp + "/capnp", exist_ok=True)
        for f in schemas:
            shutil.copy(f, tmp + "/capnp")
        run(["capnp", "compile", "-oc++"] + [os.path.basename(f) for f in schemas], cwd=tmp + "/capnp")
        open(tmp + "/done", "w").close()
        try:
            os.rename(tmp, inc)
        except OSError:
            shutil.rmtree(tmp)
    return inc

def program(name, mains, variant="plain", flags=(), include_first=(), skip=(), only=None, link=(), defs_for=None):
    """Compiles mains (harness sources) + the repository's sources and links them.
    skip: basenames of repository sources to leave out; only: predicate."""
    os.makedirs(BUILD, exist_ok=True)
    inc = capnp_dir()
    hh = headers_hash()
    vf = VARIANTS[variant]
    incs = ["-I" + d for d in include_first] + ["-I" + inc, "-I" + inc + "/capnp", "-I" + ROOT + "/engine", "-I" + REPO + "/include", "-I" + REPO + "/connection_scan_algorithm/include"]
    jobs = []
    srcs = [s for s in sources() if os.path.basename(s) not in skip and (only is None or only(s))]
    srcs = list(mains) + srcs + sorted(glob.glob(inc + "/capnp/*.c++"))
    extra = hashlib.sha256()
    for d in include_first:
        for f in sorted(glob.glob(d + "/**/*", recursive=True)):
            if os.path.isfile(f):
                extra.update(open(f, "rb").read())
    objs = []
    for s in srcs:
        fl = BASE + vf + list(flags) + ((defs_for or {}).get(os.path.basename(s), []))
        key = hashlib.sha256((hh + extra.hexdigest() + s + " ".join(fl + incs) + os.path.basename(inc)).encode() + open(s, "rb").read()).hexdigest()[:24]
        o = os.path.join(BUILD, "obj", os.path.basename(s).rsplit(".", 1)[0] + "-" + key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            jobs.append((os.path.getsize(s), s, o, fl))
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    big = {"transit_routing_http_server.cpp": 1e9, "osrmgeofilter.cpp": 9e8}
    jobs.sort(key=lambda j: -big.get(os.path.basename(j[1]), (5e8 if j[1] in mains else j[0])))
    def comp(j):
        _, s, o, fl = j
        run(["g++"] + fl + incs + ["-x", "c++", "-c", s, "-o", o + ".tmp%d" % os.getpid()])
        os.rename(o + ".tmp%d" % os.getpid(), o)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(comp, jobs))
    lk = hashlib.sha256((" ".join(objs) + " ".join(link) + variant).encode()).hexdigest()[:16]
    exe = os.path.join(BUILD, name + "-" + variant + "-" + lk)
    if not os.path.exists(exe):
        run(["g++"] + vf + ["-pthread", "-o", exe + ".tmp%d" % os.getpid()] + objs + LIBS + list(link))
        os.rename(exe + ".tmp%d" % os.getpid(), exe)
    return exe

E1_SKIP = {SERVER, "osrmgeofilter.cpp"}
def is_cache_fetcher(s):
    return "cache_fetcher" in os.path.basename(s) or os.path.basename(s).startswith("cacheFetcher")

def e1():
    return program("e1", [ROOT + "/engine/e1.cpp"], skip=E1_SKIP, only=lambda s: not is_cache_fetcher(s))

def e1cov():
    return program("e1", [ROOT + "/engine/e1.cpp"], skip=E1_SKIP, only=lambda s: not is_cache_fetcher(s), variant="cov", flags=["-DVF_COV"])

def e1cache():
    return program("e1cache", [ROOT + "/engine/e1.cpp"], skip=E1_SKIP, flags=["-DVF_CACHE"])

HTTP_DIR = ROOT + "/engine/http"
GEO_DIR = ROOT + "/engine/httpgeo"
def http(name, mains, variant="plain", flags=(), defs_for=None, link=(), osrm=False, first=()):
    """The whole server with in-memory sockets (engine/http/server_http.hpp) and,
    unless osrm, the harness's walking router (engine/httpgeo/osrmgeofilter.hpp)."""
    return program(name, mains + [ROOT + "/engine/httpmain.cpp"], variant=variant, skip=set() if osrm else {"osrmgeofilter.cpp"}, flags=list(flags), include_first=list(first) + [HTTP_DIR] + ([] if osrm else [GEO_DIR]),
                   defs_for=dict({SERVER: ["-Dmain=repo_main"]}, **(defs_for or {})), link=link)

def e1http():
    return http("e1http", [ROOT + "/engine/e1.cpp"], flags=["-DVF_CACHE", "-DVF_HTTP"])

def e1osrm():
    # with the repository's own client of the walking router, over a connection without a socket
    return http("e1osrm", [ROOT + "/engine/e1.cpp"], flags=["-DVF_CACHE", "-DVF_HTTP", "-DVF_MEMROUTER"], osrm=True, first=[ROOT + "/engine/httpmem"])

def c13():
    return http("c13", [ROOT + "/engine/c13.cpp"])

def c13asan():
    return http("c13", [ROOT + "/engine/c13.cpp"], variant="asan")

def c15asan():
    return http("c15", [ROOT + "/engine/c15.cpp"], variant="asan")

def c17asan():
    return http("c17", [ROOT + "/engine/c17.cpp"], variant="asan")

def c18asan():
    return http("c18", [ROOT + "/engine/c18.cpp"], variant="asan")

def c20asan():
    return http("c20", [ROOT + "/engine/c20.cpp"], variant="asan", osrm=True)

def server():
    """The repository's server as it is."""
    return program("trRouting", [])

# the scheduler's entry points see every function of the repository's own files
INSTRUMENT = ["-DTRROUTING_VERIF", "-finstrument-functions", "-finstrument-functions-exclude-file-list=/usr/,/engine/,json.hpp,_http.hpp,utility.hpp,crypto.hpp,.capnp"]
def c14(variant, defs):
    # with the repository's own walking router client code, over a client without a socket; if a change needs more of the client than that has, without it
    try:
        return c14_(variant, defs, True)
    except BuildError:
        return c14_(variant, defs, False)

def c14_(variant, defs, osrm):
    return http("c14", [ROOT + "/engine/c14.cpp", ROOT + "/engine/sched/sched.cpp"], variant=variant, flags=INSTRUMENT + (["-DVF_MEMROUTER"] if osrm else []), osrm=osrm, first=[ROOT + "/engine/httpmem"] if osrm else [],
                defs_for={"sched.cpp": ["-fno-sanitize=all", "-fno-instrument-functions"] + defs, "c14.cpp": ["-fno-instrument-functions"], "httpmain.cpp": ["-fno-instrument-functions"]}, link=["-ldl"])

def c14poison():
    return c14("plain", ["-DVF_POISON"])

def c14tsan():
    return c14("tsan", ["-DVF_TSAN", "-DVF_POISON"])

def mkcache():
    return program("mkcache", [ROOT + "/engine/mkcache.cpp"], only=lambda s: False)

if __name__ == "__main__":
    import time
    t = time.time()
    print(globals()[sys.argv[1]](*sys.argv[2:]))
    print("%.1f s" % (time.time() - t), file=sys.stderr)
