"""Runs the server built in the current directory on given cache files, with a
scripted walking router, and asks it questions."""
import http.client, http.server, json, os, socket, subprocess, sys, threading, time, urllib.parse, atexit, shutil, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))

def uid(kind, i):
    return "%08x-0000-4000-8000-%012x" % (0xa0 + {"stop": 1, "line": 2, "path": 3, "trip": 4, "service": 5, "agency": 6, "scen": 7}[kind], i)

def free_port():
    s = socket.socket(); s.bind(("127.0.0.1", 0)); p = s.getsockname()[1]; s.close(); return p

class Router:
    """Walking router: table[(lat, lon) of a place][stop index] = (seconds, metres)."""
    def __init__(self, stops, table, port=0):
        self.stops, self.table, self.fault = stops, table, None
        self.requests = 0
        outer = self
        class H(http.server.BaseHTTPRequestHandler):
            def log_message(self, *a): pass
            def do_GET(self):
                outer.requests += 1
                body = outer.fault(self.path) if outer.fault else None
                status = 200
                if body is None:
                    body = outer.answer(self.path)
                if isinstance(body, tuple):
                    status, body = body
                b = body.encode()
                self.send_response(status); self.send_header("Content-Length", str(len(b))); self.end_headers(); self.wfile.write(b)
        self.srv = http.server.ThreadingHTTPServer(("127.0.0.1", port), H)
        self.port = self.srv.server_address[1]
        threading.Thread(target=self.srv.serve_forever, daemon=True).start()
    def answer(self, path):
        pts = [tuple(map(float, c.split(","))) for c in path.split("?")[0].split("/")[-1].split(";")]
        near = lambda a, b: abs(a[0] - b[0]) < 2e-5 and abs(a[1] - b[1]) < 2e-5
        src = (pts[0][1], pts[0][0])
        row = next((t for c, t in self.table if near(c, src)), {})
        dur, dist = [0], [0]
        for lon, lat in pts[1:]:
            k = next(i for i, c in enumerate(self.stops) if near(c, (lat, lon)))
            a = row.get(k, (100000, 100000)); dur.append(a[0]); dist.append(a[1])
        return json.dumps({"code": "Ok", "durations": [dur], "distances": [dist]})

class Server:
    def __init__(self, cache, args=(), router=None, threads=1):
        self.dir = tempfile.mkdtemp(); atexit.register(shutil.rmtree, self.dir, True)
        shutil.copytree(cache, self.dir + "/cache"); self.cache = self.dir + "/cache"
        self.port = free_port(); exe = os.path.join(os.getcwd(), "src", "trRouting")
        cmd = [exe, "--port=%d" % self.port, "--cachePath=" + self.cache, "--threads=%d" % threads] + list(args)
        cmd += ["--osrmPort=%d" % router.port, "--osrmHost=127.0.0.1"] if router else ["--useEuclideanDistance=true"]
        self.log = open(self.dir + "/log", "w")
        self.p = subprocess.Popen(cmd, cwd=self.dir, stdout=self.log, stderr=self.log); atexit.register(self.stop)
        for _ in range(300):
            try:
                socket.create_connection(("127.0.0.1", self.port), 1).close(); return
            except OSError:
                if self.p.poll() is not None: raise SystemExit("the server stopped: %s" % self.p.returncode)
                time.sleep(0.05)
        raise SystemExit("the server does not listen")
    def stop(self):
        if self.p.poll() is None: self.p.kill(); self.p.wait()
    def alive(self):
        return self.p.poll() is None
    def raw(self, path, timeout=20):
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout)
        try:
            c.request("GET", path); r = c.getresponse(); return r.status, r.read().decode("utf8", "replace")
        finally:
            c.close()
    def ask(self, path, **q):
        s, b = self.raw(path + "?" + urllib.parse.urlencode(q, safe=",")); return json.loads(b)
    def route(self, o, d, t, scen=0, kind="/v2/route", **q):
        p = dict(origin="%f,%f" % (o[1], o[0]), destination="%f,%f" % (d[1], d[0]), scenario_id=uid("scen", scen), time_of_trip=t, time_type=0); p.update(q); return self.ask(kind, **p)
    def access(self, o, t, scen=0, **q):
        p = dict(place="%f,%f" % (o[1], o[0]), scenario_id=uid("scen", scen), time_of_trip=t, time_type=0); p.update(q); return self.ask("/v2/accessibility", **p)

failures = []
def check(what, got, want):
    ok = got == want
    print("%s: %s%s" % ("ok  " if ok else "FAIL", what, "" if ok else " -- got %r, wanted %r" % (got, want)))
    if not ok: failures.append(what)
def done():
    sys.stdout.flush(); sys.exit(1 if failures else 0)
