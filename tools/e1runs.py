"""Which builds of the enumeration engine decide a property, on which families
(None: all the families listed for it in engine/e1.cpp).
 e1:      the engine on an in-memory data fetcher (fastest)
 e1cache: the data go through the Cap'n Proto files and the real CacheFetcher
 e1osrm:  as e1http, with the repository's own client of the walking router (family W)
 e1http:  the repository's main() and HTTP server on cache files; requests and answers are HTTP bytes"""
SMALL = "F0,K,KA,HW,K11,Y"
RUNS = {
 "C01": [("e1", None), ("e1http", SMALL), ("e1osrm", None)],
 "C02": [("e1", None), ("e1http", SMALL + ",F,E"), ("e1osrm", None)],
 "C03": [("e1", None), ("e1http", SMALL + ",F,E"), ("e1osrm", None)],
 "C04": [("e1", None), ("e1http", SMALL + ",F,E"), ("e1osrm", None)],
 "C05": [("e1", None), ("e1http", SMALL + ",F,E"), ("e1osrm", None)],
 "C06": [("e1", None), ("e1http", SMALL + ",J"), ("e1osrm", None)],
 "C07": [("e1", None), ("e1http", SMALL + ",F"), ("e1osrm", None)],
 "C08": [("e1", None), ("e1http", SMALL + ",F,E"), ("e1osrm", None)],
 "C09": [("e1", None), ("e1http", SMALL + ",F,E"), ("e1osrm", None)],
 "C10": [("e1", None), ("e1http", SMALL + ",H")],
 "C11": [("e1", None), ("e1cache", "E11"), ("e1http", SMALL)],
 "C12": [("e1", None), ("e1cache", "K,D")],
 "C19": [("e1", None), ("e1http", SMALL + ",H,E")],
 "C16": [("e1cache", None), ("e1http", None), ("e1osrm", None)],
}

# The other harnesses: property -> list of (builder in tools/vbuild.py, extra arguments)
PROGRAMS = {
 "C20": [("c20asan", ["--server", "@server"])],
 "C14": [("c14poison", []), ("c14tsan", ["--tsan", "1"])],
 "C17": [("c17asan", [])],
 "C18": [("c18asan", [])],
 "C15": [("c15asan", [])],
 "C13": [("c13", []), ("c13asan", ["--asan", "1"])],
}
