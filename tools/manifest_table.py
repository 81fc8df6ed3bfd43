NOT_YET = {}
_n = "Exhaustive within the families and alphabets listed in the evidence; the oracle is engine/model.hpp (independent of the repository's code), bound to the implementation by running the real parameter parsing, TransitData, Calculator and JSON code on every case. Assumes nothing outside those alphabets."
TABLE = {p: (T_E1, "model_checking", _n) for p in ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C16","C19"]}

_t2 = "exhaustive exploration of request histories on the real server code (stateless search: one process per history prefix), each answer against a fresh-server baseline"
TABLE["C13"] = (_t2, "model_checking", "Every history up to the stated lengths over the stated request alphabets, both cache settings, both walking routers that need no network; the server runs from main() to the bytes of the answers, over in-memory sockets.")

TABLE["C15"] = ("exhaustive exploration of histories of requests, file replacements and refreshes on the real server code (AddressSanitizer), each completed refresh against a fresh-server baseline", "model_checking", "Every pair of the stated variants of the cache files, every operation sequence up to the stated length; an explicit abstract state (what is on disk, what is loaded) decides when the property applies.")

TABLE["C17"] = ("exhaustive fault injection: every single-file byte and field fault and every subset of missing files, at start-up and through a refresh, on the real server code (AddressSanitizer)", "model_checking", "Every fault of the stated kinds on two small valid directories; answers classified against the documented data_error contract and, where the fault determines them, compared with a baseline; memory errors are those the sanitizers and library assertions detect.")

TABLE["C18"] = ("exhaustive enumeration of requests (every one, two or, thorough, three deviations from a valid request over per-parameter alphabets, every subset of omitted parameters, framings, /updateCache) on the real server code (AddressSanitizer), against a reference reading of the query string", "model_checking", "Every combination of up to two (thorough: three) values of the stated alphabets; right answers are decided by a reference reading of the parameters, which accepts both readings where the documentation is silent.")

TABLE["C14"] = ("stateless model checking of the real server code under a controlled scheduler: every schedule with up to two preemptions (thorough: three) at locks, hook points and router calls, and every one with one preemption at any function, allocation or lock, each answer against the idle-server baseline; the same tasks under ThreadSanitizer", "model_checking", "Two or three concurrent requests over four scenarios on a small network, both cache settings, both walking routers that need no network; sequentially consistent interleavings of the scheduling points, data races by happens-before in the ThreadSanitizer build.")

TABLE["C20"] = ("exhaustive fault injection on the walking router: every router fault of the stated kinds at every exchange of every request history, on the real server code with its real router client (AddressSanitizer, in-memory server sockets) and on the real server binary, each answer against the fault-free baseline and the documented failures", "model_checking", "Every history of the stated shapes (healthy, faulty, healthy again; every pair of faults in the exchanges of one request for the representative faults) over the stated faults (connection refused, resets, truncations, malformed headers, wrong statuses, every JSON node replaced); no stalling router, since the client has no time limit and the documentation promises none.")
