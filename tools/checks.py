SMC = "stateless model checking of the real code (deviation-bounded exhaustive exploration of environment answers and schedules) against an independent oracle"
TRUST = " Trusts the harness' transport, scheduler and oracle, and that the scenario corpus is representative; single-threaded interleaving at poll granularity."
CHECKS = {
 "C01": (SMC, "Every execution of the scenario corpus within the deviation bound (reported in the evidence) is run on hyper itself; requests seen by the service are compared with what the generator encoded." + TRUST),
 "C02": (SMC, "Exhaustive enumeration of bounded header-line sequences and mutations of request heads, each executed on the real server connection; the oracle is an independent reading of RFC 9112 that yields the permitted outcomes." + TRUST),
 "C03": (SMC, "Lazy exhaustive enumeration of byte strings (generated only while the receiver wants input), each run on the real server and client; a table-driven reader of the chunked grammar is the oracle." + TRUST),
 "C04": (SMC, "Exhaustive product of methods, statuses, versions, interim responses, framing lines and payloads plus all single mutations and splits, each executed on the real client connection against an independent RFC 9112 reading." + TRUST),
 "C05": (SMC, 'Exhaustive product of methods, versions, statuses, user header lists and body shapes written by the real server and client connections and read back by an independent strict RFC 9112 reader; all partial and blocked writes within the bound for a subset.' + TRUST),
 "C06": (SMC, 'Every incoming message of the corpus stopped at every byte by EOF/reset/write failure/connection drop, four consumer kinds; every broken outgoing body with every framing; every schedule within the deviation bound.' + TRUST),
 "C07": (SMC, 'Every pair of up to two Connection lines per side over 12 values, versions, framings (bound 0), and three-value lists x body kinds x consumption x config under every schedule within the deviation bound; every history of up to 3 (thorough 4) exchanges compared with the same exchanges on fresh connections.' + TRUST),
 "C08": (SMC, 'Closed systems (server, client, proxy) whose peer acts only on flushed bytes: every combination within the bound of blocked/short transport operations, wake-up and task order; quiescence must mean complete and flushed, and no task may keep waking itself.' + TRUST),
 "C09": (SMC, 'Every interleaving within the deviation bound of callers, connection task, peer script steps, cancellation, sender drop and connection drop over 21 peer scripts x 9 call sets; responses name the request they answer.' + TRUST),
 "C10": (SMC, "Every cut of the new protocol's first bytes against the granting head, every schedule and transport answer within the bound and every use of the upgrade future and stream runs on hyper's real client and server connections; both ends of the wire are compared with what was read and written." + TRUST),
 "C11": (SMC, "Graceful shutdown is requested at every point of every schedule within the bound, for every cut of the request bytes, on hyper's real server connection; which requests reach the service, whether exchanges complete and what the responses announce is checked on each execution." + TRUST),
 "C12": (SMC, "Every assignment of gaps around the timeout between scripted steps on a virtual clock, with every schedule within the bound, on hyper's real server connection; a model of when hyper waits for a head predicts the exact instant of the timeout." + TRUST),
 "C13": (SMC, 'Every combination of expectation, version, body framing, consumer, response and peer behaviour, alone and behind another exchange, under every schedule and transport answer within the bound; interim heads are counted per final response on the wire.' + TRUST),
 "C14": (SMC, "Inexhaustible sources and stopped sinks: every combination of flood kind, buffer limit, piece size, consumer stop and transport capacity, with every schedule and transport answer within the bound, on hyper's real connections; what was read, pulled and answered at quiescence is compared with the configured limits." + TRUST),
 "C15": (SMC, "At every point of every schedule within the bound the connection, the sender, a response future, an incoming body, an upgrade future or an upgraded stream is dropped on hyper's real connections; afterwards everything left must have resolved and every message must name the exchange it belongs to." + TRUST),
 "C26": (SMC, "Every sequence of cursor operations up to the depth bound runs on hyper's real ReadBuf and ReadBufCursor, inside a guarded region, against an array model." + TRUST),
 "C16": (SMC, 'every framing of an incoming HTTP/1 body in both roles (whole, and broken off after every byte) and every sequence of HTTP/2 body frames up to the depth x true/false/no content-length is read by a reader that asks for size hint and end-of-stream before every poll and compares them with what followed' + TRUST),
 "C18": (SMC, "hyper's real HTTP/2 client and server connections talk over an in-memory pipe (and against scripted raw peers), every body shape, window size and concurrency of the corpus, every schedule of tasks, partial IO and body readiness within the deviation bound; results are compared with what was sent; quiescence with unfinished exchanges is a violation" + TRUST),
 "C22": (SMC, "every sequence of header lines of an alphabet up to the depth bound, both roles, every method/status x body shape x own content-length, and every sequence of trailer lines are written by hyper's real HTTP/2 connections and read back by an independent frame reader and HPACK decoder; an executable specification says which fields belong on the wire" + TRUST),
 "C17": (SMC, 'every sequence of header lines of an alphabet up to the depth bound is sent through the real connections: from the peer to the user, from the user to the wire and through a case-preserving proxy, in both roles, over HTTP/1 (every header-case configuration, folded lines, reason phrases) and HTTP/2 (with trailers); compared per name with what was set' + TRUST),
 "C19": (SMC, 'Two exchanges on one HTTP/2 connection; one of them is cancelled, dropped, failed or reset at every step, in both directions.' + TRUST),
 "C20": (SMC, "Graceful shutdown of the server, drop of the client's last sender, and a raw peer's GOAWAY at every step." + TRUST),
 "C21": (SMC, 'On a virtual clock: every pattern of answered, late and unanswered pings x times of data x situation (idle, waiting, reading, uploading, senders gone, tunnel, over, cancelled; transport blocked) x interval/timeout/while-idle/adaptive configuration, both roles, under every schedule within the bound; the time of the end must lie in the window an independent rule gives.' + TRUST),
 "C23": (SMC, "Scripts of writes, flushes, shutdowns, reads and drops on each end of a plain or extended CONNECT tunnel between hyper's real client and server, or against raw peers sending data, ends, trailers, resets, GOAWAY and window updates, under every schedule within the bound; both ends and the wire are compared with what was written." + TRUST),
 "C24": (SMC, "A raw peer that keeps its own books fills every window hyper grants (single, sequential and concurrent streams; bodies read, read late, held, dropped, abandoned; padding; excess) and grants hyper's sender windows piece by piece (window updates, settings up and down, resets), both roles, under every schedule within the bound; the books say what may be sent, must be sent, given back and pulled." + TRUST),
 "C25": (SMC, "The connection, its callers, body readers and producers, handlers, tunnel ends and helper tasks of real HTTP/1 and HTTP/2 exchanges run on threads of a controlled scheduler (shuttle engine with a depth-first deviation-bounded scheduler) which decides the order of every lock, atomic and channel operation in hyper and h2; a lost wake-up shows as a deadlock, lost data or a lost end as a wrong result. Memory is sequentially consistent; the channel and waker crates' operations are atomic steps." + TRUST),
 "C27": (SMC, 'C-shaped client programs over the extern "C" functions of the real code, single-threaded as the C executor is; every order of polls, wakes (also from inside callbacks), arrivals, short and pending reads, writes and body callbacks with up to 4 deviations (5 thorough), every point of giving up, all header-map operation sequences of length 5 (6 thorough); memory judged by the balance of live bytes.' + TRUST),
}
NA = {}
HOOKS = {"guard": "none", "enable": "no hooks: the harness drives hyper's public API; for C25 it builds a generated copy of the working tree in which only the paths of the synchronization primitives are redirected", "source_commits": []}
NOTES = ""
