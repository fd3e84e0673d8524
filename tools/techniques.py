NA = {}
TECH["C01"] = ("property-based testing against a reference codec, plus exhaustive enumeration of short strings and all addresses",
  "Searches generated payloads, frames and raw strings against an independent RFC 1055 codec, with ASan and UBSan; exhaustive for strings up to length 2, strings up to length 6 over the control alphabet and all 65536 addresses. Trusts the reference codec in the driver.")

W = "Trusts the raw peers and the reference model in src/core; the clock is virtual, the event loop and all sockets are real; ASan and UBSan are on."
M = "model-based stateful property-based testing: generated sessions of raw peers against the in-process proxy, compared with a reference model after every operation"
TECH["C02"] = (M, "Searches interleavings of client writes and server frames with any bytes, chunking, bursts and slow readers over Unix, TCP and WebSocket. " + W)
TECH["C03"] = (M, "Searches sessions with several servers whose clients share socket addresses, strangers and frames to wrong addresses; every received byte is accounted for. " + W)
TECH["C04"] = (M, "Searches registration histories over a small pool of UUIDs in many spellings with accepted and refused registrations. " + W)
TECH["C06"] = (M, "Searches histories of registrations and departures; every notification is matched with the model. " + W)
TECH["C07"] = (M, "Searches topologies and orders of closes, resets and DisconnectClient calls; the set of open connections is compared after every operation. " + W)
TECH["C08"] = (M, "Searches requests, renderings and chunkings; replies are matched in order. Two recorded known findings limit the cut positions. " + W)
TECH["C09"] = (M + ", with a generator of invalid input", "Searches invalid requests and arbitrary bytes next to running tunnels. " + W)
TECH["C22"] = (M + ", with injected bad frames", "Searches mixtures of good and bad frames in any chunking. " + W)
TECH["C05"] = (M.replace("sessions of raw peers", "join/leave histories of up to 300 clients"), "Searches histories with data to and from every address; one fixed and some random cases take the 16-bit counter round while 100 to 250 clients stay connected. Trusts the raw peers and the address map in the driver; built without sanitizers for speed.")
TECH["C13"] = (M + "; the monitor's documents are compared with the model", "Searches traffic and topologies and compares each document of one or more monitors with the model's counters. " + W)
TECH["C14"] = ("metamorphic property-based testing: one generated session is run once per transport (Unix, TCP, WebSocket) and the observations are compared", "Searches sessions whose peers use one transport each and compares the observations between the runs. " + W)
TECH["C10"] = ("property-based testing driven by the introspected document: generated matching and mismatching calls, plus exhaustive single-parameter mutations and a differential test of the validator", "Searches calls derived from the advertised templates on all transports; every advertised method with each single-parameter mutation is enumerated. " + W)
TECH["C11"] = (M.replace("after every operation", "after every operation and every step of a virtual clock"), "Searches sessions and clock steps around each connection's limit; tolerance 6 % (2 s from 19 s on) for Qt's coarse timers. " + W)
TECH["C12"] = (M + ", with sizes concentrated at the limit", "Searches unfinished, completed and exceeding requests by size and chunking on all transports. " + W)
TECH["C16"] = ("property-based testing: generated configuration files against an INI value model, differential check of the running engine's sockets and services", "Searches key subsets, renderings and reload orders; each key alone and each key absent are enumerated; a quarter of the cases starts the engine and compares its endpoints, certificate, name and timeout with the file. Trusts the INI writer and /proc/net.")
F = "model-based stateful property-based testing: generated sessions of the library object with a scripted proxy on real sockets and a virtual clock"
TECH["C17"] = (F, "Searches handshakes with every outcome at every byte, chunkings with tunnel data behind the registration reply, data both ways and every kind of end and reconnect, over TCP and WebSocket, plain and TLS. Trusts the scripted proxy; ASan and UBSan are on.")
TECH["C18"] = (F, "Searches announcements, frames, departures, bad frames and answers in any chunking, user writes and requests, minutes of silence, losses and reconnects. Trusts the scripted proxy; ASan and UBSan are on.")
TECH["C19"] = ("model-based stateful property-based testing: generated histories of library clients, library servers and the proxy together", "Searches histories of connects, bursts, ends on either side, server stops and starts, proxy restarts and virtual time; every byte and signal at both ends is matched. Real sockets and event loop in one process; ASan and UBSan are on.")
TECH["C15"] = ("stateful property-based testing: generated histories of start, stop, restart and destroy with peers in generated states and blocked endpoints", "Searches life cycles of the engine with up to 25 peers in any state on all four endpoints, unread data, endpoints that cannot be bound and stops before the event loop turns; every peer's end, every listener and the process's socket table are checked. ASan and UBSan are on.")
TECH["C23"] = ("stateful property-based testing of JsonRpcServer with a deferred handler, a scripted transport and a virtual clock, against a model of the pending replies", "Searches histories of deferred and immediate requests on several connections with finishes, failures, timeouts, disconnects and destruction in any order. Class level: no shipped method answers later. Trusts the scripted transport in the driver; ASan and UBSan are on.")
TECH["C21"] = (M + ", with scripted TLS strangers", "Searches sessions of encrypted peers next to strangers on the TLS ports who stay silent, talk in clear, or cut, corrupt, slow down or withhold a handshake; they may see TLS records only. The handshake bytes come from OpenSSL memory BIOs. " + W)
TECH["C20"] = ("property-based testing of the tool as a process: generated reports in generated chunks from a scripted endpoint or the real proxy, its output parsed and compared with the document sent; the interactive view is read through a terminal emulator", "Searches report contents, sizes and chunkings (each chunk is read before the next is sent), losses at any byte, several reports in the interactive view, and sessions of the real proxy. Trusts the text reference and the terminal emulator in the driver; ASan and UBSan are on.")
TECH["C24"] = ("property-based testing of the server program as a process: generated configurations, command lines, sessions and moments of signals, with its exit status, log file, endpoints and connections checked", "Searches lives of the program ended by signals at its start, while idle and 0 to 60 ms into generated traffic, and unusable configurations. The moment of a signal within the program's work is left to the scheduler: a failure may need several replays. ASan and UBSan are on.")
TECH["C25"] = ("property-based testing of the tool as a process against the real proxy: generated arguments, clients and payloads, with registrations, echoes and output compared", "Searches argument combinations, clients that send, leave and come back, restarts of the proxy and untrusted certificates. Real time: absence of data is judged after 1.6 s. ASan and UBSan are on.")
TECH["C26"] = ("metamorphic property-based testing: a generated session is repeated against the same proxy or library objects, and live QObjects, file descriptors and allocated bytes must not grow with the repetitions", "Searches sessions of raw peers on all endpoints and of library servers and clients. Needs no model: repeating a session must not change the size of the process. Qt's own leak of peers that break off the TLS handshake on the WebSocket endpoint is outside (no such peers there with TLS).")
