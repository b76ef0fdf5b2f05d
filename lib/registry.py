"""Which suites decide which property."""
import codec
import config
import connect
import messages
import pool
import routing
import session
import shared
import summary

CHECKS = {
    p: [("session", session.suite)]
    for p in ("W05", "S02", "S03", "S04", "S05", "S08", "S10", "T01", "T02", "T03", "W06")
}
for p in ("S01",):
    CHECKS[p] = [("init", connect.suite)]
for p in ("S02", "W05"):
    CHECKS[p].append(("init", connect.suite))
CHECKS["S06"] = [("init", connect.suite), ("session", session.suite)]
CHECKS["S07"] = [("shared", shared.suite)]
for p in ("P01", "P02", "P03", "P04"):
    CHECKS[p] = [("pool", pool.suite)]
for p in ("R01", "R02", "R03", "R04", "R05"):
    CHECKS[p] = [("routing", routing.suite)]
for p in ("W01", "W02", "W03", "W04"):
    CHECKS[p] = [("codec", codec.suite)]
for p in ("W01", "W04"):
    CHECKS[p].append(("session", session.suite))
CHECKS["S09"] = [("summary", summary.suite), ("session", session.suite)]
CHECKS["S04"].append(("summary", summary.suite))
for p in ("S02", "S08"):
    CHECKS[p].append(("messages", messages.suite))
for p in ("K01", "K02", "K03"):
    CHECKS[p] = [("config", config.suite)]
for p in ("K01", "K02"):
    CHECKS[p].append(("routing", routing.suite))
CHECKS["P03"].append(("session", session.suite))
CHECKS["P03"].append(("routing", routing.suite))

TECHNIQUE = ("TLA+ specification checked with TLC; its behaviours are replayed on the real code and the recorded traces "
             "are validated against the specification with TLC")
TRUST = ("Trusted: TLC, the scripted server and its independent codec (harness/), loopback TCP; "
         "behaviours outside the stated bounds are not covered.")
NOTES = {
    "codec": ("PackStream.tla (an encoder, damage on the way, a decoder that takes one token at a time) and Framing.tla (chunks on a "
              "stream delivered in pieces) satisfy their invariants for all values, forms and damages of the bound; the same values "
              "and bytes go through the real codecs of both generations, and what they do is judged by PackStreamCore.tla, which "
              "says what a sequence of bytes denotes."),
    "config": ("Config.tla (options and connection strings are merged, validated, written into one string and read from it for "
               "every server, direct and routed) satisfies ConfigCore for all configurations that differ from an ordinary one in up "
               "to three settings; these configurations are given to the real code, against servers that log who connects, how, "
               "and with which credentials and certificates."),
    "summary": ("Summary.tla (reading statistics and counters of any shape) satisfies SummaryCore; summaries and failures of all these "
                "shapes are sent to the real code, and what results and errors say is judged by it."),
    "messages": ("Messages.tla (the messages of all versions, put together field by field) satisfies MessagesCore; the real constructors "
                 "are given what it constructs from, and other values, and what they make is judged by MessagesCore."),
    "routing": ("Routing.tla (queues of connections by role, one lock, a refresh that follows the cluster's answers; users calling at "
                "the same time, roles that change, bad answers, members that crash) satisfies its monitor in all interleavings; its "
                "behaviours, long random ones and storms are run on a real routing pool against a cluster of scripted servers."),
    "pool": ("Pool.tla (tokens, a stack of idle connections, users calling at the same time, a server that ends connections and "
             "refuses new ones) satisfies its monitor in all interleavings; its behaviours are run on a real pool by goroutines, "
             "followed by a check that the pool is back at its size and that closing releases everything."),
    "shared": ("BoltShared.tla (several goroutines sharing a connection) satisfies its monitor in all interleavings of three "
               "goroutines and two phases; combinations of calls it makes are run concurrently on real connections, with a "
               "server that delays its answers, and the traces are judged by the monitor. Schedules are sampled, not forced."),
    "init": ("BoltInit.tla (opening a connection against a server or network that fails at any step) satisfies its monitor "
             "in all behaviours; all of them are executed through CreateBoltConn, driver and pool, plain and TLS."),
    "session": ("BoltSession.tla (design of one connection, its transactions, the streams and a server that answers in "
                "every way) satisfies the monitor BoltCore.tla in all behaviours up to the bound; every transition of it, "
                "pairs of calls and long random behaviours are executed on real connections for v1-v4 and every recorded "
                "event is judged by the same monitor."),
}
NA = {}
