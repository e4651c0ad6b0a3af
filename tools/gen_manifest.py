#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HOOKS = ["df158a4", "490b802"]
SEQ = "bounded exhaustive exploration of operation sequences on the real peer, compared step by step with a reference model"
SCHED = "schedule enumeration with bounded preemptions over the real peer"
PIPE = "exhaustive exploration of read/write splits and pending results of the real stream transport over a controlled byte pipe"
REAL = "exhaustive enumeration of bounded histories on real sockets against a reference model"
ASSUME = "Exhaustive within the bounds in DESIGN.md and the evidence file; trusts the harness's scheduler, mock transport and oracle, and the standard library and tokio primitives under the code."
C = {
 "P01": (PIPE, "Message sequences, body lengths and split patterns beyond the bounds are not covered."),
 "P02": (PIPE, "Defect catalogue: all truncation points and boundary values per field, all first-length-byte patterns; allocation is measured by a counting allocator."),
 "P03": (PIPE + "; " + REAL, "Limits and lengths around each boundary; the 4 GiB boundaries are checked with a virtual body."),
 "P04": (REAL, "A raw socket is the other end, so that every datagram is controlled byte by byte."),
 "P05": (REAL, "Leaks are detected by end-of-file on pipes whose only write ends are the attached descriptors."),
 "P06": ("exhaustive enumeration of header field values against an independent encoder", "Every value of each 32-bit field (thorough) and all combinations of corner values; on streams over all splits of short messages."),
 "P07": (SEQ + "; " + SCHED, ""), "P08": (SEQ + "; " + SCHED, "The ID counter is set through the hook to reach wrap-around."),
 "P09": (SEQ + "; " + SCHED, ""), "P10": (SEQ + "; " + SCHED, ""), "P11": (SEQ + "; " + SCHED, ""), "P12": (SEQ + "; " + SCHED, ""), "P13": (SEQ + "; " + SCHED, ""),
 "P14": (SCHED + "; " + PIPE, "No enabled task before the exchange is complete is a deadlock."),
 "P15": (SEQ + "; " + SCHED + "; " + REAL, "Futures are dropped at every point at which they can be pending."),
 "P16": (SEQ, ""),
 "P17": (REAL, "Interleavings of the actions of two or three clients with each other and with the accepting task."),
 "P18": ("bounded exhaustive exploration of message and operation sequences on generated clients and servers, compared step by step with a reference model", "The 21 interfaces of typed/src/gen.rs: all combinations of zero to two updates in both directions, shared, extreme and similar IDs, unit bodies."),
 "P19": ("exhaustive enumeration of interface definitions, each compiled with the real macro and compared with its definition", "Bounded item and update sequences, all equality patterns of IDs and names; names that are reserved or equal in camel case are excluded."),
 "P20": (SEQ + "; " + SCHED, ""), "P21": (SEQ, ""),
 "P22": ("exhaustive enumeration of file system states and bind sequences on the real file system", "All objects are created in a scratch directory under /verif/target."),
 "P23": ("exhaustive enumeration of wrapper nestings, calls and poll outcomes against the unwrapped transport, listener and sink", "Nestings of up to three wrappers of every kind the crate provides."),
 "P24": (REAL + "; exhaustive enumeration of short byte strings", "Every byte string of at most three bytes as error body."),
 "P25": (REAL, "Histories of up to five operations over Unix stream, Unix seqpacket and TCP sockets."),
 "P26": ("bounded exhaustive exploration of operation sequences on the real peer, server and sockets, each repeated until it is clear whether memory, tasks or file descriptors grow", "Each sequence is repeated 102 times, and up to 1400 times more when in doubt. Live blocks and bytes are counted by the allocator."),
 "P28": ("exhaustive enumeration of error values, wrappings and failing operations against an independent classification", "Every constructor and source with corner values; texts are only required to mention the values concerned."),
 "P29": ("exhaustive enumeration of the cargo feature combinations, each built and run against the expected behaviour", "All 16 combinations; in each, all exchanges of up to two messages over each enabled transport."),
 "P30": (REAL + " at a raw socket", "All ways to make a connection, alone and in pairs; configurations are 4 per transport, one of them the default."),
 "P31": (SEQ.split(",")[0] + " during an endless flood of messages, counted in messages; " + REAL, "Bounds are numbers of messages of the flood, not times; on real sockets the flood comes from another thread, whose schedule is not controlled."),
 "P27": (REAL + " that everything comes to rest", "Polls of the peer and of waiting futures are counted while nothing happens."),
}
NA = {
}
checks = [dict(property=p, quick_cmd=f"bash /verif/run.sh {p} quick", thorough_cmd=f"bash /verif/run.sh {p} thorough",
               evidence_file=f"evidence/{p}.json", technique=t, level="model_checking", level_note=(n + " " + ASSUME).strip())
          for p, (t, n) in sorted(C.items())]
m = dict(version=1, setup_cmd="bash /verif/setup.sh",
         hooks=dict(guard="cfg fizyr_rpc_verif", enable='RUSTFLAGS="--cfg fizyr_rpc_verif" (set by /verif/env.sh, which run.sh sources)', source_commits=HOOKS),
         checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in sorted(NA.items())],
         notes="See DESIGN.md. known-findings.txt lists the repaired defects.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
