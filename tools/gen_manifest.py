#!/usr/bin/env python3
"""Source of MANIFEST.json (run by hand: python3 tools/gen_manifest.py)."""
import json, os
GRAPH = "explicit-state model checking of the real reader: every reachable state (to a fixpoint) under all operations and source answers"
TREE = "stateless model checking: exhaustive enumeration of all bounded operation sequences and inputs on the real code"
TRUST = " Trusted: the oracle in mc/src (independent ZIP checker, reference semantics), the 128-bit state hash over the complete reader state exposed by the hook, rustc."
CHECKS = {
 "C03": (GRAPH, "Every state reachable with the read sizes of the alphabet on 8 small archives, to a fixpoint; all pairs of alternating sizes, and sizes around the internal buffer, are enumerated on larger archives. Beyond these archives and sizes nothing is shown."),
 "C04": (GRAPH, "Every state reachable by reads and seeks to every offset (all kinds of seek) on 8 small archives, to a fixpoint; every offset of a many-entry archive and all boundary offsets of archives with long records from a fresh or used reader."),
 "C05": (GRAPH, "Every state reachable when each source call may be pending or short any number of times, combined with reads, seeks, clones and takes, on 8 small archives, to a fixpoint; multi-buffer entries with a bounded number of deviations."),
 "C06": (GRAPH, "Every state reachable when each source call may fail or be pending any number of times, on 8 small archives, to a fixpoint; multi-buffer entries with a bounded number of faults at every placement."),
 "C08": (GRAPH, "Every state reachable under pending/short/failing sources with clone and take probes in each, to a fixpoint; completeness after a full read and rebuilding on 33 archives with bounded deviations."),
 "C09": (GRAPH, "Every state reachable under pending/short/failing sources with every access of the sources judged, to a fixpoint; exact open and read counts of sequential reads on 32 archives with bounded deviations."),
 "C10": (GRAPH, "Every reachable state as the moment of cloning and taking, to a fixpoint; all interleavings of two readers up to a depth."),
 "C01": (TREE, "All small archives over the alphabet of names, contents and CRC knowledge, every container type of the library, size classes around the internal buffer. Parsed by an independent strict ZIP checker and the zip crate."),
 "C02": (TREE, "All sequences of builder calls up to a depth, each prefix compared with the bytes actually delivered; single and multi entry size classes up to 2^63 by random access."),
 "C07": (TREE, "Every wrong declared size and CRC over the size classes, in every position, with every read size class and continuation after the error, also when sources are pending or short."),
 "C11": (TREE, "All name length classes and encodings, duplicates, counts and total sizes around every limit; every sequence of adds up to a depth."),
 "C12": (TREE, "All sequences of setters up to a depth over all types and permission classes, including metadata of real files."),
 "C13": (TREE, "All trees up to a number of objects of every kind, all mixes of special names, root names, path forms; made on a real filesystem (tmpfs) as root. Special files (fifos, devices, sockets) are not judged."),
 "C14": (TREE, "Every byte range of small archives, every header string over a token alphabet up to a length, every reader state class, faults and chunking while the body is polled; responses are taken from the Responder directly, without a network."),
 "C15": (GRAPH, "Every state of the stream reachable by polling, seeking, cloning, taking, unwrapping under all source answers on 8 small archives, to a fixpoint; larger entries with a bounded number of deviations."),
 "C16": (TREE, "Sizes, offsets and counts around every 16, 32, 63 and 64 bit limit, archives parsed by random access; 65535 and more entries read completely; one archive over 4 GiB really read."),
 "C17": (TREE, "Every change of a file at every point between adding and the end of reading, up to two changes per history, over size and read size classes, on a real filesystem. Changes in the middle of one read call of the operating system are not controlled."),
 "C18": (TREE, "Every abort point of every response over range classes, prior reader states and source answers with a bounded number of deviations."),
 "C19": (TREE, "Heap peak and growth, measured by a counting allocator, for all combinations of size, offset, read size and way of reading, and for all repeated cycles of operations up to a length. The limit is 256 KiB + 1 KiB per entry + 8 times the names."),
 "C20": (TREE, "All sequences of time setters up to a depth over boundary times and converters, judged by independent calendar arithmetic."),
}
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
m = dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="cfg(zippity_verif)", enable="RUSTFLAGS=\"--cfg zippity_verif\" cargo build (see check.sh)", source_commits=["2ca1c67"]),
  checks=[dict(property=p, quick_cmd=f"bash check.sh {p} quick", thorough_cmd=f"bash check.sh {p} thorough",
     evidence_file=f"evidence/{p}.json", technique=CHECKS[p][0], level="model_checking", level_note=CHECKS[p][1] + TRUST) for p in props if p in CHECKS],
  not_applicable=[dict(property=p, reason="check under construction") for p in props if p not in CHECKS])
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
