#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "deterministic simulation: seeded specs x transfer schedules, save/load round trip against an equality oracle",
 "C02": "deterministic simulation: seeded specs x transfer schedules, 2.2 round trip against a reference model of the projection",
 "C03": "deterministic simulation: documents from an independent encoder x delivery schedules against the encoder's model",
 "C04": "deterministic simulation: saves under seeded sink schedules, decoded by an independent strict reader",
 "C05": "deterministic simulation: crash (truncation / zero tail) at seeded bytes, prefix oracle",
 "C06": "deterministic simulation: injected read errors at seeded bytes and system calls",
 "C07": "deterministic simulation: seeded corruption of stored bytes, structural oracle, ASan/UBSan, step and memory budgets",
 "C08": "deterministic simulation: injected write, flush, open and close failures, prefix and completeness oracle",
 "C09": "deterministic simulation: injected allocation failures, all-or-nothing oracle, retry",
 "C10": "deterministic simulation: seeded scheduler preempting real threads at every library basic block, I/O call and allocation; sequential equivalence",
 "C11": "deterministic simulation: seeded histories of operations checked step by step against a reference model",
 "C12": "deterministic simulation: seeded ambient environments (locales, stream state, heap contents) against the plain run",
 "C13": "deterministic simulation: extension round trip and skipping in both build configurations, seeded schedules",
 "C14": "deterministic simulation: seeded unsupported features and header damage, refusal oracle",
 "C15": "deterministic simulation: crash after return and at seeded disk changes, restart, durability oracle",
 "C16": "deterministic simulation: calls repeated under every fault kind with heap blocks and descriptors counted",
 "C17": "deterministic simulation: one dimension of the content grown by a seeded factor, simulated steps, memory, stack and I/O of both calls compared",
 "C18": "deterministic simulation: seeded malformed numbers, end tags and entry counts injected into documents x delivery schedules, rejection oracle",
}
NOTE = ("Seeded search over simulated runs of the real library code (four builds: ASan+UBSan with asserts, -O2 -DNDEBUG, each with and "
        "without the NanoSpline extension). A clean batch is evidence, not proof. Trusted: the harness's document model, encoder and strict "
        "reader, written from the format description; libstdc++ and the kernel below the interposed calls.")
EXTRA = {
 "C10": " Interleavings are sequentially consistent at basic-block granularity; weak memory effects are not simulated, but unsynchronised accesses to static data and shared specs are reported as data races.",
 "C15": " The crash is of the process (what the kernel accepted survives), as the library never calls fsync and promises nothing about power loss.",
 "C16": " Leaks that show only as growth over six repetitions; one-time caches are not leaks.",
 "C17": " Cost is counted (basic blocks, bytes, calls), not timed; growth worse than three times the growth of the content is reported.",
}
m = {
 "version": 1,
 "setup_cmd": "python3 tools/build.py",
 "checks": [dict(property=p, quick_cmd="VERIF_TIER=quick python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                 technique=T[p], level="exploration", level_note=NOTE + EXTRA.get(p, "")) for p in sorted(T)],
 "not_applicable": [
  dict(property="N01", reason="validate_spec is a pure function of its argument: no stream, file, clock, schedule, allocation of note or other party is involved, so there is nothing to simulate. (C03 uses it as one of its observations: it must accept what a load of a well-formed document returns.)"),
  dict(property="N02", reason="nodes_per_element and get_element_dim are constant tables over 32 integers: a pure function, settled by enumeration, with no nondeterminism to simulate. (C01-C04 exercise every entry through the loaders and savers.)"),
  dict(property="N03", reason="The Python module needs nanobind, which is not installed and cannot be fetched, so it cannot be built here; and an accessor binding is a pure mapping without faults or schedules."),
 ],
 "notes": "No hooks in /repo: all seams are the library's public interface, the C library, operator new and the compiler's coverage callbacks. Replay a violation with: python3 check.py --replay FILE.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
