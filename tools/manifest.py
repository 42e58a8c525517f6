#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINES = "systematic, random and coverage-guided (libFuzzer) workloads in checked and unchecked arithmetic builds"
SPEC = "Trusts the independent symbol model (harness/src/spec.rs), written from the published standards."
T = {
    "C01": ("online model-conformance monitor of every new/encode", SPEC),
    "C02": ("monitor of the ten check-digit admissions per payload", SPEC),
    "C03": ("online model-conformance monitor; the 2- and 5-digit space is swept completely", SPEC),
    "C04": ("online model-conformance monitor of every new/encode", SPEC),
    "C05": ("online model-conformance monitor of every new/encode", SPEC),
    "C06": ("online model-conformance monitor and reader of every symbol", SPEC + " Three wrong patterns pinned by the repository's tests are known findings."),
    "C07": ("online model-conformance monitor and reader of every symbol", SPEC),
    "C08": ("online model-conformance monitor over flag histories", SPEC),
    "C09": ("online model-conformance monitor and reader of every symbol", SPEC),
    "C10": ("online model-conformance monitor and reader of every symbol", SPEC),
    "C11": ("monitor of every admission against an independent automaton", SPEC),
    "C12": ("monitor of every admission against an independent predicate, up to strings beyond 4 GiB", "Strings of gigabytes are mapped, one repeated character."),
    "C13": ("panic, crash and CPU-time watchdog over all constructors and encoders, overflow checks on and off", "A hang is 100 s of CPU time in one call, a deadlock 30 s of sleep."),
    "C14": ("pixel-exact monitor over decoded pictures", "Trusts the decoders of the png and image-webp crates."),
    "C15": ("pixel monitor over decoded GIF pictures", "Trusts the decoder of the gif crate."),
    "C16": ("outcome and size monitor over extreme dimensions under a memory limit", "Allocations beyond the limit (3 GiB) stand for memory exhaustion."),
    "C17": ("strict XML parser and paint monitor over every document", "Trusts the XML reader in harness/src/xml.rs."),
    "C18": ("strict XML parser monitor over every document", "Trusts the XML reader in harness/src/xml.rs."),
    "C19": ("reference-picture monitor over every output", "Trusts the reference picture in harness/src/check.rs."),
    "C20": ("strict JSON parser monitor over every output", "Trusts the JSON reader in harness/src/jsn.rs."),
    "C21": ("history checker over long recorded call sequences on many live values, and digests of the same calls between processes and orders", "A result is blamed on the history only when a fresh process gives another one."),
    "C22": ("ThreadSanitizer, Miri's race detector and a linear comparison of every concurrent result with the sequential one", "Schedules are those the OS and Miri's seeded scheduler produce; races are found by happens-before analysis on them."),
    "C23": ("cross-build differential monitor: one probe in every feature set and mode, native 32-bit, Miri big-endian, bare no_std target", "Compares builds with each other, not with the standards. Results on targets other than x86 are Miri's."),
    "C24": ("allocator monitor (balance, peak, total), AddressSanitizer, Miri undefined-behaviour interpreter", "Miri interprets a sample only."),
    "C25": ("end-to-end monitor: encode, generate, scan back, decode", SPEC + " The three Codabar findings apply here too."),
    "C27": ("CPU-time monitor of every kind of call at two sizes, and early and late in a process", "An alarm needs six times the proportional time in three measurements in a row."),
    "C28": ("equality monitor of public variants, changed fields, argument types and tables", "Compares the library with itself; the tables with the symbol model."),
    "C29": ("system call monitor (seccomp filter with a trap handler) around every call, with checks of process-wide state after it", "Watched where Linux lets a thread be sealed; elsewhere the check says so in its evidence. Calls made inside the vDSO (the clock) are not seen."),
    "C30": ("monitor of the errors and Debug forms of every call and value, with a program of the user's compiled against the public names and traits", "Texts are compared with each other, not with fixed ones."),
    "C26": ("equality monitor of shorthand, builder, alias and cloned forms", "Compares the library with itself and with the documented defaults."),
}
m = dict(
    version=1,
    setup_cmd="python3 check.py setup",
    checks=[dict(
        property=p,
        quick_cmd="python3 check.py %s quick" % p,
        thorough_cmd="python3 check.py %s thorough" % p,
        evidence_file="evidence/%s.json" % p,
        technique="runtime monitoring: " + t,
        level="exploration",
        level_note="The real code, built from /repo, held on every execution observed: %s. %s" % (
            ENGINES if p not in ("C21", "C22", "C23", "C27") else "seeded histories, schedules, configurations or sizes, counted in the evidence", n),
    ) for p, (t, n) in sorted(T.items())],
    not_applicable=[],
    notes="No hooks in /repo: everything is observed through the public API, the allocator and the sanitizers. check.py replay FILE runs a recorded violation again. See DESIGN.md.",
)
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
