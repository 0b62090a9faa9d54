#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed checks. Run by hand after changing it."""
import json, os, subprocess
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L1 = "deterministic simulation: the real three-party protocol code on a seeded in-process network and scheduler"
NET = "deterministic simulation: the real network code on a seeded in-process runtime, clock and packet/stream network"
BASE = "Sampled, not exhaustive: a seeded search over schedules, programs and faults; a clean batch is evidence, not proof. "
STO = "deterministic simulation: the real tools and SQLite on a simulated disk with crashes, power failures and I/O errors"
checks = {
 "C01": (L1 + "; answers compared with the definition and the plaintext reference", BASE + "SWIFT3 queries run without their 12800-element dot product proofs (minutes each); honest runs only."),
 "C02": (L1 + "; unusable queries injected into a session history", BASE + "Honest parties; every party gets the same unusable query."),
 "C03": (L1 + "; random programs compared with a plaintext interpreter", BASE + "Links are reliable FIFO."),
 "C04": (L1 + "; random programs compared with a plaintext interpreter", BASE + "Links are reliable FIFO."),
 "C05": (L1 + "; random programs compared with a plaintext interpreter", BASE + "Most runs use a smaller cut-and-choose parameter (guarded hook), some the shipped one."),
 "C06": (L1 + "; random programs compared with a plaintext interpreter", BASE + "Proof sizes bounded by cost."),
 "C07": (L1 + "; one byzantine party: message tampering and altered shares", BASE + "The cheating party deviates from the real code by altering messages and shares; it is not an arbitrary program. Soundness error of the protocol (about 2^-27 or less per attempt) is taken as never reached."),
 "C08": (L1 + "; one byzantine party: message tampering and altered shares", BASE + "As C07; shipped cut-and-choose parameters."),
 "C09": (L1 + "; one byzantine party: message tampering and altered shares", BASE + "As C07; membership queries of SWIFT3 are represented by small programs of the same shape."),
 "C10": (L1 + "; crash and link-close fault injection, then a fresh session", BASE + "Crash positions are network calls."),
 "C11": (L1 + "; withheld and tampered setup messages", BASE + "Hiding is checked as: nothing sent before the peer's commitment arrived shares a 16-byte window with what is sent after."),
 "C12": (L1 + "; paired session ensembles that differ only in secrets a party does not hold; two-sample tests on every bit of its view", BASE + "Statistical: detects biases of at least about 0.8 per bit in 64 runs per side; threshold about 9 sigma."),
 "C13": (L1 + "; paired sessions, message-length traces compared", BASE),
 "C14": (NET, BASE), "C15": (NET + "; stream cuts, corruption and I/O errors", BASE),
 "C16": (NET, BASE), "C17": (NET, BASE), "C18": (NET, BASE), "C19": (NET, BASE), "C20": (NET, BASE),
 "C21": (L1 + "; shares dealt, stored, reloaded in other sessions; two-sample test per party", BASE),
 "C24": (STO + "; then the parties load, open and query what it wrote", BASE + "Directory operations are taken as durable in order; the parties' loading code is that of the example programs."),
 "C25": (STO, BASE + "A fresh random probe is taken never to match, a copy with 5 % flipped bits always to match."),
}
claimed = json.load(open(os.path.join(here, "tools/claimed.json")))
na = json.load(open(os.path.join(here, "tools/not_applicable.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split(" ", 1)[0] for l in log if l.split(" ", 1)[1].startswith("vsim:")]
m = {
 "version": 1,
 "setup_cmd": "./check.sh build",
 "hooks": {"guard": "cfg(vsim)", "enable": "sim/.cargo/config.toml passes --cfg vsim to rustc for the simulator's build only", "source_commits": list(reversed(hooks))},
 "checks": [{
   "property": c, "quick_cmd": f"./check.sh {c} quick", "thorough_cmd": f"./check.sh {c} thorough",
   "evidence_file": f"evidence/{c}.json", "technique": checks[c][0], "level": "exploration", "level_note": checks[c][1].strip(),
 } for c in claimed],
 "not_applicable": [{"property": k, "reason": v} for k, v in na.items()],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
