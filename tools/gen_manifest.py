#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed checks are those listed in DONE."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = "The real code is run on every case of a bounded space and judged against an executable reference model written from the documentation; the bounds are in DESIGN.md and the evidence. Trusts the model and that behaviour outside of the alphabets follows that inside. "
CONC = "The real engine code runs on a controlled scheduler which tries every schedule of the bounded programs, with scheduling points at every shard lock and atomic operation; assumes sequentially consistent memory. "
NET = "The real server and client sources are compiled against a simulated tokio whose every outcome (delivery, short read or write, error, end of stream, task order, cancellation) is enumerated; trusts that the simulation offers what tokio and TCP may do. "
T = {
 "C01": ("explicit enumeration of all command sequences to a depth and of every command in every reachable state, on the real engine in lockstep with a model", SEQ),
 "C02": ("explicit enumeration of commands in reachable states with before/after state comparison on the real engine", SEQ),
 "C03": ("explicit enumeration of numbers, amounts and sequences on the real engine in lockstep with a model", SEQ),
 "C04": ("explicit enumeration of append sequences on the real engine in lockstep with a model", SEQ),
 "C05": ("stateless exploration of every interleaving of the real engine's commands under a controlled scheduler, with value conservation and a two-step atomicity oracle", CONC),
 "C06": ("stateless exploration of every interleaving of the real engine's commands under a controlled scheduler, with linearizability against the model", CONC),
 "C07": ("stateless exploration of every interleaving under a controlled scheduler that detects deadlock, self-deadlock and panics", CONC),
 "C08": ("explicit enumeration of builder histories, real builder and parser against an independent codec model", SEQ),
 "C09": ("explicit enumeration of every chunking of request streams on the real parser against an independent codec model", SEQ),
 "C10": ("exhaustive enumeration of byte strings and structured requests on the real parser and engine against a codec model", SEQ),
 "C11": ("explicit enumeration of values and errors, real encoder and decoder against an independent codec model", SEQ),
 "C12": ("explicit enumeration of every chunking of responses on the real decoder against an independent codec model", SEQ),
 "C13": ("exhaustive enumeration of byte strings and structured malformed responses on the real decoder against a codec model", SEQ),
 "C14": ("explicit enumeration of builder call sequences in lockstep with a model", SEQ),
 "C15": ("exhaustive enumeration of all numbers, names and values", SEQ),
 "C16": ("exhaustive enumeration of fragmentations, pipelinings, short writes and task orders of the real server on a simulated network", NET),
 "C17": ("exhaustive fault injection at every network operation and enumeration of connection histories of the real server on a simulated network", NET),
 "C18": ("exhaustive enumeration of poll orders, cancellation points and fragmentations of the real client on a simulated network", NET),
 "C19": ("explicit enumeration of client calls in reachable states, in-memory and networked client in lockstep with a model", NET),
 "C20": ("explicit enumeration of client call sequences on the real client in lockstep with a model", SEQ),
 "C21": ("exhaustive fault injection at every network operation of the real client on a simulated network", NET),
 "C22": ("explicit enumeration of operation sequences in lockstep with a model, and of every interleaving under a controlled scheduler with linearizability", CONC),
 "C23": ("explicit enumeration of operation sequences in lockstep with a model, and of every interleaving under a controlled scheduler", CONC),
 "C24": ("explicit enumeration of command and session histories in lockstep with a model, and of every interleaving under a controlled scheduler", CONC),
 "C25": ("explicit enumeration of operation sequences in lockstep with a model, and of every interleaving under a controlled scheduler", CONC),
 "C26": ("explicit enumeration of all operation sequences over a controlled clock in lockstep with a model", SEQ),
 "C27": ("exhaustive enumeration of bounded command lines on the real parser against a grammar model", SEQ),
 "C28": ("explicit enumeration of command lines in reachable states on the real interface in lockstep with a model", SEQ),
 "C29": ("explicit enumeration of operation sequences on the real store in lockstep with a model", SEQ),
 "C32": ("explicit enumeration of all histories of building and using engines in lockstep with a model", SEQ),
 "C31": ("exhaustive enumeration of inputs, fragmentations, short writes and faults of the real program on simulated standard streams", NET),
 "C30": ("exhaustive enumeration of configurations of the real server on a simulated network", NET),
}
DONE = json.load(open(os.path.join(HERE, "tools", "done.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
hook = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%H %s"], text=True)
m = {
 "version": 1,
 "setup_cmd": "cargo --version && rustc --version && python3 --version",
 "hooks": {
  "guard": "--cfg hop_verif",
  "enable": "RUSTFLAGS='--cfg hop_verif'",
  "source_commits": [l.split()[0] for l in hook.splitlines() if l.split(" ", 1)[1].startswith("hook:")],
 },
 "checks": [],
 "not_applicable": [],
 "notes": "Every check builds its checker from /repo's working tree into /verif/.build and runs it; ./check replay FILE runs a recorded case again.",
}
for p in props:
    if p in DONE:
        m["checks"].append({"property": p, "quick_cmd": f"./check {p} quick", "thorough_cmd": f"./check {p} thorough",
            "technique": "model checking: " + T[p][0], "level": DONE[p] if isinstance(DONE, dict) else "model_checking", "level_note": T[p][1].strip()})
    else:
        m["not_applicable"].append({"property": p, "reason": "Not claimed yet: its check is being built."})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
