#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "C01": ("explicit-state exploration of all delivery orders of real sessions",
            "Exhaustive over delivery, cached-delivery and finalization orders within the listed protocol shapes (2-4 parties, up to 4 rounds); trusts the harness protocol, ideal signatures and state merging by complete debug rendering."),
}

EVID_T = "exhaustive enumeration of the evidence an adversary can assemble from every signed part of the reachable sessions, each judged by the real Evidence::verify"
CHECKS["C04"] = (EVID_T, "Exhaustive over single replacements, pairs and signature/metadata/content recombinations of all parts of the listed shapes and attack families; the oracle knows which parts every party really signed. Trusts ideal signatures (the harness scheme) and that the harness protocol's evidence format stands for the one of real protocols.")
OPEN_T = "explicit-state exploration of the real Session against an environment sending any sequence of menu messages, in lock-step with a reference model"
OPEN_N = {
    "C02": "local errors and panics are looked for",
    "C03": "the accused are compared with the parties that deviated",
    "C05": "every evidence in every reachable report is verified in memory, through JSON and through the binary format",
    "C06": "echo rounds against equivocation and false echoes, at one node against arbitrary others",
    "C07": "every kind of part substitution, recombination and signature alteration",
    "C08": "every message may be repeated any number of times at every moment",
    "C09": "all continuations after a recorded error",
    "C10": "all arrivals of early messages including across echo rounds",
    "C11": "the answer is compared in every state",
    "C12": "the report is taken in every state, as terminated and as not-enough-messages",
    "C18": "the arguments of every finalize call are compared with what was sent",
    "C19": "every combination of present, missing and undecodable parts",
}
for k, v in OPEN_N.items():
    CHECKS[k] = (OPEN_T, f"Exhaustive (to closure) within the listed shapes and menus; {v}. Trusts the reference model's rules (compared with the real session on every transition), ideal signatures, and state merging by complete debug rendering plus model state.")
CHECKS["C22"] = ("explicit-state exploration of the real Session with protocols requesting every combination of required message parts, plus exhaustive enumeration of assembled evidence judged by the real Evidence::verify", "Exhaustive within the listed shapes, requirement sets and attack families; what the library hands to the protocol's verifier is recorded and compared with what the parties signed. Trusts ideal signatures.")
CHECKS["C17"] = ("exhaustive enumeration of small inputs and of all single edits of serialized messages and evidence, handled by the real code", "Exhaustive: all pair lists up to a length, all messages and evidence of the configurations round-tripped, all one-byte edits (quick: one-bit and edge values in binary), all single JSON subtree replacements, all round identifiers up to depth 6, damaged contents with valid signatures. Sampling is nowhere used; multi-byte edits beyond one subtree are outside the bound.")
ASYN_T = "stateless exploration of the real asynchronous runners: every scheduling choice of a controlled executor within a bound on deviations, compared with the exhaustively explored session API"
CHECKS["C13"] = (ASYN_T, "Exhaustive over the schedules with at most the stated number of deviations from the default schedule (task switches and select branches) for every arrival order and configuration listed; blocking points, offloaded work and channel operations are choices. Trusts the replacement of the async executor (a stand-in for the tokio crate with the same interface and documented semantics).")
CHECKS["C14"] = (ASYN_T, "As C13, with the cancellation requested at every scheduling point; reports are compared with the set of reports of a session terminated by hand after as many messages. Same trust as C13.")
CHECKS["C20"] = ("exhaustive enumeration of the random choices of the real synchronous runner, reports compared with independently computed ones and with the exhaustively explored hand-driven system", "Every sequence of choices (for larger configurations up to the stated number of non-default ones) for 1 to 4 parties in all listed shapes, with honest and offending parties. Choices are intercepted in a copy of the rand crate; a runner choosing in another way is executed once per configuration.")
CHECKS["C21"] = ("stateless exploration of the real asynchronous system runner: every scheduling choice and every pick of the dispatcher within a bound on deviations", "Exhaustive over schedules and picks with at most the stated number of deviations, for 1 to 4 parties in all listed shapes, with honest and offending parties, in both processing modes. Trusts the replacement of the async executor (a stand-in for the tokio crate with the same interface and documented semantics).")
CHECKS["C16"] = ("explicit-state exploration of pairs of real systems in lock-step: sessions of wrapped entry points and sessions of the plain protocol with the same deviations built in", "Exhaustive over delivery, cached-delivery and finalization orders (2 parties all nodes, 3 parties all orders at each node), subsets of extended rounds and single and double deviations in the listed shapes and chains; a wrapped node is also explored against all menu messages. Messages, answers, calls, reports and evidence are compared at every state.")
CHECKS["C15"] = ("explicit-state exploration of real chained sessions: honest executions, executions with offending parts and one node against a menu of messages, compared with a reference model in which a chain is the sequence of its parts and with the parts executed by themselves; enumeration of evidence assembled across parts", "Exhaustive over delivery, cached-delivery and finalization orders for chains of 2 and 3 parts (both nestings), 2 parties all nodes and 3 parties all orders at a node, in the listed combinations of message parts; hostile messages are those of the menu, evidence is assembled from every signed part of two executions.")
NA = {}
props = [json.loads(l)["id"] for l in open(f"{ROOT}/properties.jsonl")]
m = {
    "version": 1,
    "setup_cmd": "cd mc && CARGO_TARGET_DIR=$PWD/target cargo build --release --offline",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"env VERIF_TIER=thorough ./check.sh {p}",
            "technique": t,
            "level": "model_checking",
            "level_note": n,
        }
        for p, (t, n) in sorted(CHECKS.items())
    ],
    "not_applicable": [
        {"property": p, "reason": NA.get(p, "the check is not built yet")} for p in props if p not in CHECKS
    ],
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
open(f"{ROOT}/MANIFEST.json", "a").write("\n")
