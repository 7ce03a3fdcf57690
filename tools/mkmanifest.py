#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: CLAIMED names the deciding method of each claimed property, NA the reason for the rest."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
AI = "abstract interpretation of the LLVM IR (memory regions + linear inequalities, disjunctive states, inferred loop invariants), function contracts"
NOTE = "Every obligation of the listed runs is discharged for all inputs of the entry points; trusts the models of libc and system calls, assumes allocation succeeds, and covers the stated shapes of route tables and header sets. "
CLAIMED = {
    "C01": (AI, NOTE), "C02": (AI, NOTE + "The head is checked byte by byte as a symbolic text."), "C03": (AI, NOTE + "Digits of printed numbers are symbolic."),
    "C04": (AI + "; connection typestate in ghost state", NOTE), "C05": (AI + "; heap block typestate and reachability", NOTE),
    "C06": (AI + "; cleanup typestate in ghost state", NOTE), "C07": (AI + "; cursor in ghost state", NOTE),
    "C08": (AI + "; dispatch recorded in ghost state", NOTE + "Four routes, every combination of matching patterns, six request verbs, five kinds of not-found route."),
    "C23": (AI + "; table of documented types as oracle", NOTE + "Paths of every length for safety; 23 named paths for the type itself."),
    "C10": (AI + "; queues, connections and requests as typestate in ghost state; each thread run at once and as late as possible", NOTE + "One to three workers; the other threads are represented by what they may put into or take out of a queue."),
    "C11": (AI + "; wait-for order between threads and queues and lock depth in ghost state", NOTE + "One to three workers; a queue that another thread drains counts as making room."),
    "C12": ("inclusion-based points-to over the LLVM IR with locksets; call-graph reachability of non-reentrant library calls; abstract interpretation with shared objects frozen", "Every store and call reachable for a request is examined; library functions with state of their own are a list."),
    "C19": ("symbolic evaluation of the binding's syntax tree against the C types of the library's debug information", "Object lifetimes on the Python side (callbacks kept alive) are outside the property; values of unknown type are taken to be what the declared argument type accepts."),
    "C20": ("dataflow of format texts over the LLVM IR against a grammar of conversions and machine types; abstract interpretation of the formatting calls' buffers", "Texts reached through the heap or parameters of exported functions count as data unless every caller in the tree passes a constant."),
    "C14": (AI + "; the hash is an unknown function of the key, every coincidence of slots is a case", NOTE + "Three tracked keys of every length and content with up to four stores and one other entry; tables of 1 to 64 slots, growth up to 64."),
    "C15": (AI + "; bytes tracked by origin", NOTE + "Element sizes 1, 3, 8 and 552; any capacity and number of elements; order after reversing for up to six elements."),
    "C16": (AI + "; caller's context frozen", NOTE + "Rendering is analysed function by function; regular expressions are represented by what their text says about each match. "),
    "C18": (AI + "; heap block typestate, one internal function at a time", NOTE + "Lines and inserted texts below 2^28 bytes, rendered texts below 2^40; regular expressions are represented by what their text says about each match. "),
    "C09": (AI, NOTE), "C13": (AI + "; ranking by bounded progress per loop", NOTE + "Termination is shown for the loops of the runs listed."),
    "C17": (AI, NOTE), "C21": (AI, NOTE), "C22": (AI + "; every modelled system call may fail", NOTE), "C24": (AI, NOTE), "C29": (AI + "; every failure of a call has every cause in ghost state", NOTE),
    "C30": (AI + "; bytes tracked by origin, positions found by searches traced", NOTE + "Which occurrence a search finds is not decided; a part found otherwise than with strnstr is not compared for its start and end."),
}
PENDING = "no check is registered yet; see DESIGN.md for how it is to be decided"
NA = {
    "C25": "the truth of a condition is a function of run-time text; which branch lets its text through inside nested contexts is pinned by the existing tests to the inverted answer, so there is no static rule that the code could satisfy",
    "C26": "equality of the rendered text with a specification of the template language is full functional correctness over regular-expression matches on run-time text; no sound static argument in reach bounds it",
    "C27": "an inverse-function property of byte transformations on run-time values; a static argument would have to compute the values",
    "C28": "fairness and delay depend on the scheduler, the peers' speed and queue priorities at run time, which the source does not bound",
}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        t, n = CLAIMED[i]
        checks.append({"property": i, "quick_cmd": "python3 checks/check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 checks/check.py " + i,
                       "technique": t, "level": "other", "level_note": n.strip()})
    else:
        na.append({"property": i, "reason": NA.get(i, PENDING)})
json.dump({"version": 1, "setup_cmd": "mkdir -p build && make -s -C engine B=../build -j8", "checks": checks, "not_applicable": na,
           "notes": "All checks read /repo's current sources; nothing is executed. known_findings.txt lists repaired and open defects."}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed,", len(na), "not")
