#!/usr/bin/env python3
"""Writes bin/models.json: which models are checked for each property, and which of their
behaviours are replayed into the code."""
import json, os

KEEP = ["Apart", "QueriesKeep"]
M = {}


def add(props, **m):
    for p in props.split():
        M.setdefault(p, []).append(m)


def hist(props, alphabet, module="MCLife", inv=(), prop=(), view=False, quick=3, thorough=4, cap=None, timeout=600):
    e = {"module": module, "alphabet": alphabet, "inv": list(inv), "prop": list(prop), "view": view,
         "L": {"quick": quick, "thorough": thorough}, "timeout": timeout}
    if cap:
        e["cap"] = {"quick": cap[0], "thorough": cap[1]}
    add(props, **e)


# the cuts: every small dictionary; the code's algorithms, transcribed, against the specification
hist("C02 C06 C11", "dict", "MCCut", ["CutInv"], quick=2, thorough=3)
hist("C02 C06 C09 C11", "mixed", "MCCut", ["CutInv"], quick=2, thorough=3, timeout=800)
# behaviours: every small dictionary, replayed
for p in "C02 C03 C06 C07 C09 C10 C11 C15 C20 C21 C29".split():
    hist(p, "dict", view=True, quick=2, thorough=3, cap=(100, 3000))
    hist(p, "mixed", view=True, quick=2, thorough=3, cap=(100, 3000))
# edit histories
hist("C12", "edit", inv=["Inv"], prop=KEEP, quick=4, thorough=5)
hist("C12", "edit", view=True, quick=4, thorough=6, cap=(1500, 20000))
# loading, emptying, editing
hist("C14", "life", inv=["Inv"], prop=KEEP, quick=4, thorough=4)
hist("C14", "life", view=True, quick=4, thorough=5, cap=(700, 8000))
# stop words
hist("C16", "stop", inv=["InvStops"], prop=KEEP, quick=4, thorough=5)
hist("C16", "stop", view=True, quick=4, thorough=5, cap=(1500, 20000))
# queries between edits of another segmenter
hist("C27", "calls", prop=KEEP, quick=4, thorough=5)
hist("C27", "calls", quick=3, thorough=4, cap=(800, 8000))
# texts
for p, a, q, t, cap in [("C01", "text1", 4, 5, (1600, 9400)), ("C04", "text1", 4, 6, (1600, 15000)), ("C05", "text1", 4, 5, (1600, 9400)),
                        ("C08", "hmm", 4, 5, (1500, 12000)), ("C17", "filter", 3, 5, (830, 20000)), ("C28", "paths", 3, 4, (600, 4700))]:
    hist(p, a, "MCText", ["Inv"], quick=q, thorough=t, cap=cap)

# the recurrence of the HMM cut is the minimum over all state paths: every model of two characters
add("C08", module="MCHmm", inv=["VitRight"], const=["CT <- NoCT", "VALS <- MCVals"], L={"quick": 3, "thorough": 4}, timeout=800)
# the same for the model of parts of speech
add("C29", module="MCPosVit", inv=["VitRight"], const=["CT <- NoCT", "XP <- MCXP", "PM <- MCPM"], L={"quick": 3, "thorough": 4}, timeout=800)


# the lock protocol of shared state, and that each part of it is needed
def locks(p, mode, cells):
    def lock(fault, inv, prop=(), spec="Spec", n=(2, 2, 2), L=(1, 2), bad=None):
        e = dict(module="MCLock", inv=list(inv), prop=list(prop), spec=spec, timeout=800, L={"quick": L[0], "thorough": L[1]},
                 const=["CELLS = %d" % n[0], "WRITERS = %d" % n[1], "READERS = %d" % n[2], 'MODE = "%s"' % mode, 'FAULT = "%s"' % fault])
        if bad:
            e["bad"] = bad
        add(p, **e)
    lock("none", ["Inv"], n=(cells, 2, 2), L=(2, 3))
    lock("none", ["Inv"], ["Ends"], "FairSpec")
    for f in ["noread", "nowrite", "each"]:
        lock(f, ["Inv"], L=(2, 2), bad=f)


locks("C24 C25", "swap", 4)
locks("C26", "edit", 3)

json.dump(M, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "bin", "models.json"), "w"), indent=1)
