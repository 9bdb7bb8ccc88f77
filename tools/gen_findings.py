#!/usr/bin/env python3
"""Writes known_findings.json; every entry so far is a repaired defect, which suppresses nothing."""
import json
F = [
 ("C01", "cb04aa2", "the nearest centroid search returned no centroid when a distance is negative"),
 ("C08", "5279df5", "cosinus distance was slightly negative, or above 2, by rounding"),
 ("C09", "2fc38ca", "an unconstrained DTW was constrained, or panicked, when the first series is the longest"),
 ("C11", "a7f3e2a", "random and ++ initializers panicked on a negative k and returned nil centroids"),
 ("C12", "b8eb4be", "the weighted choice returned -1 for a null draw and could run past the last weight by rounding"),
 ("C18", "14a06db", "Play kept the status locked when the initialization fails: every later call blocked"),
 ("C20", "7f2377e", "Batch lost the error of an algorithm that failed before it was waited for"),
 ("C18", "7b2ea6b", "Pause, Play, Stop blocked for ever when the run ended by itself at the same time, or a stop was acknowledged and lost"),
 ("C25", "b69a9aa", "the time-out of a run stopped a later run"),
 ("C18", "3bbf929", "Push deadlocked with the end of a run; the restart of a ready algorithm was lost (C21)"),
 ("C23", "19f6399", "the notifier could not use the algorithm (deadlock) and delayed or reordered status changes"),
 ("C22", "b9533dc", "runtime figures that had been read were modified later (data race, concurrent map access)"),
 ("C22", "c2010b3", "published streaming centroids were modified by further iterations"),
 ("C27", "a1c87b2", "a late distribution was read without synchronization"),
 ("C21", "031268a", "the 2001st push to a running algorithm blocked for ever; pushes raced with readers (C06, C22)"),
 ("C26", "c9908c5", "Copy ignored the given configuration and space and raced with the running original"),
 ("C21", "958adb4", "an element pushed right after a stop was stored before the elements staged until then (C06)"),
 ("C11", "757a3fa", "a kmeans++ draw without any element crashed instead of reporting the empty set (also C15)"),
 ("C26", "64878b0", "the copy of an algorithm with a data window dropped its newest elements first"),
 ("C30", "87a777f", "an initialization that asked for the status of the algorithm blocked for ever"),
 ("C20", "1191ae3", "a panic of the initialization left the algorithm locked: every later call blocked"),
 ("C28", "7d186a7", "the log-density of a t distribution was infinite or not a number beyond 340 degrees of freedom or dimensions"),
]
out = [{"property": p, "kind": "fixed", "commit": c, "what": w, "line": "fixed: property=%s %s %s" % (p, c, w)} for p, c, w in F]
json.dump(out, open("/verif/known_findings.json", "w"), indent=1)
open("/verif/known_findings.json", "a").write("\n")
