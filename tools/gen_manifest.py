#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="explicit-state model checking: bounded-exhaustive enumeration, every enumerated behaviour replayed on the real library and compared with a reference model"
SPEC=" Trusts the reference model (mc/model, self-tested against the official JSON Schema test suite in setup_cmd) and the stated alphabets and bounds."
C={}
def c(id,tech,note,level="model_checking"): C[id]=(tech,level,note)
c("C01",T,"Exhaustive over the alphabets of value keywords, numbers (notation, magnitude, precision), strings, positions and drafts listed per section in the evidence."+SPEC)
c("C02",T,"Exhaustive over combinations of array keywords, arrays up to a length and all placements."+SPEC)
c("C03",T,"Exhaustive over combinations of object keywords, member names and values, with the map order controlled."+SPEC)
c("C04",T,"Exhaustive over all nestings of combinators up to a depth over a set of leaf schemas and documents."+SPEC)
c("C05",T,"Exhaustive over reference spellings x target positions x identifier bases; targets are distinguishable, so the verdict identifies the resolved schema."+SPEC)
c("C06","explicit-state exploration of all histories of AddSchema/AddSchemas/Compile up to a depth on the real loader, with a recorded network stand-in, against a model of the pool","Exhaustive over operation sequences within the stated depth and document alphabet; HTTP is replaced by an in-process transport that records every fetch."+SPEC)
c("C07",T,"Exhaustive over (declared draft, configured draft, autodetection, keyword forms, reference directions)."+SPEC)
c("C08",T,"Exhaustive over keyword x value x position x draft; the model answers accept, reject or left open, and left-open cases never raise an alarm."+SPEC)
c("C09","explicit-state exploration of loader histories with meta-schema validation on, against the model evaluated on the meta-schema","Exhaustive over schemas, declared and configured drafts, operations and their order within bounds."+SPEC)
c("C10",T+" (error lists included)","The model predicts the exact multiset of errors with type, context, value and details; where the choice of the reported alternative is left open any one of the allowed sets is accepted."+SPEC)
c("C11","explicit-state exploration of all histories of locale replacement, template functions, rendering and user errors, against a model renderer","Exhaustive over error kinds x locales x histories within the bounds; templates are rendered by the model independently."+SPEC)
c("C12","stateless exploration of the real code under a controlled map-iteration scheduler (all iteration orders of the objects involved) and of all call histories up to a depth","Every range over a map in the library is replaced through a build overlay by an iteration whose order the explorer chooses; exhaustive up to the stated number of deviating loops and permutations. If a source change makes the overlay impossible the check falls back to Go's own orders and says so in the evidence.")
c("C13","stateless model checking of the real code: controlled goroutine scheduler, all interleavings up to a preemption bound, under the race detector, with a linearizability check","Every acquisition of a lock, Once or atomic of the library is a scheduling point (build overlay redirecting sync and sync/atomic); exhaustive over schedules of the listed scenarios up to the preemption bound. Race detection is the Go race detector on each explored schedule.")
c("C14","exhaustive fault injection: every loader x every fault point (open, each read position, short reads, statuses, connection, truncation) on the real code, compared with the sequential model of a load","Network and file system are in-process stand-ins that record opens, closes and reads.","fault_enumeration")
c("C15","explicit-state enumeration of all strings up to a bound (and all edits of accepted seeds), the real checker compared with an independent recogniser automaton","Exhaustive over alphabets and lengths listed per section.")
c("C16","explicit-state exploration of all Add/Remove/Has/IsFormat/Validate histories up to a depth against a map model","Exhaustive over names, checkers, operations and document types within the depth."+SPEC)
c("C17","bounded-exhaustive exploration of schema and document texts on the real library in a monitored child process (panic, fatal error, hang, ambiguous answer)","Exhaustive over keyword x hostile value x position x draft and over short JSON texts; reference loops that consume nothing are excluded as the property says.")
claimed=[i for i in sorted(C) if i not in PENDING] if (PENDING:=os.environ.get("PENDING","").split()) else sorted(C)
m=dict(version=1,setup_cmd="bash tools/setup.sh",checks=[dict(property=i,quick_cmd=f"./check {i} quick",thorough_cmd=f"./check {i} thorough",technique=C[i][0],level=C[i][1],level_note=C[i][2]) for i in claimed],
 not_applicable=[dict(property=i,reason="machinery for this property is still being built") for i in sorted(C) if i not in claimed],
 notes="No hooks in /repo: the instrumentation (map iteration order, scheduling points) is generated from the working tree at check time and compiled in with go build -overlay.")
json.dump(m,open(os.path.join(here,"MANIFEST.json"),"w"),indent=1); open(os.path.join(here,"MANIFEST.json"),"a").write("\n")
