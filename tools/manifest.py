import json,sys
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
T={
"C01":("bounded exhaustive enumeration of inputs, each executed on the real code; every execution must end with a result",),
"C02":("bounded exhaustive enumeration of inputs on the real code against an exact tiling oracle",),
"C03":("bounded exhaustive enumeration of inputs on the real code against an exact constraint-edge oracle",),
"C04":("bounded exhaustive enumeration of inputs on the real code against an exact in-circle oracle",),
"C05":("bounded exhaustive enumeration of inputs on the real code against an exact vertex and Euler-count oracle",),
"C06":("bounded exhaustive enumeration of inputs with outside points; differential against the run without them",),
"C07":("bounded exhaustive enumeration of inputs x all notations of each; differential against the base notation",),
"C08":("exhaustive enumeration of builder call sequences on the real code against a list model",),
"C09":("exhaustive enumeration of read call sequences on the real result against a cursor model",),
"C10":("bounded exhaustive enumeration of inputs; protocol automaton and rotation model checked on every callback trace",),
"C11":("bounded exhaustive enumeration of inputs; invariants checked in every sweep state visible to an observer",),
"C12":("exhaustive enumeration of histories, nestings and two-thread schedules up to two preemptions (at callbacks; at machine instructions for small inputs) on the real code",),
"C13":("exhaustive enumeration of files, corruptions and load histories on the real loader against a reference document",),
"C14":("bounded exhaustive enumeration of inputs x similarity maps; differential against the untransformed run",),
"C15":("bounded exhaustive enumeration of inputs on the real code built with f32 against the exact oracle",),
"C16":("exhaustive enumeration of valid and invalid point sequences on the real code in a sanitizer build and, for slices of it, under an interpreter that detects undefined behaviour",),
"C17":("bounded exhaustive enumeration of inputs; helpers compared with an exact reference in every visible sweep state",),
"C18":("enumeration of every size of a range per structured shape on the real code against the exact oracle",),
"C19":("bounded exhaustive enumeration of inputs; front queries compared with a linear scan in every visible sweep state",),
"C20":("bounded exhaustive enumeration of inputs; store and triangle queries compared with the raw data in every visible sweep state",),
}
GEO="Every member of the listed finite input families is executed on the real code (no model, no sampling) and decided in exact integer arithmetic; nothing is claimed for inputs outside of the families. Trusts the compiler, the explorer and its oracle."
N={
"C08":"All call sequences up to the depth are executed on the real code and compared with a list model; longer sequences are not covered.",
"C09":"All read sequences up to the depth on results of several inputs are executed on the real code and compared with a cursor model.",
"C12":"All histories up to the depth, all nestings at single callbacks and all schedules of two threads with at most two preemptions at callbacks are executed; for small inputs also all schedules with one preemption at a machine instruction and families of those with more. Interleavings inside of the C library and weak memory effects are not controlled.",
"C13":"All documents, corruptions, byte strings and load sequences within the bounds are loaded by the real loader and compared with the document they were made from.",
"C16":"Every point sequence on small lattices, valid or not, is executed in a build with AddressSanitizer and std's unsafe precondition checks; batches of members from every space are executed again by Miri, which also sees accesses inside of one allocation, reads of uninitialised memory and broken aliasing.",
"C18":"One member per shape and size, so a statement about these shapes at all sizes of a range, not about all inputs of that size. Decided exactly.",
}
m=dict(version=1,setup_cmd="./check.sh setup",checks=[],not_applicable=[],
 notes="No hooks: everything needed is reachable through the public API, the f32 feature and the Observer trait.")
for p in props:
    i=p["id"]
    m["checks"].append(dict(property=i,quick_cmd=f"./check.sh {i}",thorough_cmd=f"./check.sh {i}",evidence_file=f"evidence/{i}.json",
      technique="model checking: "+T[i][0],level="model_checking",level_note=N.get(i,GEO)))
json.dump(m,open("/verif/MANIFEST.json","w"),indent=1)
import jsonschema
jsonschema.validate(m,json.load(open("/root/.vp/MANIFEST.schema.json")))
