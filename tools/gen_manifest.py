#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table below (only properties whose check exists)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "checks"))
SUM = ("abstract interpretation of the LLVM IR into closed-form summaries (induction and recurrence solving, symbolic memory segments, polyhedral entailment) "
       "compared with a specification term")
SUMN = ("Loops are collapsed symbolically, so the summary covers every length and setting; equality with the specification is decided by normal form where "
        "possible and otherwise by identity testing of the two terms at pseudo-random and special assignments. Trusts clang's front end, the summariser and real arithmetic for floats. "
        "Parts the analysis cannot summarise are listed as undecided in the evidence and do not raise alarms.")
FLOW = "path-sensitive dataflow / typestate / effect analysis on the LLVM IR control-flow graph and call graph"
TABLE = {}
def add(ids, tech, note):
    for i in ids.split(): TABLE[i] = (tech, note)
add("K01 K02 K03 K04 K05 K06 N01 N02 N03 N04 N05", SUM, SUMN)
add("T01 T02 T03 T04 T05 T06 T07", SUM, SUMN + " OpenMP builds are analysed through the outlined functions of their parallel regions.")
add("N06", SUM + "; interval analysis of every operation for NaN and infinity", SUMN)
add("N07", SUM.replace("compared with a specification term", "with every memory access's offsets decided against its object's size by linear entailment"), SUMN)
add("R02", "interprocedural effect (mod/ref) analysis over the call graph, write-set summaries by abstract interpretation, and access-conflict analysis of the OpenMP outlined functions", SUMN)
add("F07", "interprocedural backward taint dataflow on the LLVM IR from format-string parameters to the origins of their text",
    "Field-insensitive for heap objects (any string read from a struct field counts as external text); flow-insensitive for local buffers.")
PATH = ("path-sensitive dataflow with typestate (heap blocks, files, archives) on the LLVM IR: abstract states with loop generalisation to a fixpoint, linear entailment at every access; "
        "violations are reported only for one concrete feasible path")
PATHN = ("Library calls are replaced by models that admit every documented outcome. Loops over unbounded data are generalised; the number of elements of lists, of layers and of similar containers is "
         "enumerated up to a small bound (recorded in the evidence) and generalised above it where possible. Obligations neither proved nor refuted are listed as undecided in the evidence and raise no alarm.")
add("R01 F01 F02 F03 F04 F05 F06", PATH, PATHN)
NA = {
 "A01": "Numeric agreement with an external reference framework quantifies over floating-point rounding of whole training runs; no static argument in reach bounds it.",
 "A02": "Convergence of training on a learnable problem is a statement about runtime trajectories of an optimisation process, not about the shape of the code.",
 "A03": "The distribution of shuffles and initial weights depends on the statistical quality of rand(); no static analysis decides it.",
}
NA.update({
 "T08": "Memory safety, ownership and reporting of the logger are analysed under R01; that every log line is complete and that resuming finds the last epoch for any text needs the meaning of scanf-style parsing of arbitrary lines, which the analysis does not model.",
 "K07": "Alignment of vector accesses depends on addresses of stack objects, OpenMP copies and caller buffers after code generation; the IR-level divisibility analysis this needs was not built (the concrete misalignment found while reading was repaired, see known_findings.txt).",
})
if __name__ == "__main__":
    ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
    import importlib
    have = set()
    for m in ("kernels", "network", "training", "safety", "files"):
        if os.path.exists(os.path.join(V, "checks", m + ".py")):
            mod = importlib.import_module(m)
            have |= {i for i in ids if hasattr(mod, i)}
    checks = []
    for i in ids:
        if i in have and i in TABLE:
            t, n = TABLE[i]
            checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s" % i, thorough_cmd="python3 checks/run.py %s" % i, technique=t, level="other", level_note=n))
    na = [dict(property=i, reason=NA.get(i, "No check built yet.")) for i in ids if i not in {c["property"] for c in checks}]
    out = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
    json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")
