"""writes MANIFEST.json (run by hand after changing the tables below)"""
import json
PROVED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17".split()
NOTE = ("Every obligation (postconditions of the casts, contracts of streams and allocator, memory safety, loop summaries) is generated on each run from the LLVM IR of /repo's headers instantiated on the schemas of "
        "spec/catalogue.py and discharged by z3, for all inputs, structs, stream lengths and loop iterations of those schemas. Not for all schemas: templates are verified as instantiated. "
        "Trusted: clang front end, engine/, spec/, contracts of operator new/delete, mem*, and the stream contract. Harnesses out of reach fall back to a bounded native check and are reported as bounded, not proved.")
extra = {
    "C17": " Both stream kinds are verified against the same postconditions; the pairwise claim follows.",
    "C04": " Known finding: dependencies on derived or frozen slots (KNOWN-FINDINGS.txt).", "C12": " Known finding, see KNOWN-FINDINGS.txt.", "C13": " Known finding, see KNOWN-FINDINGS.txt.", "C15": " Known finding, see KNOWN-FINDINGS.txt.",
}
checks = []
for p in PROVED:
    checks.append(dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"./check {p} --thorough", technique="contract-based deductive verification of the compiled templates (VC generation from LLVM IR, z3)", level="proof", level_note=NOTE + extra.get(p, "")))
for p, t in (("C18", "schema acceptance rules"), ("C19", "accessor rules")):
    more = (" In addition the constexpr functions that carry the rules (unique ids, types and case values, precedence of dependencies, and the set, map, search and sort under them) are under contract and proved by the "
            "engine for every content at stated numbers of elements; a counterexample becomes a schema given to the compiler.") if p == "C18" else ""
    checks.append(dict(property=p, quick_cmd=f"./check {p}", thorough_cmd=f"./check {p} --thorough", technique=("contracts on the constexpr functions behind the rules (VC generation from LLVM IR, z3) and " if p == "C18" else "") + "bounded enumeration of schemas decided by the compiler (stand-in: the rule is carried by types)", level="exploration",
                       level_note=f"Bounded: the {t} are template constraints evaluated by the compiler, so there is no run-time state to put a contract on; enumerated families of schemas, each compiled against the current headers, stand in. Not a proof for all schemas." + more))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3' && test -x /usr/bin/clang++-18 && test -x /usr/bin/g++-14", checks=checks, not_applicable=[],
         notes="No hooks in /repo. KNOWN-FINDINGS.txt lists findings and fixes. DESIGN.md describes the machinery.")
json.dump(m, open("MANIFEST.json", "w"), indent=1)
