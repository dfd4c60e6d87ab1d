"""Writes MANIFEST.json from the check modules and properties.jsonl."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
T = {
 "C01": "property-based testing: generated projects and recipe timings, history checked against a reference dependency closure",
 "C02": "property-based testing: generated projects, recipe log and target tree compared with a reference model",
 "C03": "stateful property-based testing: generated histories of edits, failures and kills, differential against the reference content of a clean build",
 "C04": "property-based testing: generated projects and file times, recipes run compared with a reference decision",
 "C05": "fault injection over generated projects: generated failing recipes, history checked against the reference closure",
 "C06": "property-based testing: one generated error planted in a generated project, reference verdict",
 "C07": "structured fuzzing: generated C++ text with the include list known by construction, run through the sanitized scanner in random pieces",
 "C08": "structured fuzzing: generated text with tag and source streams known by construction",
 "C09": "structured fuzzing: generated JSON values and mutated texts against Python's json as oracle, round trip",
 "C10": "property-based testing: generated configuration sets against a reference merge, dump round trip",
 "C11": "property-based testing: generated child behaviour run concurrently through the sanitized exec code, byte for byte comparison",
 "C12": "differential property-based testing: printed commands run by a shell against the real build; file system snapshot",
 "C13": "property-based testing: generated target lists against the reference closure",
 "C14": "property-based testing: generated trees, filters and extension rules against a reference scan",
 "C15": "property-based testing: generated module structures against an independently computed closure and order",
 "C16": "metamorphic property-based testing: the same generated project built from different places",
 "C17": "structured fuzzing of command lines against a reference reading of them",
 "C18": "stateful property-based testing of the stream classes under AddressSanitizer and ThreadSanitizer against a byte queue model",
 "C19": "generated task programs under ThreadSanitizer and AddressSanitizer against an execution-count model",
 "C20": "property-based testing: generated graphs against a reference traversal",
 "C21": "property-based testing: arguments recorded by the recipes compared with a reference model",
 "C22": "fault injection and property-based testing over generated recipe placements and answers",
 "C23": "differential property-based testing: generated C++ projects and edits, programs' output against an interpreter of the generated structure",
 "C25": "stateful property-based testing with fault injection: generated files, commands, edits and failing tools, with recording stand-ins for the tools",
 "C26": "fuzzing: damaged projects, settings, recipe output and command lines run through the sanitized program",
 "C27": "property-based testing: what is printed about a generated project compared with a reference model; file system snapshot",
 "C28": "property-based testing: generated installations and projects, with recording stand-ins for compilers; each call against a reference",
 "C29": "stateful differential property-based testing: generated git histories, the log against what git says",
 "C30": "stateful property-based testing with fault injection: generated program texts, facts, edits and failures, pages compared with what must be in them",
 "C31": "structured generation of documents whose HTML is known by construction, made with the real xsltproc",
 "C32": "differential property-based testing: generated changes to the own sources against what g++ and nm report, generated projects with the rebuilt against the first program, generated installations",
 "C24": "property-based testing: generated recipe output, log parsed and compared with what the recipes wrote",
}
NOTE = ("Generated-input search, deterministic for a given VERIF_SEED except for scheduling: holds on every case explored, no proof beyond that. "
        "Trusts the reference model in vlib/proj.py or the check's own oracle, the recording recipe and the compiler used to build the tree. ")
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        m = importlib.import_module("checks." + i.lower())
        note = NOTE + ("Assumes: " + "; ".join(m.ASSUMPTIONS) + "." if m.ASSUMPTIONS else "")
        checks.append({"property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
                       "technique": T[i], "level": m.LEVEL, "level_note": note})
    else:
        na.append({"property": i, "reason": "the check is not built yet"})
json.dump({"version": 1, "setup_cmd": "python3-vt tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the checks use the program itself and the interfaces its unit tests use. Repairs are the fix: commits in /repo, listed in known_findings.jsonl."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks", len(na), "not claimed")
