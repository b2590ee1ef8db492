"""Writes MANIFEST.json (run by hand after a change)."""
import json
import os

import check

NOTE = {
    "C01": "randomised search with mutated and generated policy files under AddressSanitizer/UBSan with a CPU limit per run",
    "C02": "randomised search with mutated and generated support files, configurations and argument vectors under AddressSanitizer/UBSan",
    "C03": "grammar based generation of accepted policies, and single token slips with a location oracle",
    "C04": "line oracle from the renderer plus a metamorphic relation between two layouts of one policy",
    "C05": "metamorphic relation between a run with every check and one with a random selection, against a model of the selection rules",
    "C06": "metamorphic relation between runs without and with disable comments",
    "C07": "consistency of printed findings, summary and exit status over random option combinations",
    "C08": "metamorphic relation between permutations, repetitions and spellings of the arguments",
    "C09": "metamorphic relation between checking everything and giving a random part as context",
    "C10": "reference model of file discovery over random directory trees",
    "C19": "independent ordering model: minimality and justification of the reported lines over generated permutations",
    "C20": "reference model of the configuration settings over generated configuration files",
    "C21": "reference model of the symbol sources over generated support trees",
    "C22": "metamorphic relation between output options, and a format oracle",
    "C24": "metamorphic relation between two spellings of one random command line, and refusal of single mistakes",
    "C25": "metamorphic relation between a policy and its consistent renaming",
    "C23": "metamorphic relation between a policy alone and joined with unrelated policy",
}


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    reg = check.registry()
    checks = []
    for pid in sorted(reg):
        p = reg[pid]
        note = NOTE.get(pid, "independent reference model of the checks over generated policy projects, exact comparison of findings")
        tech = "property-based testing (black box): " + note
        if "asan" in p.flavours:
            tech = "structure-aware fuzzing: " + note
        checks.append({
            "property": pid,
            "quick_cmd": "python3 lib/check.py %s --tier quick" % pid,
            "thorough_cmd": "python3 lib/check.py %s --tier thorough" % pid,
            "technique": tech,
            "level": "exploration",
            "level_note": "The property held on every generated case of this run (%d quick, up to %d thorough) and on the regression inputs; no "
                          "assurance beyond the generator's domain. Trusts lib/gen.py, lib/pol.py and the oracle, and the gcc build of /repo/src."
                          % (p.cases["quick"], p.cases["thorough"]),
        })
    m = {"version": 1, "setup_cmd": "python3 lib/build.py", "checks": checks, "not_applicable": [],
         "notes": "Everything is deterministic in VERIF_SEED. No hooks are needed in /repo; repairs are the fix: commits listed in known_findings.jsonl."}
    with open(os.path.join(here, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
