#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "P01": ("fuzzing under sanitizers", "Generated and mutated byte strings, all short Thai texts exhaustively, random option sets, in builds with address, undefined-behaviour and container checks."),
 "P02": ("property-based testing of an invariant", "Graph invariant evaluated on generated texts in both modes."),
 "P03": ("property-based testing against a direct specification", "Literals are predicted from the text alone."),
 "P04": ("property-based testing against an orthography model", "Every regular spelling of the model is enumerated (exhaustive over the model's 153,000 spellings in the thorough tier)."),
 "P05": ("model-based differential testing", "Reference reader written from the rules; differential over generated and exhaustively enumerated onsets."),
 "P06": ("model-based differential testing", "Reference reader written from the rules; differential over generated and exhaustively enumerated rimes."),
 "P07": ("model-based differential and metamorphic testing", "Reference reader; appended full stops as metamorphic relation."),
 "P08": ("model-based differential testing", "Reference reader restricted by the breaks libthai reports; trusts libthai's breaks."),
 "P09": ("metamorphic testing", "Whole against combination of parts, both read by the code."),
 "P10": ("model-based differential testing", "Generated dictionaries and texts against the reference reader with the same entries."),
 "P11": ("model-based testing", "Compiled dictionaries against a plain table, across builds of the compiler; trusts libdatrie's file format only through the code under test."),
 "P12": ("fuzzing with fault injection", "Generated input files with unusable lines and injected file faults; success must imply that every line is found."),
 "P13": ("stateful property-based testing with fault injection", "Dictionary files cut at every byte or replaced, loaded in generated orders; reference reader predicts the effect."),
 "P14": ("property-based testing (differential of two outputs)", "Expansion of grouped form against plain form over words and generated graphs."),
 "P15": ("stateful model-based testing", "Histories of operations on graphs against a model set."),
 "P16": ("property-based testing of algebraic laws", "Order axioms over generated sets of related strings; sorted-set model for alternatives."),
 "P17": ("exhaustive and random round-trip testing", "All syllables, several end positions; generated strings."),
 "P18": ("exhaustive testing against an orthography model", "All syllables; the respelling is looked up in an independent table of spellings."),
 "P19": ("exhaustive and property-based testing against a specification", "All syllables, all short strings over the elements that matter for hyphens, random strings."),
 "P20": ("exhaustive and property-based testing against a specification", "All syllables; generated strings."),
 "P21": ("property-based testing (differential, independent parser)", "Strict JSON parser, comparison with delimited output and element notation."),
 "P22": ("property-based testing of command lines", "Generated command lines and inputs against the outputs the library gives; metamorphic arguments/standard input."),
 "P23": ("stateful property-based testing (differential)", "Generated histories on shared analysers against fresh ones and fresh processes."),
 "P24": ("property-based testing with an operation counter", "Basic blocks executed, on generated and enumerated repetitive texts up to 200 letters, against a fixed quadratic bound with tenfold slack."),
 "P25": ("exhaustive and property-based testing against a model", "All shipped entries, all pairs of entries, generated contexts; table of irregular words."),
 "P26": ("stateful property-based testing with resource counters", "Generated lists of operations repeated in one process; exact counts of allocated blocks and open files."),
 "P27": ("property-based testing (differential of all notations against the graph)", "Paths are enumerated independently from the graph's edges."),
 "P28": ("stateful model-based testing", "Histories of operations on strings, alternatives, chains and lattices against immutable lists."),
}
checks = []
for i in sorted(TECH):
    t, n = TECH[i]
    checks.append({"property": i, "quick_cmd": "python3 harness/run.py %s quick" % i,
                   "thorough_cmd": "python3 harness/run.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "exploration",
                   "level_note": n + " Finds counterexamples; does not prove their absence beyond the enumerated domains."})
m = {"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks, "not_applicable": [],
     "notes": "Checks build /repo's working tree into /verif/build. Known findings: KNOWN_FINDINGS.txt. No hooks in /repo are needed."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
