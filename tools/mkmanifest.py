#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table of methods below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
Q = "property-based testing (proptest tapes, shrinking)"
METHOD = {
    "C01": (Q + " against a model, plus enumeration of all small forests", "queries as data evaluated on the model tree; documents built directly and parsed"),
    "C02": (Q + " against a model, metamorphic mode switches, enumeration of small forests", "model evaluation of strict and recursive mode"),
    "C03": (Q + ": stateful sequences of interleaved queries and iterators against a model", "sequences of up to some 60 operations"),
    "C04": (Q + " against a model: repeated narrowing", "up to four levels of narrowing; the original document is dropped"),
    "C05": (Q + ": differential between patterns of the same meaning", "meaning of a pattern defined by the harness"),
    "C06": (Q + " against a model", "elements with up to 60 attributes"),
    "C07": (Q + ": laws of boolean algebra, truth tables enumerated", "user-defined and built-in filters nested at random"),
    "C08": (Q + " against the model tree", "all node types, arbitrary combinations of name, text, attributes and children"),
    "C09": (Q + " with user-defined parsers, nodes and text types", "four text types, one not a string"),
    "C10": (Q + ": round trip tree - random spelling - parse", "spellings cross-checked against an independent reference parser on every case"),
    "C11": (Q + ": metamorphic, two spellings of one element", "spellings cross-checked against the reference parser"),
    "C12": (Q + ": fault injection against a three-valued reference parser, plus enumeration of token sequences", "inputs on which the statement leaves the verdict open are not judged (DESIGN.md)"),
    "C13": (Q + " against a reference decoder, plus enumeration of all names and all code points", "names from the HTML standard (table of 2231)"),
    "C14": (Q + ": round trip with hostile contents", "contents up to some 10 fragments"),
    "C15": (Q + ": any-input fuzzing with repeat and exercise oracle, enumeration of stems", "stack overflow on great depth is a known finding"),
    "C16": (Q + " and enumeration of names around the special ones against the reference classification", "all letter cases of all special names"),
    "C17": (Q + ": any-input fuzzing with skeleton invariant", "stack overflow on great depth is a known finding"),
    "C18": (Q + ": differential against the html5ever tree", "html5ever is trusted as the HTML5 algorithm"),
    "C19": (Q + ": differential between the strict and the lenient parser", "documents of the common subset"),
    "C20": (Q + ": round trip tree - random spelling - parse, and changed documents and token sequences against a reference parser", "prefixed attributes colliding on a local name are a known finding"),
    "C21": (Q + " against a scope model", "random declarations, shadowing and unbound prefixes"),
    "C22": (Q + ": fault injection, changed documents and token sequences against a three-valued reference parser", "document type declarations and namespaces are left to the random faults; the reference parser leaves them open"),
    "C23": (Q + " with a scripted reader, enumeration of cut points", "UTF-8 and UTF-16"),
    "C24": (Q + ": any-input fuzzing with repeat and exercise oracle", "stack overflow on great depth is a known finding"),
    "C25": (Q + ": differential between four representations of one tree", "names that HTML5 allows to nest freely"),
    "C26": (Q + ": differential between builds with all 16 feature sets", "generated corpus, compared output for output"),
    "C27": (Q + ": metamorphic histories and threads against fresh processes", "schedules are those the system produces under stress, not enumerated"),
    "C28": (Q + ": scaling relation on counted allocations and on processor time", "allocations are counted; processor time only tells linear from quadratic growth"),
    "C29": (Q + ": pairs of documents that differ in one place, equality against that of the models", "equality, clone and clone_from of the crate's node types"),
    "C30": (Q + ": differential between entry points, string types and readers, plus enumeration of characters", "ten string types and entry points for lenient HTML, ten readers and entry points for XML"),
    "C31": (Q + ": nodes that record when they are looked at, against the model's positions, plus documents without end", "stops after every result, with next, nth, find, any, take, first and loops left early"),
    "C32": (Q + ": invariants of the error (what is before it parses, what is left is rejected), faults in known places, metamorphic shifts, plus enumeration of token sequences", "columns and messages of XML errors are not judged"),
    "C33": (Q + ": passes over documents with contents not seen before, bytes in use compared between passes", "memory of the parsing thread, counted by the allocator"),
}
NA = {}
claimed = os.environ.get("ONLY", "").split() or [p["id"] for p in props if p["id"] not in NA]
m = {
    "version": 1,
    "setup_cmd": "./check.sh build",
    "checks": [
        {
            "property": i,
            "quick_cmd": f"./check.sh {i}",
            "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": METHOD[i][0],
            "level": "exploration",
            "level_note": "Generated-input search with an explicit oracle: no counterexample among the cases counted in the evidence file. " + METHOD[i][1][0].upper() + METHOD[i][1][1:] + ".",
        }
        for i in claimed
    ],
    "not_applicable": [{"property": p["id"], "reason": NA.get(p["id"], "check under construction")} for p in props if p["id"] not in claimed],
    "notes": "Failures are written to replays/ and can be replayed with ./check.sh replay FILE. DESIGN.md describes every check.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
