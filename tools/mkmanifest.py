#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (no check runs this)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "MANIFEST.json")
DE = "TLA+ specification of decoding (Xml, Denote, Outcome), TLC judges recorded deserializations of generated documents"
SE = "TLA+ specification of encoding (Encode), TLC judges recorded serializations of generated values"
TRUST = ("Trusted: the translation of declarations to the specification's types and to Rust (both from one catalogue), the rendering of tokens to bytes, the harness that prints values, TLC. "
         "Assumes the declarations of the catalogue stand for the declarations users write; inputs are generated from a seed, so what was not generated was not explored.")
C = [
 ("D01", DE + "; token- and byte-level corruptions, truncations, deep and large inputs", "Every run must end in a value or an error, and the one the specification gives for what the parser could deliver. "),
 ("D02", DE + "; unknown, homonymous and misplaced content", ""),
 ("D03", DE + "; multiplicities and every interleaving of children", ""),
 ("D04", DE + "; literals around every range end, all 8-bit numbers, malformed literals, in every position", ""),
 ("D05", DE + "; prefixes, default namespaces and re-bindings", ""),
 ("D06", DE + "; homonymous attributes, children and text", ""),
 ("D07", DE + "; all short contents of enumeration elements", ""),
 ("D08", DE + "; splits of content between parents and flattened fields", ""),
 ("D09", "TLA+ specification of the information content of a document (Xml); several spellings and byte schedules of each document must give the one specified outcome", ""),
 ("D10", DE + "; every cut of a document, every read error position, damage after the element", ""),
 ("D11", "TLA+ machine of the cursor (Cursor), TLC enumerates its behaviours and they are replayed on the real deserializer; recorded longer runs are checked against it", "Exhaustive for call sequences and documents within the model's bounds, sampled beyond. "),
 ("D12", DE + "; hand-written and derived nested deserializers that stop early", ""),
 ("D13", DE + " and their serializations; newtypes of every inner type", ""),
 ("S01", SE, ""),
 ("S02", SE + "; character data from an alphabet of markup, controls and supplementary characters; read back by an independent parser (expat)", ""),
 ("S03", SE + "; default, skipped and ordinary values of each field in turn and together", ""),
 ("S04", "TLA+ specification of presentation (Present): all entry points and settings of one value are judged together", ""),
 ("S05", "TLA+ machine of a writer (Sink): TLC enumerates scripts of short, interrupted and failing writes that are replayed under the real serializer; recorded runs with a failure at every byte are checked against it", "Failure positions are complete for the generated documents. "),
 ("S06", "TLA+ machine of the serializer's registers (Emit), TLC enumerates its behaviours and they are replayed on the real serializer; recorded longer runs are checked against it", "Exhaustive for call sequences within the model's bounds, sampled beyond. "),
 ("S07", SE + "; names resolved by an independent namespace-aware parser", ""),
 ("R01", "TLA+ theorem Decode(Encode(v)) = v checked by TLC on each generated value together with the recorded round trip of the real code (RoundTrace)", ""),
 ("R02", "TLA+ specification of decoding and encoding: TLC judges what was read, written and read again", ""),
 ("C01", "random declarations are translated to Rust and to the TLA+ specification; they must compile, and TLC judges recorded runs of each", ""),
]
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [{"property": p, "quick_cmd": "python3 run.py check " + p, "thorough_cmd": "python3 run.py check %s thorough" % p, "evidence_file": "evidence/%s.json" % p,
                 "technique": t, "level": "model_checking", "level_note": n + TRUST} for p, t, n in C],
     "not_applicable": [],
     "notes": "No hooks: everything is observed through yaserde's public interface. Known findings and repairs: known_findings.txt. See DESIGN.md."}
with open(OUT, "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
