"""Source of MANIFEST.json (run to regenerate).  A property is claimed as soon as checks/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {}
TECH = {}
SAN = "ASan+UBSan build of the real library"
def t(i, tech, note):
    TECH[i], NOTE[i] = tech, note
t("C01", "runtime monitoring: text-conservation monitor over generated sources, " + SAN,
  "Random exploration of tens of thousands of sources per run; the oracle is an independent expat reader and the source itself. Nothing is proved for inputs not generated; nesting of brackets is bounded (known finding of C03).")
t("C02", "runtime monitoring: vocabulary, namespace and well-formedness monitor on documents written, " + SAN,
  "Random exploration; documents judged by expat and a vocabulary taken from the documented element list. Trusts expat and the vocabulary table.")
t("C03", "sanitizers (ASan, UBSan) with hostile inputs, watchdog, control-text and heap-growth monitors",
  "Random exploration of byte strings; a hang is a case that exceeds 25 s and again 75 s alone. Exponential lookahead on deep nesting is a known finding and excluded by bounding the nesting.")
t("C04", "runtime monitoring: differential oracle over channels and chunkings, callback event counters, " + SAN,
  "Random exploration; every channel and random chunk plans (one byte at a time included) compared with memory.")
t("C05", "runtime monitoring: Python codecs as decoding/encoding oracle, " + SAN, "Random exploration over encodings x BOM x texts; trusts Python's codecs.")
t("C06", "runtime monitoring: reference model (hashlib, line count, extension registry) over API histories, " + SAN, "Random exploration; model written from the documentation.")
t("C07", "runtime monitoring: model-based checker of read/skip/body histories with perturbed schedules, " + SAN, "Random exploration of histories with injected delays and spurious wake-ups.")
t("C08", "runtime monitoring: metadata model compared with getters and expat reading of the document, " + SAN, "Random exploration of attribute assignments.")
t("C09", "runtime monitoring: line/column oracle recomputed from the text, " + SAN, "Random exploration; trusts expat and the recomputation.")
t("C10", "runtime monitoring: history-independence monitor (same case fresh and after random history), " + SAN, "Random exploration of histories within one process.")
t("C11", "ThreadSanitizer and result monitor over concurrent workloads with injected delays", "Races on executed interleavings; deadlock by watchdog; results compared with sequential runs.")
t("C12", "sanitizers with fault enumeration of truncation points, leak/descriptor/thread monitors, injected schedules", "Every truncation point of small documents, random damage of others.")
t("C13", "runtime monitoring: state-model checker over random API histories, " + SAN, "Random exploration of call sequences; getter values compared with a model.")
t("C14", "fault injection at every byte offset with status/prefix/close/leak monitors, " + SAN, "Every failure offset for small documents on every channel, sampled for others.")
t("C15", "runtime monitoring: libxml2/libxslt evaluated independently as oracle, " + SAN, "Random expressions, style sheets and schemas over random units; trusts libxml2/libxslt.")
t("C16", "runtime monitoring: model tree compared with expat reading over random write-API histories, " + SAN, "Random exploration.")
t("C17", "runtime monitoring: Python extraction model on generated srcDiff documents, " + SAN, "Random exploration of difference nestings.")
t("C18", "runtime monitoring: end-of-line model on unparsed bytes, " + SAN, "Random exploration of texts x settings x encodings x channels.")
t("C19", "runtime monitoring of the real client under random delays: output archive against the expected units, exactly-once/order checker over the event log, ASan+UBSan and ThreadSanitizer", "The option parser (CLI11) and thread pool (CTPL), not installed here, are replaced by stand-ins; runs as an unprivileged user in a scratch directory.")
t("C20", "runtime monitoring: generated programs with the markup expected from the documented grammar, compared element by element with the parser's output, " + SAN, "Random compositions of ordinary constructs of C, C++, C# and Java; constructs with known parser defects are not generated.")
t("C21", "runtime monitoring: reference model of the extraction, list and metadata options against standard output and the files written by the real client, ASan+UBSan", "The option parser (CLI11) is not installed and replaced by a stand-in with the same options; runs as an unprivileged user in a scratch directory.")
t("C22", "runtime monitoring: differential oracle - output of the real client under random option and input combinations against the document the library builds through its API, ASan+UBSan", "The option parser (CLI11) is not installed and replaced by a stand-in with the same options; the library side is judged by the other properties.")
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for i in ids:
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=TECH[i], level="fault_enumeration" if i in ("C14",) else "exploration", level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 lib/vbuild.py full tsan", hooks=dict(guard="none", enable="no hooks: the checks compile /repo's sources as they are", source_commits=[]),
         checks=checks, not_applicable=na, notes="All checks rebuild the library from /repo's working tree with sanitizers into .build/ (git-ignored). Known findings: known_findings.txt.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
