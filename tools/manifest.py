#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (run by hand when a check is added)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = "Trusts the simulated NOR flash and the reference model in /verif/harness; explores generated cases only, within the stated bounds (mostly at most 8 small pages, some phases hundreds of pages, at most ~60 operations per history)."
CHECKS = {
 "P01": ("stateful model-based property testing (proptest) against a dictionary model", "exploration", "Every operation's result and the whole contents are compared with the model over generated histories, geometries, key types and caches. " + SIM),
 "P02": ("stateful property testing with a capacity oracle", "exploration", "The must-fit bound and the too-big bound are computed independently of the code; refused stores are followed by full comparison with the model. " + SIM),
 "P03": ("crash-point enumeration over generated histories (PBT with fault injection)", "fault_enumeration", "For generated histories every write/erase of the last operation is cut at every byte prefix class, plus random repeated failures; results are compared with old-or-new model worlds. " + SIM),
 "P04": ("cancellation/error-point enumeration over generated histories (PBT with fault injection)", "fault_enumeration", "Futures are dropped at every suspension point, flash accesses fail (with partial effect); the same instance goes on. " + SIM),
 "P05": ("stateful model-based property testing against a FIFO model", "exploration", SIM),
 "P06": ("stateful property testing with capacity and page-fill oracles", "exploration", SIM),
 "P07": ("crash-point enumeration over generated histories (PBT with fault injection)", "fault_enumeration", SIM),
 "P08": ("cancellation/error-point enumeration over generated histories (PBT with fault injection)", "fault_enumeration", SIM),
 "P09": ("differential property testing: cached against uncached instance", "exploration", "The oracle is the same library without cache, so only divergence between caches is decided here; P01/P05 tie the uncached one to the model. " + SIM),
 "P10": ("property testing on a simulated flash that enforces the NOR contract", "exploration", "Every access of every operation is checked for alignment, range, single write/multi-write rules and guard pages. " + SIM),
 "P11": ("property testing of the erase log of a simulated flash", "exploration", SIM),
 "P12": ("property testing with injected bit flips and an independent decoder", "exploration", SIM),
 "P13": ("structure-aware fuzzing of flash images", "exploration", "Panics, overflow and exceeding a flash access budget are violations. " + SIM),
 "P14": ("property testing against an independent encoder/decoder of the documented format", "exploration", SIM),
 "P15": ("round-trip property testing and byte fuzzing of all key/value codecs", "exploration", "Generated values and buffers; lengths up to a few hundred bytes."),
 "P16": ("stateful model-based property testing of the buffered queue", "exploration", SIM),
 "P17": ("schedule-generating property testing of the shared ring", "exploration", "Producers run at generated suspension points of the consumer and, as interrupts, when it leaves a critical section; between two of these nothing else can be observed. " + SIM),
 "P18": ("property testing of configuration validation over ranges and geometries", "exploration", "Geometries are a fixed list of compiled flash types; ranges are generated over all of u32. " + SIM),
 "P19": ("differential property testing with injected read glitches", "exploration", SIM),
 "P21": ("stateful model-based property testing with failing user types (PBT with fault injection)", "exploration", "Errors are injected at generated calls of serialize_into and deserialize_from of a test key and value type. " + SIM),
 "P22": ("differential property testing of flash reads: cached against uncached instance, and against what the cache must know", "exploration", "Undisturbed histories only. " + SIM),
 "P20": ("differential/model-based property testing with generated buffer sizes", "exploration", SIM),
}
DONE = os.environ.get("DONE", "").split() or list(CHECKS)
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build",
 "checks": [
  {"property": p, "quick_cmd": f"./check.sh {p}", "thorough_cmd": f"VERIF_TIER=thorough ./check.sh {p}",
   "technique": CHECKS[p][0], "level": CHECKS[p][1], "level_note": CHECKS[p][2]}
  for p in ids if p in DONE],
 "not_applicable": [{"property": p, "reason": "the check is not built yet"} for p in ids if p not in DONE],
 "notes": "No hooks in /repo: everything is observed through the public API and the flash trait. See DESIGN.md.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
