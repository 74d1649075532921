#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
T = {
"C01": ("online verdict monitor on real ceremonies", "every verification of a prefix of hundreds of random ceremonies (powers 1-11, chains, transformed bases, batch sizes 2 and up) must succeed"),
"C02": ("conservation monitor: known scalars divided out of the output", "the inputs' scalars are known to the monitor, so all of the output is decided, by pairings under 128-bit random weights; error below 2^-100"),
"C03": ("adversarial files, verdict monitor with an exponent-arithmetic oracle", "forged ceremonies with known secrets; each corruption has to be rejected and its control accepted"),
"C04": ("adversarial chains, verdict monitor with an exponent-arithmetic oracle", "attacks that know every secret and re-hash; each has to be rejected and its control accepted"),
"C05": ("differential monitor against an in-exponent trusted reference", "every element of the outputs is compared with an independent evaluation of the R1CS at the secrets"),
"C06": ("differential monitor: whole against parted initialization and the exponents", "byte comparison of the outputs and comparison with the in-exponent reference"),
"C07": ("conservation monitor: known scalars divided out of the output", "all of the output is decided, with the inputs' scalars known to the monitor"),
"C08": ("online verdict monitor on real ceremonies", "every verification of a prefix of random ceremonies over random circuits must succeed"),
"C09": ("adversarial files, verdict monitor with an exponent-arithmetic oracle", "each corruption of parameters, counts or origin has to be rejected and its control accepted"),
"C10": ("adversarial chains, verdict monitor with an exponent-arithmetic oracle", "attacks that know every secret and re-hash; each has to be rejected and its control accepted"),
"C11": ("differential monitor against in-exponent Groth16 keys", "every field of pk and vk is compared with the key a trusted setup would give"),
"C12": ("differential monitor between key formats and the exponents", "every field of split files and each Solidity constant is compared"),
"C13": ("end-to-end oracle: proofs accepted and rejected", "real prover and verifier over keys of real ceremonies, random programs and assignments"),
"C14": ("differential monitor of commitment bases and keys, end-to-end proofs", "partition, bases and pairing relations are compared with the exponents"),
"C15": ("crash-point enumeration and read-fault injection (strace) with a verdict monitor", "every byte position of every input of the light commands; boundaries and samples for the slow ones"),
"C16": ("write-fault and crash injection (RLIMIT_FSIZE, /dev/full, strace) with an output monitor", "sampled failing positions, always with the outputs' last bytes; outputs compared with a faultless run"),
"C17": ("ThreadSanitizer (go -race), 32-bit build, CPU and scheduler perturbation under the other oracles", "race reports and the oracles of the other checks, over configurations"),
"C18": ("trace monitor of the conversion against a field-level DFT", "points with known logarithms, each output point compared"),
"C19": ("instrumented random source, taint by byte flips, secret search in outputs, source fault injection", "every served byte is flipped; every failing read position of sampled runs"),
"C20": ("byte-level differential monitor", "synthesized sources up to power 28 (with holes), all bytes of the output compared"),
"C21": ("before/after monitor of the inputs under aliased paths", "all commands, aliases by spelling, symbolic and hard links"),
"C22": ("offline checker of the history against the output of the commands", "records, counters and printed hashes of real contributions, around counter boundaries"),
"C23": ("mutational input fuzzing with crash and acceptance monitors", "sampled corruptions of every input of every command; verdicts compared with a decoder of the monitor's own"),
"C24": ("command-line monitor: exit status against the library and the documentation", "argument vectors, numbers and damaged inputs through the built binary"),
}
checks = []
for i, (t, n) in sorted(T.items()):
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i}", thorough_cmd=f"VERIF_TIER=thorough ./check.sh {i}",
        evidence_file=f"evidence/{i}.json", technique="runtime monitoring: " + t,
        level="fault_enumeration" if i in ("C15", "C16") else "exploration",
        level_note=n + ". Sampled executions, not a proof; trusts gnark and gnark-crypto arithmetic."))
m = dict(version=1, setup_cmd="./setup.sh",
    hooks=dict(guard="Go build tag verif", enable="go build -tags verif (check.sh does it)",
               source_commits=["48da321e6a11ba8f76a339b02ef1140dd0a08ce3"]),
    checks=checks, not_applicable=[],
    notes="check.sh <property> [--case N] runs one check; defects found at the pinned commit and repaired are in known_findings.txt.")
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json")
json.dump(m, open(out, "w"), indent=1, ensure_ascii=False)
open(out, "a").write("\n")
