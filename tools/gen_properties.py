#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))
HOOK = "batch size override (build tag verif), so that small files span several processing batches"

prop("C01", "Honest phase-1 ceremonies always verify",
 "For every supported power and any number of contributions, made one after the other from a fresh initialization or from a transformed base, phase-1 verification of the latest file succeeds. Initialization writes the all-ones SRS (every element the group generator) with zero contributions.",
 ["inputs", "histories", "configurations"], "all powers, all chain lengths, fresh or transformed base, any position of buffer and batch boundaries",
 "The only test runs powers 9 and 12 with four contributions; other sizes, batch boundaries and transformed bases are never exercised (the transform test has no input file and fails).",
 ["phase1/phase1.go", "phase1/utils.go", "phase1/contribution.go", "phase1/header.go", "common/keypair.go"],
 [("Contribute/Verify agree on layout, challenge and pairing equations", "phase1/phase1.go, phase1/utils.go:verifyContribution")],
 ["exit status of p1n/p1c/p1v/p1vt", "bytes of *.ph1"], hook=HOOK)

prop("C02", "A phase-1 contribution re-randomises the whole SRS consistently",
 "After a phase-1 contribution every parameter equals the corresponding input parameter multiplied by the matching monomial in one fresh non-zero tau, alpha and beta, so that a well-formed SRS stays well-formed in all five sections (powers of tau in both groups, alpha and beta multiples, beta in the second group). The appended record carries exactly the new tau, alpha and beta values and proofs of knowledge of the same three secrets bound to the previous record's hash.",
 ["inputs", "histories", "configurations"], "every input SRS (any secrets, any power, any batch partition) and every contribution",
 "Tests only check that the tool's own verifier accepts, at two sizes that fit one batch; the consistency of each section is never compared with an independent computation.",
 ["phase1/phase1.go", "phase1/utils.go", "common/keypair.go"],
 [("scaleG1/scaleG2 multiply by consecutive powers across batches", "phase1/utils.go"), ("GenPublicKey", "common/keypair.go")],
 ["parameters and records of the output *.ph1"], hook=HOOK)

prop("C03", "Phase-1 verification rejects ill-formed SRS parameters",
 "Phase-1 verification fails for every file in which any parameter (any position of any of the five sections) differs from the value determined by the secrets of the contribution chain it carries. This includes a single wrong element, consistent replacement of a section or of its tail by powers of another secret, identity elements, and points outside the prime-order group.",
 ["inputs"], "every corruption of every element or group of elements, at any position relative to batch boundaries",
 "The tests never verify a bad file: no rejection path is covered at all (at the pinned commit the parameter checks were vacuous).",
 ["phase1/phase1.go", "phase1/utils.go", "common/utils.go"],
 [("random linear combination of consecutive pairs and pairing ratio checks", "phase1/utils.go:linearCombinationG1/G2, phase1/phase1.go:Verify"), ("SameRatio", "common/utils.go")],
 ["exit status of p1v/p1vt"], hook=HOOK)

prop("C04", "Phase-1 verification rejects broken contribution chains",
 "Phase-1 verification fails if any contribution record was altered, dropped, duplicated, reordered, spliced in from another ceremony or built on a challenge other than the hash of the record before it, if a proof of knowledge or a stored hash is wrong or degenerate (identity elements), if tau, alpha or beta is not the previous value times the proven secret, or if there is no contribution at all. This holds even when the adversary recomputes all hashes and knows every secret it is supposed to know.",
 ["inputs", "histories"], "every edit of every field of every record in chains of any length, with or without re-hashing",
 "No test ever presents an invalid chain to the verifier.",
 ["phase1/utils.go", "phase1/contribution.go", "phase1/phase1.go", "common/keypair.go", "common/utils.go"],
 [("verifyContribution: SP from hash of previous record, five ratio checks, record hash", "phase1/utils.go")],
 ["exit status of p1v/p1vt"])

prop("C05", "Phase-2 initialization evaluates the circuit exactly at the SRS",
 "For every circuit that fits the SRS, phase-2 initialization writes delta as the generators, Z as the differences tau^(i+n)-tau^i in bit-reversed order, and, for every wire, the A, B (both groups) and beta*A+alpha*B+C evaluations of the circuit's constraint polynomials at tau, with the wires partitioned into public, committed and private as the prover and verifier expect, and a header with the circuit's true counts.",
 ["inputs", "programs", "configurations"], "all R1CS (any sparsity, any coefficients including the special-cased 0, 1, -1, 2, unused wires, constraint counts around powers of two, lazified or not) and all SRS secrets and powers",
 "One MiMC circuit is tested end to end; coefficient special cases, unused wires, small and boundary sizes and larger SRS powers are not, and a wrong but self-consistent evaluation could still prove that circuit.",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/lagrange.go", "lagrange/g1.go", "lagrange/g2.go"],
 [("processEvaluations, processDeltaAndZ, processPVCKK, accumulateG1/G2, filterL", "phase2/utils.go")],
 ["initial *.ph2", "evals"])

prop("C06", "Parted and regular phase-2 initialization agree",
 "Initializing phase 2 from a parted R1CS dump, for any part size and with lazified or plain constraints, produces the same header, parameters and evaluations as the constraint system it was dumped from demands, and a constraint count that disagrees with the parted circuit is refused. A regular R1CS file holding lazified constraints gives the keys of the full constraint system too.",
 ["inputs", "programs", "configurations"], "all circuits, all part sizes, lazified or not",
 "The parted test uses one circuit in a single part, and compares with nothing.",
 ["phase2/parted.go", "phase2/utils.go", "phase2/phase2.go"],
 [("processHeaderParted, processEvaluationsParted, processPVCKKParted", "phase2/parted.go")],
 ["initial *.ph2", "evals"])

prop("C07", "A phase-2 contribution scales delta and only delta-dependent values",
 "A phase-2 contribution multiplies delta in both groups by one fresh non-zero secret and every element of Z and of the private-wire parameters by its inverse, keeps all circuit counts, and appends a record with the new delta and a proof of knowledge of that same secret bound to the previous record's hash.",
 ["inputs", "histories", "configurations"], "every phase-2 file (any circuit size, any batch partition) and every contribution",
 "Tests only check that the tool's own verifier accepts for two circuits that fit a single batch.",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/contribution.go", "common/keypair.go"],
 [("Contribute, scale, GenPublicKey", "phase2/phase2.go, phase2/utils.go, common/keypair.go")],
 ["parameters and records of the output *.ph2"], hook=HOOK)

prop("C08", "Honest phase-2 ceremonies always verify",
 "For every circuit and any number of contributions made one after the other on an initialized phase-2 file, verification of the latest file against the initial file succeeds.",
 ["inputs", "histories", "configurations"], "all circuit shapes (hence all alignments of records with the I/O buffers), all chain lengths",
 "Tests use two circuits and at most three contributions; a record that straddles an I/O buffer boundary is never reached (it failed at the pinned commit).",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/contribution.go", "phase2/header.go"],
 [("Verify, readFrom", "phase2/phase2.go, phase2/contribution.go")],
 ["exit status of p2n/p2c/p2v"], hook=HOOK)

prop("C09", "Phase-2 verification rejects parameters not derived from the origin",
 "Phase-2 verification fails whenever the file's delta in either group, any element of Z, any private-wire parameter or any circuit count is not what the initial file gives under the delta of the last contribution, including single wrong elements, compensating changes, swapped elements, identity or invalid points, and a different origin circuit.",
 ["inputs"], "every corruption of every element, at any position relative to batch boundaries, and every pair of different origins",
 "No test presents a bad phase-2 file to the verifier (at the pinned commit unreadable parameters were accepted).",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/header.go"],
 [("verifyParameter, aggregate, Header.Equal", "phase2/utils.go, phase2/header.go")],
 ["exit status of p2v"], hook=HOOK)

prop("C10", "Phase-2 verification rejects broken contribution chains",
 "Phase-2 verification fails if any contribution record was altered, dropped, duplicated, reordered, spliced in from another ceremony or built on a challenge other than the hash of the record before it, if a proof of knowledge or a stored hash is wrong or degenerate, if the recorded delta is not the previous delta times the proven secret, or if there is no contribution. This holds even when the adversary recomputes all hashes.",
 ["inputs", "histories"], "every edit of every field of every record in chains of any length, with or without re-hashing",
 "No test presents an invalid chain to the verifier.",
 ["phase2/phase2.go", "phase2/utils.go", "phase2/contribution.go", "common/keypair.go", "common/utils.go"],
 [("verifyContribution, last delta check", "phase2/utils.go, phase2/phase2.go")],
 ["exit status of p2v"])

prop("C11", "Extracted keys equal a trusted setup with the ceremony's secrets",
 "For every circuit and ceremony, the extracted proving and verifying keys are exactly the Groth16 keys of that circuit for the combined secrets (tau, alpha, beta, gamma one, delta), including domain, infinity bitmaps and counts, wire counts and commitment data.",
 ["inputs", "programs", "histories"], "all circuits and all ceremonies",
 "The tests only see that one proof verifies; a key that is wrong in an entry this proof does not use, or extracted from another circuit shape, is not noticed.",
 ["keys/keys.go", "phase2/utils.go"],
 [("extractPK, extractVK, filterInfinityG1/G2", "keys/keys.go")],
 ["pk", "vk"])

prop("C12", "Split keys and the Solidity verifier carry the same keys",
 "The split key files hold exactly the elements of the monolithic keys extracted from the same phase-2 file (apart from the independently sampled commitment key), their verifying-key and commitment-key files are consistent with each other, and the exported Solidity contract embeds exactly the constants of that verifying key.",
 ["inputs", "programs", "configurations"], "all circuits, ceremonies and session names",
 "Tests only prove once from split keys of one circuit and never look at the Solidity export.",
 ["keys/keys.go"],
 [("extractSplitPK, extractSplitVK, ExportSol", "keys/keys.go")],
 ["<session>.pk.*.save", "<session>.vk.save", "<session>.sol"])

prop("C13", "Ceremony keys prove true statements and only those",
 "For every circuit, a proof made with the extracted (monolithic or split) keys for a satisfying assignment verifies with the extracted verifying key, and verification fails for any other public input, for a proof of another ceremony, and for an altered proof.",
 ["inputs", "programs", "histories"], "all circuits (including public-only, multi-public, hint, lazified and commitment circuits), assignments and ceremonies",
 "Tests prove one statement of one circuit and never check a rejection.",
 ["keys/keys.go", "phase2/phase2.go", "phase2/parted.go", "phase2/utils.go"],
 [("the whole pipeline p1n..keys", "phase1, phase2, keys")],
 ["groth16.Prove/ProveRoll/Verify with the produced files"])

prop("C14", "Circuits with commitments get sound commitment keys",
 "For a circuit that commits to wires, initialization puts each committed private wire in the commitment basis, the commitment wire with the public ones and every other private wire in the private parameters, and the extracted verifying key carries the circuit's commitment information and a commitment key over exactly that basis.",
 ["inputs", "programs"], "all sets and orders of committed public and private wires",
 "No test has a circuit with a commitment (at the pinned commit initialization crashed for them).",
 ["phase2/utils.go", "phase2/parted.go", "keys/keys.go"],
 [("filterL, extractVK, extractSplitVK", "phase2/utils.go, keys/keys.go")],
 ["evals, *.ph2, vk, <session>.pk.CommitmentKey.save"])

prop("C15", "Incomplete files are never accepted",
 "If any input file is cut short at any byte (as a crash or interrupted transfer leaves it), contribution, verification, initialization, transformation and key extraction fail rather than succeed on the partial data. (Initialization reads no phase-1 contribution record and key extraction no phase-2 one, so cuts among those records are not required to stop them.) The same holds if opening, reading or seeking in an input fails at any point: the command then fails, unless what it writes is right all the same.",
 ["crash_points", "inputs"], "every cut position of every kind of file",
 "Tests only use complete files.",
 ["phase1/contribution.go", "phase1/header.go", "phase1/phase1.go", "phase2/contribution.go", "phase2/header.go", "phase2/phase2.go", "phase2/utils.go", "keys/keys.go"],
 [("fixed-size reads with error propagation", "all readers")],
 ["exit status of every command"])

prop("C16", "A failed or short write is never reported as success",
 "If writing any output file fails at any byte, the command reports an error; a command that reports success has written complete, correct outputs, whatever the output files held before. What a failed or killed command leaves behind is refused by the commands that read such files unless it is complete, and the command, run again over it, writes complete, correct outputs.",
 ["fault_sequences", "crash_points"], "every failing write position of every command",
 "Tests never make a write fail (at the pinned commit most write errors were dropped).",
 ["phase1/phase1.go", "phase1/utils.go", "phase2/phase2.go", "phase2/utils.go", "phase2/parted.go", "phase2/lagrange.go", "keys/keys.go"],
 [("error propagation and explicit flush", "all writers")],
 ["exit status and output files under RLIMIT_FSIZE and /dev/full"])

prop("C17", "Results are race-free and independent of CPUs, schedule and batching",
 "Every command is free of data races, and what it computes does not depend on the number of CPUs, on goroutine scheduling, on how the data is split in batches or on the architecture it is built for: each element is processed exactly once. Contributions, verifications and transformations of different files that run at the same time in one process don't affect each other.",
 ["schedules", "configurations"], "all CPU counts, GOMAXPROCS values, schedules, batch sizes and input sizes",
 "Tests run with the machine's CPU count, without the race detector, on sizes below one batch.",
 ["common/parallelize.go", "lagrange/g1.go", "lagrange/g2.go", "phase1/utils.go", "phase2/utils.go"],
 [("Parallelize partitions, FFT splitting, disjoint writes", "common/parallelize.go, lagrange/*.go")],
 ["race detector reports", "decoded outputs under different CPU affinities"], hook=HOOK)

prop("C18", "Monomial-to-Lagrange conversion is exact",
 "For every domain size, the Lagrange-basis SRS computed in either group from consecutive powers (or any vector of points) is exactly its inverse Fourier transform over the domain in natural order, for arbitrary points including the identity and repeated ones.",
 ["inputs", "configurations"], "all power-of-two sizes, all point vectors, all CPU counts",
 "Only two sizes are reached through the ceremony tests and the result is not compared with anything.",
 ["lagrange/g1.go", "lagrange/g2.go", "phase2/lagrange.go"],
 [("difFFTG1/G2 with size-8 kernel, bit reversal, scaling by 1/n", "lagrange/g1.go, lagrange/g2.go")],
 ["lagrange.ConvertG1/ConvertG2", "srs.lag"])

prop("C19", "Toxic waste is fresh, independent, full-entropy and never leaves memory",
 "Each contribution draws its secrets and proof randomness solely from the cryptographic random source, with full entropy and independently of each other and of earlier runs; no secret in any encoding appears in any output or file, even one that exists only while the command runs, and a contribution or verification whose random source fails reports an error. Verification draws its random coefficients (distinct ones with at least 100 bits of entropy), and key extraction its commitment-key trapdoor, from that source too.",
 ["inputs", "histories", "fault_sequences"], "all runs and all failure points of the random source",
 "Tests cannot see entropy use or leaks, and never make the source fail (errors were ignored at the pinned commit).",
 ["phase1/phase1.go", "phase1/utils.go", "phase2/phase2.go", "phase2/utils.go", "common/keypair.go", "common/utils.go"],
 [("fr.Element.SetRandom with crypto/rand", "phase1/phase1.go, phase2/phase2.go, common/keypair.go")],
 ["crypto/rand.Reader", "outputs, stdout and scratch files"])

prop("C20", "Transforming a Powers-of-Tau file keeps exactly the selected prefix",
 "Transforming an uncompressed Powers-of-Tau challenge of any power to any smaller or equal power yields a contribution-free phase-1 file whose five sections are exactly the required prefixes of the source sections, and contributions on it verify against it and only against it.",
 ["inputs", "configurations"], "all source files and all pairs of powers",
 "The adapter test needs a file that is not in the repository and fails.",
 ["phase1/phase1.go", "phase1/utils.go", "phase1/contribution.go", "actions.go"],
 [("Transform, transformG1/G2, defaultContribution", "phase1")],
 ["output of p1t, exit status of p1vt"])

prop("C21", "No command modifies or destroys its inputs",
 "Whatever the outcome (success, an error, being killed), every command leaves each of its input files byte-for-byte unchanged, and refuses to run when an output path given to it names (directly, or through a link) one of its input files.",
 ["inputs", "configurations"], "all commands, all path aliases, success and failure outcomes",
 "Tests never reuse a path or compare inputs after a run (in-place contribution destroyed the file at the pinned commit).",
 ["common/output.go", "phase1/phase1.go", "phase2/phase2.go", "phase2/parted.go"],
 [("CreateOutput checks aliasing before truncating", "common/output.go")],
 ["input bytes before and after"])

prop("C22", "The contribution history is append-only and self-consistent",
 "A contribution in either phase keeps the bytes of all earlier records, increments the counter by exactly one, appends exactly one record whose hash is the SHA-256 of its own encoded points, and the hash shown to the contributor, the hash in the file and the hashes listed in order by the verifier all agree.",
 ["histories", "inputs"], "all ceremonies of any length",
 "Tests do not look at records, counters or printed hashes.",
 ["phase1/contribution.go", "phase1/phase1.go", "phase2/contribution.go", "phase2/phase2.go"],
 [("record copy loop, computeHash, hash printing", "phase1/phase1.go, phase2/phase2.go")],
 ["record bytes, header, stdout"])

prop("C23", "Malformed files produce an error, not a crash or acceptance",
 "With an input that is empty, missing, a directory, random bytes or a file of another kind, every command ends with an ordinary error. With any corruption of a phase-1, phase-2, evaluation, base, Powers-of-Tau or verifying-key file no command panics or crashes, and verification never succeeds when what it checks, as decoded from the file, was changed. Key extraction refuses an evaluation file whose counts are not those of the phase-2 file. (The contents of R1CS files and of parted circuits are read by gnark itself and are not covered.)",
 ["inputs"], "all byte-level corruptions that do not merely declare a size beyond the machine's memory",
 "Tests only use well-formed files.",
 ["phase1/header.go", "phase2/header.go", "phase1/phase1.go", "phase2/phase2.go", "keys/keys.go"],
 [("decoder errors and header validation", "phase1/header.go, phase2/header.go")],
 ["exit status, panics"])

prop("C24", "The command line maps arguments and failures faithfully",
 "Every subcommand accepts exactly its documented number of arguments in the documented order, rejects non-numeric and out-of-range numbers and circuits larger than the SRS before producing a usable output, and exits with a non-zero status exactly when the operation failed.",
 ["inputs", "configurations"], "all argument vectors",
 "The tests never run the command line.",
 ["main.go", "actions.go", "phase2/utils.go", "phase2/parted.go"],
 [("argument checks", "actions.go"), ("constraint-count check", "phase2/utils.go:processHeader")],
 ["exit status and output files of the binary"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
