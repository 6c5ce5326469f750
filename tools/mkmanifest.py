#!/usr/bin/env python3
# Regenerates /verif/MANIFEST.json from the table below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ref = "online monitor with an independent reference implementation as oracle over generated and hostile executions"
T = {
 "C01": ("differential runtime monitoring against an independent SM3, all lengths and chunkings, plus a stream beyond 2^32 bits",
         "Every length 0..several blocks and every two-way cut is executed; longer messages and cuts are sampled."),
 "C02": ("trace monitor of random multi-object Write/Sum/Reset histories against a model, HMAC as composite oracle", "Histories are sampled."),
 "C03": ("differential monitor against an independent SM4 with canary memory around every buffer", "Keys and blocks are sampled; all short lengths and overlaps are enumerated."),
 "C04": ("differential monitor against independent ECB/CBC, with canaries and panic capture over malformed calls", "Inputs are sampled; malformed length classes are enumerated."),
 "C05": ("exhaustive length/block-size monitor with spare-capacity canaries; hostile-byte workload for unpadding", "All block sizes with all residues are executed; hostile bytes are sampled."),
 "C06": ("differential monitor against an independent curve implementation and group-law checks on edge scalars and points", "Scalars and points are sampled around all edge classes."),
 "C07": ("scripted and fault-injecting randomness sources with an online monitor of reads, range and key relation", "Failure at every byte of the source is enumerated; randomness is sampled."),
 "C08": ("round-trip and rejection monitor over edge keys and hostile encodings", "Keys sampled; all lengths 0..140 and range edges enumerated."),
 "C09": ("independent verifier as online oracle on every signature, scripted nonces and small groups that force each retry branch", "Signing inputs are sampled; on toy groups retry branches are hit densely."),
 "C10": ("differential verdict monitor: genuine, corrupted, crafted and exhaustive small-group signatures judged by an independent verifier", "All (r,s) pairs are executed on small groups, the rest is sampled."),
 "C11": ("nonce-recovery monitor over recorded histories (reuse, range, bias statistics, source influence) and randomness fault injection", "Bias is a statistical test with fixed seeds; it sees gross bias only."),
 "C12": ("differential codec monitor against an independent strict DER codec over mutated encodings", "Mutations sampled and systematic per byte for small cases."),
 "C13": ("independent decryption as online oracle, scripted nonces that force retries, bounded randomness budget for termination", "Sampled inputs with all small lengths enumerated."),
 "C14": ("independent encryptor and recorded OpenSSL ciphertexts as peers, equality monitor", "Sampled inputs, forced leading-zero points."),
 "C15": ("mutation workload (every bit of sampled ciphertexts, truncations, crafted points) with error/panic monitor", "Every single-bit flip per sampled ciphertext; forgeries are sampled."),
 "C16": ("differential codec monitor against an independent strict DER codec over mutated encodings", "Sampled inputs, systematic malformation classes."),
 "C17": ("two-party protocol runs compared with an independent implementation of both roles", "Sampled parties, identities and lengths; every length 1..600 bits."),
 "C18": ("protocol runs with injected mismatches, tampering and hostile points; fail-closed monitor", "Every mismatch class enumerated, values sampled."),
 "C19": ("cross-checking monitor: independent DER reading and crypto/x509 via identifier swapping", "Templates are generated at random over all fields."),
 "C20": ("tamper-evidence monitor: every bit of sampled requests and ids flipped, verdicts compared with an independent verifier", "Every bit per sampled request."),
 "C21": ("cross-checking monitor of issued certificates: independent DER reading, independent signature check, crypto/x509 re-parse", "Templates are generated at random over all fields."),
 "C22": ("hostile-byte workload (systematic DER mutation, targeted substitutions) with totality, sub-range and strictness oracles", "Mutations per byte of sampled objects; structured substitutions enumerated."),
 "C23": ("differential monitor with crypto/x509 in both directions via identifier swapping", "Extension contents are sampled and mutated."),
 "C24": ("model-based monitor of random builder programs against a reference encoder, encoding/asn1 and the library's own reader, canaries around fixed buffers", "Programs are sampled; boundary lengths enumerated."),
 "C25": ("differential monitor of reader programs against reference decoders over valid, mutated and exhaustive short inputs", "All inputs up to 2-3 bytes enumerated per reader; longer ones sampled."),
 "C26": ("Go race detector under a shared-object stress workload, results compared with sequential runs", "Schedules are those the stress run produces; the race detector reports any unordered access pair it executes."),
 "C27": ("snapshot monitor around every exported operation: arguments, canaries, curve parameters, earlier results, result aliasing", "Operations all enumerated; inputs sampled."),
 "C29": ("monitor of allocated bytes and thread processor time at sizes n, 8n and 32n in every place where an input can grow, and on hostile promises of length",
         "Growth is measured between three sizes per place; ratios above 2.5 (memory) or 10 (time) times proportional are reported, smaller deviations are not."),
 "C30": ("resource monitor (live heap in windows, goroutines, descriptors, process settings, streams, files) around histories of every operation",
         "Histories are sampled; heap growth below about 24 bytes per call is not seen."),
 "C31": ("differential monitor of the same operations in different histories, of nearly equal calls in every order, and in processes with different environments and clocks",
         "Histories and environments are sampled."),
 "C28": ("every other property's monitors and oracles run in a build for a 32-bit processor (GOARCH=386)", "A part of the other properties' workloads; 386 stands for all 32-bit platforms."),
}
done = os.environ.get("DONE", "").split() or sorted(T)
checks = []
for k in sorted(T):
    if k not in done: continue
    t, n = T[k]
    checks.append({"property": k, "quick_cmd": f"./run.sh {k} quick", "thorough_cmd": f"./run.sh {k} thorough",
      "technique": "runtime monitoring: " + t, "level": "exploration",
      "level_note": n + " Trusts the independent reference code in harness/ref (self-tested on the standards' vectors), the Go toolchain and math/big."})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": [],
     "notes": "The harness is an external Go module that links the library from /repo's working tree and uses its exported API only; no hooks are added to /repo."}
na = [k for k in sorted(T) if k not in done]
m["not_applicable"] = [{"property": k, "reason": "check not finished yet"} for k in na]
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1); open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
