import json,sys
claimed=sys.argv[1].split(',')
notes={
'S01':"Seeded search over values of every wire type x stream schedules, compared byte for byte with an independent reference codec; real encoders, decoders and derive macros. Trusts the reference codec and the simulated streams.",
'S02':"Seeded search plus enumeration of every cut and failure position of small values; real codecs on failing simulated streams. Assumes stream errors reach the library as std::io::Error.",
'S03':"Seeded search over damaged and made-up inputs against an independent reference decoder, under a memory account and a 2 MiB stack, optimised build with overflow checks. The memory bound is 1 MiB + 64 bytes per byte received.",
'S04':"Seeded search over documents of every JSON type, stream and crash faults, and damages placed by the document's structure; oracle: reference document and the re-serialisation of whatever was accepted. Policy nesting up to 24 (serde_json's recursion limit).",
'S05':"The real sector_root on rayon worker threads that run under the simulated scheduler (work splitting, stealing and preemption decided by the seed), compared with a sequential reference Merkle root. 4 MiB sectors with sparse and random contents.",
'S06':"Concurrent, nested, failing and abandoned operations of the whole library on simulated tasks preempted at stream calls, hashing steps, allocations and (compiler-instrumented build) memory accesses the seed picks; oracle: the result of the same call alone. Sequentially consistent memory only.",
'S07':"Histories of parties that relay, re-sign, re-prove and alter transactions, compared with an independent reference of the transaction hash; witness-only edits keep the ID, all others change it.",
'S08':"Histories of parties that sign, transfer, alter and verify with real ed25519 and a reference of every signature hash, over all hardfork heights.",
'S09':"Simulated nodes that follow, reorganise, crash and restart over generated and built-in networks; reference consensus rules written from the protocol. Heights beyond 3e14 and contract payouts that overflow 128 bits are outside.",
'S10':"Parties that exchange spending terms in every representation and disclosure; reference addresses; edited terms must differ.",
'S11':"Wallets that crash and restore from stored phrases with torn and damaged storage; independent BIP39 check and key derivation.",
'S12':"The allocator is simulated: freed blocks are inspected for the secret at the moment of release, and live ones are scanned for copies, under normal drops, unwinding and cancellation, in the optimised build. Registers and stack copies are outside.",
'S13':"Whole simulated histories in which every created object's ID is compared with the reference and with all others.",
'S14':"Checkpoints written to a simulated disk with torn, lost and failed writes, lost renames and crashes at any point; restored states compared with the model.",
}
lvl={'S02':'fault_enumeration'}
ids=claimed
checks=[{"property":i,"quick_cmd":f"bin/check.sh {i} quick","thorough_cmd":f"bin/check.sh {i} thorough","evidence_file":f"evidence/{i}.json","technique":"deterministic simulation with fault injection","level":lvl.get(i,"exploration"),"level_note":notes[i]} for i in ids]
na=[{"property":"S15","reason":"Pure functions of their arguments with no party, schedule, time, stream or fault for the answer to depend on: deterministic simulation has nothing to schedule or inject. (What of it travels through storage and transport is decided under S04.)"},
{"property":"S16","reason":"Literals are evaluated by the compiler: there is no execution to simulate."}]
allp=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
for p in allp:
   if p not in ids and p not in('S15','S16'): na.append({"property":p,"reason":"its scenario is not finished yet"})
m={"version":1,"setup_cmd":"bin/build.sh","checks":checks,"not_applicable":na,"notes":"No hooks in /repo: the seams are std::io::Read/Write, the allocator, the system calls of the standard library (futex, clocks, entropy), and [patch]ed copies of rayon-core and blake2b_simd in sim/vendor with scheduling points; S06 uses a second, compiler-instrumented build. Replay a violation with bin/replay.sh FILE."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
