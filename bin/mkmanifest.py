#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
NOTES = {
 "P01": ("TLC model checking of the abstract index and of the storage-level design; TLC-generated histories replayed on the code, traces validated by TLC", "Histories of up to 15 operations (random, drawn by TLC from Index.tla) with adversarial bytes and lengths; every result, callback argument and table digest is judged by TraceSeq.tla."),
 "P02": ("TLC enumeration of all the pointer graphs of 3 keywords, replayed on the code and validated by TLC", "All graphs over 3 keywords with one value each (and dangling pointers), then random graphs of up to 25 keywords, chains of 150, and 200000 deep summaries."),
 "P03": ("trace validation (TLC) of recorded callback invocations, for every interrupted level", "Every stop/failure level of searches over random graphs; the storage accesses are part of the trace."),
 "P04": ("TLC model checking of all the interleavings; exported behaviours replayed on the code; test-and-set registers checked for linearizability by TLC", "All interleavings of 2 writers exhaustively, 3 writers and faults by simulation, up to 5 writers at random."),
 "P05": ("TLC model checking of all the interleavings; exported behaviours replayed on the code; linearizability decided by TLC on the traces", "All interleavings of 2 clients are replayed on the real code; 3 clients are model-checked and sampled; 3 to 5 clients at random."),
 "P06": ("TLC model checking with faults; fault schedules replayed on the code and validated by TLC", "Every storage access hit by each kind of fault; at most 2 faults in the model."),
 "P07": ("TLC model checking of compactions; histories replayed on the code and validated by TLC", "Any rate, filter and credentials change; several batches through the small-batch build."),
 "P08": ("TLC model checking of MinimalOK; table sizes of the real code compared by TLC with the size computed from the abstract state", "Sizes computed independently (blocks of 16 bytes, 5 per line)."),
 "P09": ("TLC model checking with faults and parallel compactions; every fault position replayed on the code and validated by TLC", "One fault at every storage access exhaustively, two by simulation; retries and two compactions at once."),
 "P10": ("TLC model checking; stored tokens and values of the real code compared by TLC", "Chains of 4 compactions of any rate."),
 "P11": ("TLC model checking of several labels and keys; interleaved histories validated by TLC", "Up to 5 pairs of credentials sharing the tables."),
 "P12": ("TLC model checking of the noninterference of two executions side by side; pairs of executions of the real code compared by TLC with the same operators", "What the storage sees, up to renaming of tokens, is compared access by access; stored bytes are searched for 8 consecutive secret bytes."),
 "P13": ("trace validation (TLC) of nonces, ciphertexts and tokens", "Randomness itself is not tested, only that nothing is repeated."),
 "P14": ("TLC enumeration of the storage contract, one test per transition; linearizability of threads decided by TLC", "All operations on all tables of 2 tokens (3 in thorough); thread schedules are left to the operating system."),
 "P15": ("TLC model checking with faults; fault enumeration on the code validated by TLC", "Every access and callback of every kind of operation fails, once or for ever."),
 "P16": ("TLC model checking of alterations; behaviours replayed on the code, operations over altered tables validated by TLC", "Bit flips over all the bytes of a line, lines of other indexes, lines of the other table. Swapping two lines of one chain or two entries of one index is out of scope (no associated data)."),
 "P17": ("TLC model checking of merged replicas; behaviours replayed on the code and validated by TLC", "Two or three replicas in the model, up to 4 at random, merged in a multi-valued storage."),
 "P18": ("TLC model checking of the codec; stored lines decrypted independently and decoded by the specification; golden indexes of the first version", "The independent reader shares AES-GCM, KMAC, SHA-3 and SHAKE implementations with the code."),
 "P19": ("TLC model checking, liveness included; repeated compactions of the real code judged by TLC", "Indexes of 1 to 12 keywords; the number of rounds makes a false alarm less likely than 1e-9."),
 "P20": ("TLC model checking; exported schedules replayed on the code and validated by TLC", "All interleavings of a compaction with one search or one write, random schedules beyond. Modifications made in the window of the known finding are not judged."),
}
props = [json.loads(l)["id"] for l in open("properties.jsonl")]
LEVEL = {p: "model_checking" for p in props}
m = {
 "version": 1,
 "setup_cmd": "python3 bin/setup.py",
 "hooks": {"guard": "cfg(findex_verif)", "enable": "RUSTFLAGS=\"--cfg findex_verif\" (second build of the harness; the checks also use a build without it)",
           "source_commits": ["7429ed9a27adf7579b014c46d51c17c0b5b1510d"]},
 "checks": [{"property": p, "quick_cmd": "python3 bin/check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + p,
             "technique": NOTES[p][0], "level": LEVEL[p],
             "level_note": NOTES[p][1] + " Assumes that a client only interacts through DbInterface, and that the reference storage of the harness (or the in-memory backend, decided by P14) honours the documented contract."}
            for p in props if p in NOTES],
 "not_applicable": [],
 "notes": "TLA+ with TLC; see DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
