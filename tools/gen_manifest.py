#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import areas

DRV = " Trusted: the driver (go/drv, records only), TLC, the operators of the named specifications, the stubs of two modules missing here."
NOTE = {
 "C01": ("TLC model checking of Dict/DictSystem and IndexImpl; TLC-generated scripts and random histories run on the real index, traces validated by TLC (TraceIndex)",
         "Exhaustive on the model within small constants (2 tags, 2-3 words); on the code every transition script of the model plus random histories, every observation explained by the specification."),
 "C02": ("as C01, with complete walks of the node graph compared with the specification (TraceIndex)", "As C01; includes dictionaries of more than 65536 nodes."),
 "C03": ("TLC model of save/load between handles; generated scripts and random histories with loads through readers of all portionings (TraceIndex)", "As C01."),
 "C04": ("TLC model: no proper prefix of an image parses; every cut of files written by the code and every changed section marker tried on the code (TraceIndex, Format)", "Every cut point of each generated file is tried; files are small to middling."),
 "C05": ("TLC refinement of compaction; generated scripts and random histories around compaction (TraceIndex)", "As C01."),
 "C06": ("TLC model with small limits; the real limits reached one by one on the code (TraceIndex, TraceStores)", "Every documented limit is approached from below, met and exceeded."),
 "C07": ("TLC model of the registry; random histories of the real registry validated by TLC (Registry, TraceStores)", "Registries up to and beyond all 256 numbers."),
 "C08": ("TLC model of the registry's byte form; the real codec run on generated registries with every cut, portioning and failing writer, judged by TLC (Registry, TraceStores)", "Names are generated, not enumerated; cuts are exhaustive for files up to 600 bytes."),
 "C09": ("TLC refinement of the stores; a script for every transition and random histories for all eight stores validated by TLC (Stores, TraceStores)", "Includes stores filled to the last identifier."),
 "C10": ("TLC model of a reader fed in portions; the real codecs run with every cut, portioning and failing writer, judged by TLC (MCSetCodec, TraceStores)", "Sets are generated, with all boundary lengths."),
 "C11": ("laws of packing checked by TLC over all pairs of 8-bit halves; the code compared with the specification exhaustively for 16-bit identifiers, on boundary and random values for 32-bit ones (Packing, TraceStores)", "16-bit identifiers completely, 32-bit ones by boundary grid and sampling."),
 "C12": ("TLC model of concurrent readers; concurrent runs of the real index under the race detector, answers validated by TLC against the sequential specification (ConcReaders, TraceIndex)", "Schedules are those the runtime produces, plus the race detector's happens-before analysis; the model covers all interleavings of small instances."),
 "C13": ("TLC model of node creation at lock granularity; concurrent histories of the real store under the race detector, validated by TLC (ConcCreate, TraceCreate)", "As C12."),
 "C14": ("TLA+ model of the compiler over document tokens; documents generated from it compiled by the real loader and compared with the dictionary it prescribes (Compile, TraceIndex)", "Documents are small; layout variants are random."),
 "C15": ("as C14 with every defect at every position and every cut (Compile, TraceIndex)", "As C14."),
 "C16": ("TLC model of the update over file states and server answers; every case run on the real loader with a stand-in transport, validated by TLC (Update, TraceUpdate)", "Every combination of file states, server answers and force within the model."),
 "C17": ("TLC model of the update with a crash at any step; the real loader killed and failed at every file operation and resumed, validated by TLC (Update, TraceUpdate)", "Process kill and write errors; power loss is not covered."),
 "C18": ("independent encoder and decoder of the format in TLA+; files built from it loaded by the code, files written by the code decoded by it (Format, TraceIndex)", "As C01."),
 "C19": ("TLA+ model of the console's answers; command lines run on the real command, output validated by TLC (Console, TraceConsole)", "Wording of messages is not judged, only the values in them and that each line is answered."),
 "C20": ("TLA+ model of paths; the real helpers run on generated directory trees, validated by TLC (Paths, TracePaths)", "Paths are generated within a scratch directory."),
 "C21": ("TLC model of two histories with the same effective steps; files of the real index and compiler made twice in different ways, their digests compared by TLC for equal steps (Steps, TraceIndex)", "Pairs of histories are generated; the order of Go's maps is what the runtime makes it, tried many times."),
 "C22": ("TLC invariants and action properties on IndexImpl (identifiers resolve, are unique and stable); generated scripts and random histories with all identifiers of the real index followed and tried, validated by TLC (TraceIndex)", "As C01; identifiers tried are those around all known ones and some far off."),
 "C23": ("TLC model of parts in a stream that may be cut anywhere, with an encoder and decoder of its own; parts written and read by the real code one after another, with every cut and failing write, judged by TLC (Parts, TraceParts)", "Parts are generated, with all boundary counts; cuts are exhaustive for streams up to 500 bytes."),
 "C24": ("TLC model of shared memory between a store and a caller that writes to its own; histories run on the real code twice, with a caller that leaves its memory alone and one that overwrites it, answers kept and looked at again, judged by TLC (Ownership, TraceIndex, TraceStores)", "Histories are generated; overwriting takes place right after each call."),
 "C25": ("TLC model of updates interleaved step by step over inodes and names, with kills; the real command run several times at once under a scheduler of its calls (ptrace), what is seen in between and afterwards validated by TLC (ConcUpdate, TraceUpdate)", "All interleavings of two updates on the model; on the code all single switching points and random schedules of two and three updates at the granularity of their calls on files and the server, and goroutines as the runtime schedules them."),
 "C26": ("TLC model of editions published, updates broken off anywhere, a console that starts, reloads and answers; the real update command and the real console run in one directory through such histories, every answer compared by TLC with what the published document means (System, Compile, Update, TraceSystem)", "Documents and histories are generated; node numbers in answers are judged by C19."),
}
PENDING = "its check is not built yet"


def main():
    props = [json.loads(x) for x in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in areas.CHECKS:
            checks.append({"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "env VERIF_TIER=thorough python3 tools/check.py " + i,
                           "technique": NOTE[i][0], "level": "model_checking", "level_note": NOTE[i][1] + DRV})
        else:
            na.append({"property": i, "reason": PENDING})
    man = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: the driver is compiled into /repo's module through a go build overlay. The tier is chosen by VERIF_TIER (quick unless thorough)."}
    with open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
