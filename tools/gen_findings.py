#!/usr/bin/env python3
"""Writes known_findings.json: defects of the original tree, all repaired. A fixed entry suppresses nothing."""
import json, os
FIXED = [
 ("C03,C04,C08,C10", "6b219e2", "reading through a reader that delivers data in portions padded values with zero bytes, and accepted cut-off data; wrong byte counts reported"),
 ("C09", "cc9e25c", "Collection8x8/16.Find panicked on sets longer than any stored"),
 ("C06", "d9bbb04", "lists longer than their length field (tags, tag sets, sets, combinations) were written with a wrapped length"),
 ("C06,C09,C07", "9c7a995", "identifiers wrapped around when a table, collection or the registry was full, aliasing other entries"),
 ("C12", "ea91d10", "lookups inserted into the shared children map: concurrent lookups crashed"),
 ("C13", "cc0722b", "NewChild filled the new item after releasing the lock: lost when the list was reallocated meanwhile"),
 ("C03", "d7c0c00", "loading into a used index kept the children and word count of the former content; the root became its own child"),
 ("C01", "6b0e78f", "adding an empty list of tags attached the first tag set of the index"),
 ("C02,C19", "4910f2d", "methods of the root node panicked; String cut multibyte letters"),
 ("C19", "c44d336", "TagSetIndex.TableIDs gave identifiers off by one"),
 ("C19", "5b79671", "an unknown combination identifier caused a panic"),
 ("C16", "6c6051e", "IsUpdateRequired dereferenced nil when the downloaded file could not be examined"),
 ("C16", "e24c806", "the data path the loader is configured with was not created"),
 ("C16", "3ae227b", "the body of a failed response was stored as the dictionary"),
 ("C14", "b7e9dd4", "a grammeme name delivered in several portions of text lost all but the last"),
 ("C17", "5826210", "interrupted writes left partial files that later runs took for complete ones"),
 ("C17", "5d4d842", "an update interrupted after the download was never completed"),
 ("C15", "7fc60c7", "a document without a dictionary was compiled to an empty index"),
 ("C15", "66f1695", "an element whose name has dots passed for a path of elements: <lemmata.lemma> was read as a lemma"),
 ("C09", "3c4f88a", "VariantsTable.Get panicked on unknown identifiers"),
 ("C24", "8a6af1c", "set stores sorted the slice of their caller in place and kept it: Table8, Table16, TagSetTable, VariantsTable and VariantsIndex; a set put and then overwritten by its owner changed in the store, and identifiers stood for something else"),
 ("C25", "ca8ffce", "updates running at the same time wrote to the same temporary file: one put in place what the other was still writing, or failed as it was gone"),
 ("C06,C02", "1ef41b4", "a word without tag sets was counted as having one although its tag set was refused for want of combination identifiers"),
 ("C09,C06", "f2a3df4", "tag sets of more than 65536 tags and combinations of more than 65535 tag sets got the identifiers of others, as the number of their table wrapped around"),
]

KNOWN = [
 ("C16", "^(update|required): version published during a download not noticed$",
  "a version published while the former one is being downloaded is not noticed by later updates: the downloaded file is newer than "
  "its publication. Loader.IsUpdateRequired compares Last-Modified with the time the local file was written, not with the Last-Modified "
  "it was served with (history: GET of version 1 begins, version 2 is published, GET ends, update: no download)"),
 ("C19", "^line: tag with a negative number: brings the console down$",
  "'tag -1' (any negative number) brings the console down: processTag checks the upper bound only and indexes the tags with it"),
 ("C19", "^line: set table with a negative number: brings the console down$",
  "'set table -1' (any negative number) brings the console down: processSet checks the upper bound only and indexes the tables with it"),
 ("C19", "^line: set with a huge number: not reported as wrong$",
  "'set 4294967296' answers with tag set 0: processSet cuts numbers beyond 32 bits off instead of refusing them"),
 ("C19", "^line: node with the last number: refused$",
  "'node N' with the number of the last node is refused: processNode compares with NodesCount, which leaves out the root, by >="),
]


def main():
    out = [{"property": p, "status": "known", "match": m, "what": w} for p, m, w in KNOWN]
    for props, commit, what in FIXED:
        for p in props.split(","):
            out.append({"property": p, "status": "fixed", "commit": commit, "what": what,
                        "record": "fixed: property=%s %s %s" % (p, commit, what)})
    with open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json"), "w") as f:
        json.dump({"findings": out}, f, indent=1)
        f.write("\n")


main()
