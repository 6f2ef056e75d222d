#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text is reviewed in one place)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
                     mechanism=[dict(name=m[0], where=m[1]) for m in mech], observe_at=list(observe), hook_needed=None)))
IDX='internal/index/idx.go'; NODE='internal/index/node.go'; ITEMS='internal/index/items.go'
p('C01','A word looks up to exactly the tag sets attached to it',
  "After any sequence of additions, looking a word up returns exactly the tag sets that were attached to that word, each once however often and in whatever tag order it was attached, and never a tag set attached to another word. A word or prefix that was never added is not found, and one added without tags has none. Attaching a list with an unknown tag is refused and changes nothing; attaching an empty list attaches nothing. Text that is no proper UTF-8 means the same word to adding and to looking up, each stray byte counting as the replacement character.",
  ['histories','inputs'],"every interleaving of word additions and tag-set attachments over shared tags, shared tag sets, shared prefixes, any alphabet, texts of any bytes, held node handles, and tag sets of any size up to the identifier limits",
  "Tests add one or two words and look at ids; attachments to several words sharing tag sets, growth of the stores between attachments and re-attachment are never exercised.",
  [IDX,NODE,'internal/index/tagset_index.go','internal/index/tagset_table.go','internal/index/variant_idx.go','internal/index/variant_table.go','internal/index/variant_def.go'],
  [('node attachment','internal/index/node.go AddTagSet'),('interning of tag sets and of combinations','internal/index/tagset_index.go, variant_idx.go'),('trie walk','internal/index/idx.go FetchFromItem')],
  [('items','trie nodes: parent, letter, combination id',ITEMS),('childrenMap','letter to child per node',IDX),('tagSets','interned tag sets','internal/index/tagset_index.go'),('collectionIdx','interned combinations of tag sets','internal/index/variant_idx.go')],
  ['Index.FetchString/FetchRunes','Node.TagSets'])
p('C02','The index enumerates exactly the added words and their prefixes',
  "Walking children from the root reaches exactly the added words and their prefixes, each at one position with one stable identifier, whose text is the path's letters. The node count is the number of distinct non-empty prefixes and the word count the number of words having at least one tag set. Adding an empty word, or below a node that does not exist, is refused and changes nothing. The root, which can be got by identifier 0, has no text and no tag sets, and none can be attached to it.",
  ['histories','inputs'],"every sequence of additions from the root or below an existing node, over any letters including multi-byte ones and any number of nodes",
  "Tests never enumerate children and never cross a reallocation of the node storage with handles held.",
  [IDX,ITEMS,NODE],[('adding below a node','internal/index/idx.go AddToNode'),('node storage growth','internal/index/items.go NewChild')],
  [('nextID','next node identifier',ITEMS)],['Index.Children/GetChildrenMap','Index.Get','Node.Word','Index.NodesCount','Index.WordsCount'])
p('C03','Saving an index and reading it back changes nothing observable',
  "An index written out and read back answers every lookup, enumeration, count and tag query as the original does, however the reader splits the data and whatever the receiving index held before. Writing the index read back yields the same bytes again. Both keep behaving identically under any further additions and compaction.",
  ['histories','inputs'],"every reachable index (before and after compaction), every chunking of the stream, every previous content of the receiving index, and every continuation",
  "Tests compare a couple of stores after a round trip in isolation; the whole-index round trip followed by further use is never run.",
  [IDX,ITEMS,'internal/index/item_def.go','internal/index/tagset_def.go','internal/index/variant_def.go','pkg/dag/idx.go'],
  [('sections','internal/index/idx.go BinaryWriteTo/BinaryReadFrom'),('children map rebuild','internal/index/idx.go rebuildChildrenIndex')],[],['Index.BinaryWriteTo','Index.BinaryReadFrom'])
p('C04','A truncated or mislabelled index file is refused',
  "Reading any proper prefix of a saved index fails with an error, and so does reading a saved index in which a section marker was changed, a section is missing or (other than the last) repeated, or two sections are exchanged. Reading such a file neither panics nor hangs, and no such file is ever loaded as a dictionary.",
  ['inputs','crash_points'],"every reachable index, every cut point of its file, every alteration of a section marker, every omission, repetition or exchange of sections, every chunking of the stream",
  "No test reads a damaged file.",[IDX,ITEMS,'internal/index/item_def.go','pkg/opencorpora/loader.go','pkg/common/reader.go'],
  [('error propagation of each section reader','internal/index/*.go BinaryReadFrom'),('loading','pkg/opencorpora/loader.go LoadIndex')],[],['Index.BinaryReadFrom','Loader.LoadIndex'])
p('C05','Compaction drops only unused data and changes no lookup',
  "Compacting an index leaves every lookup, enumeration, tag query and count as they were. Afterwards only the combinations of tag sets in use by some word remain stored, so the saved file is no larger than before; compacting again changes nothing. The compacted index keeps behaving correctly under further additions.",
  ['histories'],"every reachable index, with compaction at any point and any number of times between additions, saves and loads",
  "Compaction has no test at all.",[IDX,'internal/index/variant_idx.go','internal/index/variant_table.go'],[('compaction','internal/index/idx.go Optimize')],[],['Index.Optimize','Index.BinaryWriteTo','Node.TagSets'])
p('C06','What the formats cannot represent is refused, never silently altered',
  "Data that exceeds a limit of the identifiers or of the binary formats (number of tags, tag sets or sets, size of a set, number of tag sets on a word, length of a tag name) is refused loudly when it is added or saved. Data at the limit is accepted and read back unchanged. Nothing is ever written, or aliased to another entry, as if it had been representable.",
  ['inputs'],"every size at, below and above each 8-bit and 16-bit limit",
  "Tests stay far below every limit, where wrap-around cannot show.",['pkg/dag/idx.go','pkg/storage/set8.go','pkg/storage/set16.go','pkg/storage/table8.go','pkg/storage/table16.go','pkg/storage/collection8.go','internal/index/tagset_def.go','internal/index/tagset_table.go','internal/index/variant_def.go','internal/index/variant_table.go','internal/index/variant_idx.go'],
  [('length checks before writing','*.go BinaryWriteTo/WriteTo'),('identifier overflow panics','pkg/dag/idx.go Index, pkg/storage/table*.go Index')],[],['BinaryWriteTo','Index'])
p('C07','The tag registry is a stable one-to-one numbering',
  "Registering tags numbers distinct names 0, 1, 2, ... in order of first registration; registering a name again returns its number and keeps its first parent. Finding by name and getting by number are inverse to each other, unknown names and numbers are reported as not found, and a missing parent reads as the empty tag name.",
  ['histories'],"every sequence of registrations with repeated names, different parents, names that differ in one character, up to 256 tags",
  "Tests register a handful of tags once.",['pkg/dag/idx.go','pkg/dag/tag.go'],[('registration','pkg/dag/idx.go Index')],[('Idx','list of tags by number','pkg/dag/idx.go')],['Idx.Index','Idx.Find','Idx.Get','Idx.Len'])
p('C08','The tag registry survives its binary form',
  "Every tag registry with four-byte names round-trips through its binary form with order, names and parents intact, empty names reading back as the empty tag name; it consumes exactly its own bytes however the reader splits them. Names of any other length and cut-off data are refused with an error.",
  ['inputs'],"every list of up to 255 tags, any name bytes, every cut point and chunking",
  "Tests round-trip a few ASCII tags from whole buffers.",['pkg/dag/idx.go','pkg/dag/name.go','pkg/dag/tag.go'],[('codec','pkg/dag/idx.go, tag.go, name.go')],[],['Idx.BinaryWriteTo','Idx.BinaryReadFrom','TagName.MarshalBinary'])
p('C09','Set stores give equal sets one identifier and different sets different ones',
  "Each set store (tables and collections of sets, tag-set and combination stores) gives the same identifier to sets with equal elements in any order and different identifiers to different sets, and never changes an identifier or the content behind it later. Getting by a returned identifier yields the sorted set; finding agrees with what was stored and never panics, for sets and identifiers never stored too. The empty set is never stored: tables refuse it, tag-set and combination indexes answer zero.",
  ['histories','inputs'],"every sequence of insertions, finds and gets with sets of mixed sizes and shared prefixes",
  "Tests insert one set per store.",['pkg/storage/table8.go','pkg/storage/table16.go','pkg/storage/collection8.go','pkg/storage/collection16.go','internal/index/tagset_table.go','internal/index/tagset_index.go','internal/index/variant_table.go','internal/index/variant_idx.go'],
  [('find or append','*/table*.go Index')],[],['Index','Find','Get','TableIDs','KnownID'])
p('C10','Sets survive their binary form exactly',
  "A set of 8-bit or 16-bit identifiers, or a tag set, written out and read back is the same sequence; writing reports the number of bytes written and reading consumes exactly those bytes and reports as many, however the stream is split. Cut-off data and failing writers are reported as errors.",
  ['inputs','fault_sequences'],"every content and length up to the limit, every cut point, every chunking, every failing write position, and data following the set in the stream",
  "Tests use short sets and whole buffers.",['pkg/storage/set8.go','pkg/storage/set16.go','internal/index/tagset_def.go'],[('codec','ReadFrom/WriteTo')],[],['Set8','Set16','TagSet'])
p('C11','Composite identifiers pack and unpack without loss',
  "Combining two half identifiers and taking the halves of the result gives the original halves, in the same places, and combining the halves of any identifier gives it back; different pairs give different identifiers. The same holds for tag-set and combination identifiers built on them.",
  ['inputs'],"all 2^16 8+8-bit pairs, and 16+16-bit pairs including every boundary and every single-bit pattern",
  "Tests sample a few values.",['pkg/storage/id16.go','pkg/storage/id32.go','internal/index/tagset_id.go','internal/index/variant_id.go'],[('bit packing','pkg/storage/id16.go, id32.go')],[],['Combine8','Combine16','Upper','Lower','Upper16','Lower16'])
p('C12','Concurrent lookups neither interfere nor differ from sequential ones',
  "Any number of goroutines may look up words, walk children, read tag sets, node texts and counts, and save a filled or freshly loaded index at the same time. Each gets the answer it would get alone, none crashes, no data race occurs, and the index is unchanged afterwards.",
  ['schedules'],"every interleaving of any read-only operations on any index, built or loaded, hits and misses",
  "No test uses more than one goroutine.",[IDX,NODE,'internal/index/variant_idx.go','internal/index/tagset_index.go'],[('reads leave the children maps alone','internal/index/idx.go FetchFromItem, GetChildrenIDMap')],[],['Index.FetchString','Index.Get','Index.Children','Node.TagSets','Index.BinaryWriteTo'])
p('C13','Concurrent node creation loses and duplicates nothing',
  "When several goroutines create nodes in the node storage at the same time, each creation gets its own identifier, the identifiers are consecutive, and afterwards every created node is stored under its identifier with the parent and letter it was created with.",
  ['schedules'],"every interleaving of node creations across storage growth",
  "The storage test is sequential.",[ITEMS],[('allocation under lock','internal/index/items.go NewChild')],[('nextID','next node identifier',ITEMS)],['Items.NewChild','Items.Get','Items.NextID'])
p('C14','Compiling a dictionary indexes exactly its forms with their tags',
  "Compiling a well-formed dictionary yields an index in which every form of every lemma carries exactly the tag set made of its lemma's grammemes plus its own, for each lemma and form it occurs in, and no other words. All grammemes are registered in document order with their parents. Comments, unknown attributes, ignored sections, entity escapes and element order within a lemma do not matter.",
  ['inputs'],"every well-formed dictionary document: forms shared between lemmas, lemmas with any number of grammemes, any layout",
  "The parser and loader tests are commented out.",['pkg/opencorpora/parser.go','pkg/opencorpora/loader.go','pkg/opencorpora/form_item.go','pkg/opencorpora/lemma_item.go'],[('element handlers','pkg/opencorpora/parser.go'),('compile','pkg/opencorpora/loader.go ParseUpdate, SaveIndex')],[],['Loader.ParseUpdate','Loader.LoadIndex'])
p('C15','A bad dictionary source is refused and leaves the compiled file alone',
  "Compiling a document that is cut off, malformed, has no dictionary, uses an undeclared grammeme, an unexpected element, an empty form, a lemma or dictionary number that is none, or lacks a required attribute, or that cannot be represented, fails with an error. A compiled index present before is still there unchanged, and none appears where there was none.",
  ['inputs','fault_sequences'],"every cut point and every such defect anywhere in the document",
  "No test compiles anything.",['pkg/opencorpora/parser.go','pkg/opencorpora/loader.go'],[('errors of element handlers','pkg/opencorpora/parser.go'),('write aside and rename','pkg/opencorpora/loader.go replaceFile')],[],['Loader.ParseUpdate'])
p('C16','An update does exactly what the local and remote state calls for',
  "An update downloads exactly when no source is present or the server reports a newer one (or a date that cannot be read), then unpacks and compiles; if nothing is newer it only completes what is missing or older than what it is made from, and recompiles when forced. If the server cannot be asked it fails, except that a forced update recompiles from what is already present. So does it if it cannot be told whether a source is present (a link that leads to itself, say). Responses other than success are errors that leave every file as it was.",
  ['histories','configurations','fault_sequences'],"every combination of present, missing, outdated and unreadable files, server answers (status, modification date, unreachable) and the force flag, and sequences of them",
  "Tests call the network once without asserting anything.",['pkg/opencorpora/loader.go','cmd/opencorpora_update/main.go'],[('decision','pkg/opencorpora/loader.go Update, IsUpdateRequired, isOutdated'),('download','pkg/opencorpora/loader.go DownloadUpdate')],[('files','downloaded, unpacked and compiled dictionary','pkg/opencorpora/loader.go')],['Loader.Update','Loader.DownloadUpdate','Loader.IsUpdateRequired'])
p('C17','An interrupted update never leaves a broken dictionary and a retry completes',
  "Whatever point an update is interrupted at (connection cut, write failure, process killed), each dictionary file is afterwards either its complete previous version, absent if it was absent, or the complete new version. Loading then yields the old or the new dictionary or a clean failure if none was compiled. Once the fault is gone one more update ends with the newest dictionary compiled.",
  ['crash_points','fault_sequences','histories'],"a fault or kill at every write and step of an update, from every starting state, including repeated faults",
  "No test interrupts anything.",['pkg/opencorpora/loader.go'],[('write aside and rename','pkg/opencorpora/loader.go replaceFile'),('resume by age','pkg/opencorpora/loader.go Update, isOutdated')],[],['Loader.Update','Loader.LoadIndex','files'])
p('C18','Index files keep the documented format across versions',
  "An index file has the fixed layout of four labelled sections (tags, tag sets by size, combinations by size, nodes with parent, identifier, letter and combination in big-endian order). Files in that layout written by any version load with exactly the content they describe, and files written now have that layout.",
  ['inputs','histories'],"every index content, encoded and decoded independently of the code",
  "Round-trip tests cannot notice a change made to writer and reader alike.",[IDX,ITEMS,'internal/index/item_def.go','internal/index/tagset_def.go','internal/index/tagset_table.go','internal/index/tagset_index.go','internal/index/variant_def.go','internal/index/variant_table.go','internal/index/variant_idx.go','pkg/dag/idx.go','pkg/dag/name.go'],
  [('layout','BinaryWriteTo/BinaryReadFrom of each part')],[],['Index.BinaryWriteTo','Index.BinaryReadFrom'])
p('C19','The query console answers every line and never crashes',
  "For every input line the query console prints the answer the dictionary implies (tags, tag sets, combinations, node details, forms of a word, counts) or an error message, and goes on to the next line until exit, end of input or a reload that finds no readable dictionary. Numbers out of range, negative or malformed are reported as such.",
  ['inputs','histories'],"every command with every argument shape over any loaded dictionary",
  "The command has no tests.",['cmd/opencorpora_test/main.go',IDX],[('commands','cmd/opencorpora_test/main.go')],[],['standard output and log of the console'])
p('C20','Path helpers resolve to existing files and stable locations',
  "Resolving an existing path other than the file system root gives its absolute directory, base name and extension, which concatenated give the absolute path back; a missing path is an error. Data locations are the data directory joined with the domain and file name, and creating a domain's data directory makes it exist, also when it already does. A loader's data directory is the one it was made with or told last, the domain's where that is empty, and it says truly whether the downloaded and the unpacked dictionary are there.",
  ['inputs'],"every path shape: relative, nested, several dots, hidden, directories, symlinks, missing",
  "These helpers have no tests.",['pkg/dag/utils.go','pkg/common/utils.go','pkg/opencorpora/loader.go'],[('path resolution','pkg/dag/utils.go ResolveFilePath')],[],['ResolveFilePath','DomainDataPath','DomainFilePath','MakeDomainDataPath','Loader.DataPath','Loader.SetDataPath','Loader.IsDownloadExists','Loader.IsUnpackedExists'])
p('C21','The same content is always written as the same file',
  "What an index is saved to depends only on the tags registered, words added, tag sets attached, loads and compactions, in their order. Two indexes that went through the same steps are saved to identical bytes, in any process, whatever lookups, repetitions, refused calls or saves came in between. Documents that differ only in layout, comments or ignored parts compile to identical files.",
  ['inputs','histories'],"every sequence of steps, with any reads, repeated or refused calls in between, and every pair of documents with the same content",
  "Tests never compare two files; a dependence on map order, time or earlier reads shows only now and then.",[IDX,ITEMS,NODE,'pkg/opencorpora/parser.go','pkg/opencorpora/loader.go'],
  [('order of numbering','internal/index/idx.go Optimize, internal/index/items.go NewChild'),('order of forms','pkg/opencorpora/parser.go')],[],['Index.BinaryWriteTo','Index.Optimize','Loader.ParseUpdate'])
p('C22','Identifiers lead to what they stand for, and keep their meaning',
  "What an index lists and gives out by identifier is reachable by it: a node's combination leads to its tag sets, each tag set to tag identifiers, those to tags, and together these are exactly the tag sets the node reports. Each stored tag set is listed once. Identifiers of tags and tag sets never change their meaning through additions, compaction, save and load; those of combinations only by compaction. Identifiers that stand for nothing are refused.",
  ['histories','inputs'],"every history of additions, attachments, compactions, saves and loads, with gaps between sizes of sets, and every identifier in and out of range",
  "Tests look at one table at a time.",[IDX,'internal/index/tagset_index.go','internal/index/tagset_table.go','internal/index/tagset_id.go','internal/index/variant_id.go','internal/index/variant_idx.go','internal/index/variant_table.go'],
  [('chain','internal/index/idx.go Variants, TagSet; internal/index/tagset_index.go TableIDs, Get'),('renumbering','internal/index/idx.go Optimize')],
  [('tagSets','tag sets by size, numbered within the size','internal/index/idx.go'),('collectionIdx','combinations by size','internal/index/idx.go')],['Index.Variants','Index.TagSet','TagSetIndex.TableIDs','TagSetIndex.Get','Node.Item'])
p('C23','Every part of an index has an exact binary form of its own',
  "Tag names, tags, registries, tag sets, tag set tables and indexes, combinations with their tables and indexes, nodes, node lists and whole indexes each have a binary form. Written one after another to a stream they read back equal and in order, whatever the receivers held before, each taking exactly its own bytes. If the stream (read through a reader that gives all it is asked for, as an index does) ends early, exactly the first part that is not complete fails to be read; a write that fails is reported by its part. A part its form cannot count is refused.",
  ['inputs','histories'],"every sequence of parts, every cut of the stream, every write that fails",
  "Tests write and read single small values; a form that is too long, too short or kept from an earlier use shows only in company.",['internal/index/item_def.go',ITEMS,'internal/index/tagset_def.go','internal/index/tagset_table.go','internal/index/tagset_index.go','internal/index/variant_def.go','internal/index/variant_table.go','internal/index/variant_idx.go','pkg/dag/idx.go','pkg/dag/name.go','pkg/dag/tag.go','pkg/storage/set8.go','pkg/storage/set16.go',IDX],
  [('forms','BinaryWriteTo/BinaryReadFrom, WriteTo/ReadFrom of each part')],[],['BinaryWriteTo','BinaryReadFrom','WriteTo','ReadFrom'])
p('C24','What a caller lends or is given stays the caller\'s',
  "The index, its nodes, set stores and tag registries leave alone the slices they are passed (words, tag names, sets, tags), including room behind them, and do not depend on them afterwards: a caller may overwrite them. Tag sets, maps of children and lists of identifiers given as answers belong to the caller: writing to them changes nothing that is stored, and no answer changes by what is done to the index later. (Views documented by use only - registry lists, id maps, a store's sets - are for reading.)",
  ['histories','inputs'],"every history of calls, with the caller writing to its own memory in between",
  "Tests pass fresh slices and drop answers at once; a slice kept or shared shows only when somebody writes to it later.",[IDX,ITEMS,NODE,'internal/index/tagset_table.go','internal/index/tagset_index.go','internal/index/variant_table.go','internal/index/variant_idx.go','pkg/storage/table8.go','pkg/storage/table16.go','pkg/dag/idx.go'],
  [('sets stored','Index of each table'),('answers','internal/index/node.go TagSets, internal/index/idx.go TagSet, Children, GetChildrenMap')],[],['Index.AddRunes','Index.AddToNode','Node.AddTagSet','Node.TagSets','Index.TagSet','Index.Children','TagSetIndex.Index','VariantsIndex.Index','Table8.Index','Table16.Index'])
p('C25','Updates and readers working at the same time never meet a partial file',
  "Several updates may work on one data directory at the same time, in several processes or goroutines, and the compiled dictionary may be loaded meanwhile. At any moment each dictionary file is absent (only if it was absent before) or a complete version, and loading gives that version. When updates work from the same published version, none fails because of another, no older file comes back, and together they leave what one alone would have left; if one is killed, a later update completes what is missing.",
  ['schedules','crash_points','histories'],"every interleaving of the calls of two or more updates and a reader, from every starting state",
  "No test runs two of anything.",['pkg/opencorpora/loader.go'],[('files of their own','pkg/opencorpora/loader.go replaceFile, createTemporary'),('asking again','pkg/opencorpora/loader.go DownloadUpdate')],[],['Loader.Update','Loader.LoadIndex','files'])
p('C26','What is published is what the console answers after an update',
  "After an update that reports success, a console started or told to reload in the same directory answers as the document published then says: for a line that is a word of the document, or a beginning of one, exactly the tag sets the document gives it (no more, no fewer, also where an earlier edition said otherwise), for any other line that nothing is known; the letters that can follow a word, and the numbers of words, nodes and tags, are those of the document, and tags are found by name and number with their parents. Until it reloads, and whenever updates fail, are killed, or meet a bad document, a console goes on answering from the dictionary it has loaded, and a reload gives the last complete one.",
  ['histories','inputs','crash_points'],"every history of editions published, updates that work or break off at any point, starts, reloads and questions",
  "Tests never go from a published document to an answer; each step can be right by its own tests and the whole wrong.",['pkg/opencorpora/loader.go','pkg/opencorpora/parser.go',IDX,'cmd/opencorpora_update/main.go','cmd/opencorpora_test/main.go'],
  [('updating','pkg/opencorpora/loader.go Update'),('compiling','pkg/opencorpora/parser.go'),('answering','cmd/opencorpora_test')],[],['opencorpora_update','opencorpora_test'])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+'\n')
