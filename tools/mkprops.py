#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that long text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": [observe], "hook_needed": hook}
    if state: a["state"] = [{"name": state, "meaning": state}]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

ENG = ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go"]
p("F01", "A tag is reported to exactly the destinations subscribed to it",
  "For each of the three binary filtering engines (linear list, Patricia trie, self-adjusting tree) built from any set of distinct well-formed tag patterns, a tag read is reported to exactly those destinations that hold a pattern whose encoded fields are the leading bits of the tag: none missed, none extra, no empty destination, whatever the size, nesting or order of the set. The letters of ISO fields, and those of the leading urn:epc:pat:, may be written in either case. A reported read carries the tag's own pure identity; a read matching nothing yields an error and no destination.",
  ["inputs", "configurations"],
  "every subscription set (including empty, singleton, deeply nested, all sharing one prefix) of every pattern type and field depth, and every decodable tag",
  "The engine constructors and searches are covered by one or two hand-made sets at most (most trie, tree and legacy tests are commented out); the guarantee is over all pattern sets and tags.",
  ENG + ["filtering/engine.go", "filtering/subscriptions.go", "filtering/filter_object.go"],
  [("pattern to bit prefix", "Subscriptions.ToByteSubscriptions, tdt.MakePrefixFilterString"),
   ("index construction", "PatriciaTrieNode.build, SplayTreeNode.build, ByteSubscriptions.linkSubset"),
   ("lookup", "List.Search, PatriciaTrieNode.search, SplayTreeNode.splaySearch")],
  "the (identity, destinations, error) triple returned by a search")
p("F02", "The legacy text engine reports exactly the destinations whose text matches",
  "The text-matching engine reports a tag read to exactly those destinations holding a well-formed pattern whose text, with the filter value dropped (and, for ISO patterns, the field dots removed and the letters, which may be written in either case, in upper case), is a leading part of the scheme and fields of the tag's pure identity. The reported identity is the tag's own; a pattern of unknown type and a string that is no tag pattern match nothing; an undecodable tag, or a tag matching nothing, gives an error and no destination.",
  ["inputs", "configurations"],
  "every set of well-formed patterns (several destinations may share a pattern) and every tag",
  "The legacy search is tested on a single fixed pattern list; the guarantee is over all pattern sets and tags.",
  ["filtering/legacy_engine.go"],
  [("identity translation", "LegacyEngine.Search -> tdt.Core.Translate"), ("text prefix test", "LegacyEngine.Search")],
  "the (identity, destinations, error) triple returned by a search")
p("F03", "Searching never changes the answer of a later search",
  "For every engine, including the one that reorganises itself on each hit, the destinations and identity reported for a tag are the same no matter which searches were made before it, how many, or in which order.",
  ["histories"],
  "every subscription set and every finite sequence of searches, repeated or skewed, hits and misses mixed",
  "No test searches an engine twice; self-adjustment bugs need a particular sequence of hits on nested or sibling patterns.",
  ["filtering/splay_tree.go", "filtering/list.go", "filtering/patricia_trie.go", "filtering/legacy_engine.go"],
  [("move-to-front on hit", "SplayTreeNode.splaySearch"), ("read-only lookup", "List/PatriciaTrie/LegacyEngine Search")],
  "search results of one engine instance along a long search history", state="order and nesting of the tree's nodes")
p("F04", "Adding subscriptions to a live engine equals building with them",
  "After any sequence of additions (interleaved with searches) to any engine, built from any initial set including the empty one, every search answers as an engine freshly built from the union would. Adding a subscription that is already present changes nothing, and no earlier subscription is lost by an addition that is a prefix, an extension or a sibling of it.",
  ["histories"],
  "every initial set, every order and batching of additions, shorter after longer and longer after shorter",
  "Update tests exist only for the list with two patterns; trie splits and tree insertions depend on the order of prefixes, which a handful of cases does not sample.",
  ENG + ["filtering/legacy_engine.go"],
  [("insert", "List.AddSubscription, PatriciaTrieNode.add, SplayTreeNode.add, LegacyEngine.AddSubscription")],
  "search results after each addition", state="engine index")
p("F05", "Deleting subscriptions removes exactly those, in any update history",
  "After any sequence of additions, deletions and searches on any engine, every search answers as an engine freshly built from the remaining subscriptions would: a deleted pattern is never reported again, every other subscription is still reported, and a pattern may be deleted and added again, also for another destination. Deleting a subscription that is not present, or naming a pattern under a destination that does not hold it, changes nothing, and deleting everything leaves an engine that matches nothing and can be filled again.",
  ["histories"],
  "every initial set and every interleaving of batched additions, deletions and searches",
  "Deletion is untested for trie and tree and tested once for the list; node merges and aggregation nodes depend on the whole history.",
  ENG + ["filtering/legacy_engine.go"],
  [("remove", "List.DeleteSubscription, PatriciaTrieNode.delete, SplayTreeNode.delete, LegacyEngine.DeleteSubscription")],
  "search results after each update", state="engine index")
p("F06", "A saved engine restored elsewhere answers identically",
  "Saving any engine in any state reachable by building, updating and searching, and restoring it into a fresh or already filled engine of the same kind, in the same process or in another one, gives an engine that answers every search as the original does and keeps doing so under further identical updates. Saving does not alter the saved engine.",
  ["histories", "inputs"],
  "every engine kind and every reachable state, empty included",
  "The save/restore round trip is compared on one small structure per engine, if at all, and never after updates or searches.",
  ENG + ["filtering/legacy_engine.go"],
  [("encode", "MarshalBinary of each engine and node"), ("decode", "UnmarshalBinary of each engine and node")],
  "search results of original and restored engine")
p("F07", "Damaged or foreign saved data is refused without crashing",
  "Restoring an engine from data saved by another kind of engine, or from its own saved data cut short at any point, returns an error; the same holds for a saved subscription set that is cut short. No byte sequence whatever makes a restore crash or hang.",
  ["inputs", "crash_points"],
  "every truncation point of every saved state, every pair of engine kinds, arbitrary byte corruption",
  "Only the success path is tested; a torn write can cut the data anywhere.",
  ENG + ["filtering/legacy_engine.go", "filtering/subscriptions.go"],
  [("kind tag check", "UnmarshalBinary of each engine"), ("decode error propagation", "UnmarshalBinary of nodes and Subscriptions")],
  "the error returned by a restore")
p("F08", "Malformed patterns match nothing and disturb nothing",
  "A pattern that cannot be encoded (unknown type, too many or empty fields, non-numeric or oversized numeric fields, a company prefix that is not 6 to 12 digits, a filter value above 7, characters outside the 6-bit set, a bad container number, or a string that does not begin as a tag pattern does) never causes any tag to be reported by a binary engine, whether given at construction, by addition or by deletion. Its presence never changes what the well-formed patterns beside it report.",
  ["inputs", "histories"],
  "every malformed pattern, alone or mixed with any well-formed set, at build, add and delete time",
  "Error paths of pattern translation are not tested through the engines at all.",
  ["filtering/subscriptions.go", "tdt/core.go", "tdt/epc.go", "tdt/iso.go"],
  [("pattern parsing", "Subscriptions.ToByteSubscriptions"), ("field validation", "tdt.MakePrefixFilterString and NewPrefixFilter*")],
  "search results with and without the malformed patterns")
p("F09", "No tag content can crash or corrupt an engine",
  "A search on any engine returns normally for every tag read whatever its identifier and protocol-control bytes are: empty, shorter than the filters, longer than 96 bits, undecodable or random. It reports exactly the destinations whose prefix the bytes carry (with an error where no identity can be given), and later searches are unaffected.",
  ["inputs", "histories"],
  "every identifier of every length including zero, every protocol-control value and length",
  "Tests search with well-formed 96-bit tags only; a reader delivers whatever the air interface delivered.",
  ENG + ["filtering/legacy_engine.go", "filtering/filter_object.go", "filtering/engine.go"],
  [("bounds of the masked compare", "FilterObject.Match"), ("next bit lookup", "getNextBit"), ("translation", "tdt.Core.Translate")],
  "normal return and destinations of a search")
p("F10", "Engines and the caller's subscription sets are isolated",
  "Building, updating, searching, saving or restoring any engine never changes the subscription sets the caller passed in, and changing or reusing those sets afterwards never changes what the engine reports. A copy of a subscription set is equal to and independent of the original, and saving then restoring a set reproduces it exactly.",
  ["histories", "inputs"],
  "every subscription set, every update sequence, every later mutation by the caller",
  "Aliasing shows only when the caller reuses a slice with spare capacity after an update; no test does.",
  ["filtering/subscriptions.go", "filtering/legacy_engine.go", "filtering/engine_factory.go"],
  [("deep copy", "Subscriptions.Clone"), ("ingest", "NewLegacyEngine, LegacyEngine.AddSubscription/DeleteSubscription"), ("set persistence", "Subscriptions.MarshalBinary/UnmarshalBinary")],
  "caller's map contents and engine answers before and after")
p("F11", "A subscription file is loaded exactly",
  "Loading a subscription file yields, for every row whose first column is an http(s) address, that address in lower case mapped to all of the tag patterns in the row's other columns, verbatim and in order, with rows of one address accumulated; rows without such an address, and columns that do not begin as tag patterns do, in upper or lower case, contribute nothing.",
  ["inputs"],
  "every CSV file: quoted cells, ragged rows, repeated addresses, mixed case, comments and blank columns",
  "One fixed file is loaded in the tests.",
  ["filtering/subscriptions.go"],
  [("CSV reading and filtering", "LoadSubscriptionsFromCSVFile")],
  "the returned subscription set")
p("F12", "All engines agree, and reports do not depend on the engine in use",
  "For any workload on which text and bit semantics coincide (fully specified fields, one filter value), all four engines built from the same subscriptions report the same destinations and the same identity for every tag, before and after the same updates.",
  ["inputs", "histories", "configurations"],
  "every such subscription set, tag and update history, across all registered engines",
  "Engines are never compared with one another in the tests, though the factory swaps them at run time.",
  ["filtering/engine.go", "filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go"],
  [("engine registry", "AvailableEngines"), ("common interface", "Engine")],
  "search results of the registered engines side by side")
p("F13", "Bit filters with offsets and wildcards match exactly the right identifiers",
  "A bit filter made from a string of 0, 1 and wildcard positions at any bit offset matches an identifier exactly when every non-wildcard position equals the identifier's bit there; an identifier too short to hold a required bit does not match. Asking the filter for its byte and mask at a byte offset succeeds exactly for the bytes it spans, and a filter is called transparent exactly when it has no required bit.",
  ["inputs"],
  "every filter string and offset (aligned or not, across byte boundaries) and every identifier",
  "A few filters and identifiers are tested, none too short, few unaligned.",
  ["filtering/filter_object.go"],
  [("filter construction", "makeFilter, NewFilter"), ("masked compare", "FilterObject.Match"), ("byte access", "GetByteAt, HasByteAt, IsTransparent")],
  "return values of filter construction, match and byte access")
p("F14", "Factoring filters into a common part keeps what each filter matches",
  "Composing a set of bit filters that overlap in at least one byte yields a common filter and one residual per filter such that an identifier matches an original filter exactly when it matches both the common filter and that filter's residual.",
  ["inputs"],
  "every set of one or more overlapping filters with distinct bit strings, any offsets and wildcards, and every identifier",
  "Two fixed compositions are tested for structure, never for matching behaviour.",
  ["filtering/composition.go", "filtering/filter_object.go"],
  [("common part", "NewComposition"), ("residuals", "processWildcard, NewComposition")],
  "match results of the original filter, the common filter and the residual")
p("F15", "Destinations sharing a pattern are all reported",
  "When several destinations subscribe to the same pattern, a tag matching it is reported to each of them by every engine, whether they were given at construction or added later. Sharing never makes the pattern unreported altogether, never reports a destination that does not hold it, and never disturbs what other patterns report.",
  ["inputs", "histories"],
  "every subscription set in which a pattern occurs under two or more destinations, at build or by addition",
  "No test subscribes two destinations to one pattern; which one survives depends on map iteration order.",
  ENG + ["filtering/legacy_engine.go", "filtering/subscriptions.go"],
  [("pattern to destination map", "Subscriptions.ToByteSubscriptions"), ("insert", "PatriciaTrieNode.add, SplayTreeNode.add, List.AddSubscription")],
  "search results for a tag matching a shared pattern")
p("F16", "What an engine keeps is bounded by the subscriptions it holds",
  "However long the history of additions, deletions and searches on an engine, what it keeps follows the subscriptions it holds now and not those it held before: its memory, its dump and its saved data stay within a small constant factor and a small constant of those of an engine built anew from what it holds. Churn over a bounded number of subscriptions never makes an engine grow without bound.",
  ["histories"],
  "every update history of any length over any pattern types, nested and unrelated, on every engine",
  "Growth shows only after thousands of updates; the deletion tests of the trees are commented out, and none makes more than one update.",
  ENG + ["filtering/legacy_engine.go"],
  [("remove", "List.DeleteSubscription, PatriciaTrieNode.delete, SplayTreeNode.delete, LegacyEngine.DeleteSubscription"), ("joining of nodes", "PatriciaTrieNode.compact, SplayTreeNode.compact")],
  "saved data, dump and heap in use during and after a long churn", state="engine index")
p("T01", "Encoding then decoding an EPC returns the fields that went in",
  "For SGTIN-96, SSCC-96, GRAI-96 and GIAI-96, every company prefix length and every in-range value of every field (leading zeros and maxima included), the encoded tag is 96 bits with the standard header, filter, partition and field layout, and its pure identity shows exactly the fields that were encoded, zero padded as the scheme requires. The filter value never shows in the identity.",
  ["inputs"],
  "every scheme, filter value, partition and in-range field value",
  "Tests decode a few tags per scheme and never round trip; bit-shift errors in one of 28 scheme/partition cases stay invisible.",
  ["tdt/core.go", "scheme/epc.go"],
  [("encoder", "MakeSGTIN96, MakeSSCC96, MakeGRAI96, MakeGIAI96"), ("decoder", "tdt.Core.Translate"), ("partition tables", "tdt/epc.go, scheme/epc.go")],
  "encoded bytes and returned identity")
p("T02", "Encoding then decoding an ISO identifier returns the text that went in",
  "For container (17363) and transport-unit (17365) identifiers, and for every length and alignment of 6-bit text, the encoded identifier is the 6-bit text padded to 16-bit words, its protocol-control word states that length and the right application family, and decoding yields exactly the text with padding removed, under the standard's own name for each of the ten families.",
  ["inputs"],
  "every 6-bit text length modulo word size, every application family, every legal field content",
  "Tests decode a few fixed identifiers; alignment cases and most families are never exercised.",
  ["tdt/core.go", "tdt/iso.go", "scheme/iso.go", "scheme/generate.go"],
  [("encoder", "MakeISO17363, MakeISO17365, MakeISOPC, Pad6BitEncodingRuneSlice"), ("decoder", "tdt.Core.Translate")],
  "encoded bytes, protocol-control word and returned identity")
p("T03", "Undecodable tags give an error, never an identity or a crash",
  "Decoding returns normally for every protocol-control and identifier byte string. A tag that no supported scheme can decode (wrong protocol-control length, empty, unknown header, wrong length, reserved partition, a company prefix or reference value with more digits than its scheme allows, or an unassigned ISO family) gives an error and no identity, and a tag that decodes carries an identity of the form its scheme prescribes.",
  ["inputs"],
  "every protocol-control and identifier byte string of every length",
  "Tests feed one or two invalid tags; a single corrupt tag must not take the middleware down.",
  ["tdt/core.go"],
  [("validation while decoding", "tdt.Core.Translate, buildEPC, buildUII")],
  "error and identity returned by decoding")
p("T04", "A pattern's bit prefix covers exactly the tags with those leading fields",
  "For every supported pattern type and every number of leading fields given, the bit prefix computed for the pattern is a prefix of the encoding of every tag having those leading field values, and not of a tag of that type with a different value in any given field. Adding a field only extends the prefix, numeric fields mean their value (leading zeros other than in the company prefix do not matter), and the prefixes and pattern texts produced by the tag generator agree with those computed from the pattern.",
  ["inputs"],
  "every type, every field depth, every in-range field value",
  "One prefix per scheme is tested, none against an encoded tag.",
  ["tdt/epc.go", "tdt/iso.go", "tdt/core.go", "scheme/epc.go", "scheme/iso.go"],
  [("prefix computation", "MakePrefixFilterString, NewPrefixFilter*"), ("generator in prefix mode", "scheme.Make* with the prefix flag")],
  "prefix strings against encoded tags")
p("T05", "Generated tags are always valid",
  "When the tag generator is left to fill in fields that were not given (filter value, item reference, asset type, extension, serial, owner code, container number), the tag it returns is always well formed, keeps every field that was given, decodes without error, and each filled-in field is within the range its scheme allows.",
  ["inputs", "histories"],
  "every scheme, company prefix length, subset of omitted fields and every random outcome",
  "Random output is never validated; an out-of-range draw is rare.",
  ["scheme/epc.go", "scheme/iso.go", "scheme/generate.go"],
  [("random field generation", "GetFilter, GetItemReference, GetAssetType, GetExtension, GetIndivisualAssetReference, GetSerial"), ("record output", "MakeEPC, MakeISO, PrintID, PrintGoBytes")],
  "generated bytes decoded independently")
p("T06", "Container check digits follow ISO 6346",
  "For every owner code, equipment category and serial number, the check digit computed by the generator and the one embedded in the container patterns' bit prefix and in encoded container tags equal the ISO 6346 check digit (the check digit function for tags takes letters in either case), and a container number of the wrong length or with characters other than letters and digits is refused.",
  ["inputs"],
  "every 10-character container number",
  "The check digit has a single example in the generator's tests and none in the pattern code.",
  ["scheme/iso.go", "tdt/iso.go"],
  [("check digit", "GetISO6346CD, getISO6346CD")],
  "check digit values, bit prefixes and encoded tags")
p("R01", "The engine factory and its engines run free of data races",
  "While engines are being generated, selected and replaced, statistics are being collected on the interval timer, the factory's activity is polled and tag reads are being searched by the reading loop, no two goroutines of the factory, the engine generators and their callers access the same memory without synchronisation.",
  ["schedules"],
  "every interleaving of one searching loop with engine generation, selection, statistics ticks, activity polling and management message reading",
  "The factory has no test, and the suite is not run under a race detector.",
  ["filtering/engine_factory.go", "filtering/engine_generator.go"],
  [("engine selection", "EngineFactory.Run, Search, IsActive"), ("statistics", "NewEngineGenerator's monitor goroutine, EngineGenerator.Search")],
  "race detector reports over stress runs", state="current engine name, event and match counters")
p("R02", "The factory becomes active and its answers do not depend on the selected engine",
  "Once started with any subscription set, the factory becomes active, selects only engines that have finished generating, announces the engines it selects to its owner, and keeps answering every search exactly as the subscriptions demand while engines finish generating, are preferred over one another by priority and replaced for performance. A search made before it is active returns an error and no destination. It never blocks its owner, as long as the owner reads the management channel.",
  ["schedules", "histories", "configurations"],
  "every order in which engines become ready and every selection history, for subscription sets on which text and bit matching coincide",
  "No test starts the factory.",
  ["filtering/engine_factory.go", "filtering/engine_generator.go"],
  [("generation state machine", "EngineGenerator FSM"), ("selection", "EngineFactory.Run"), ("dispatch", "EngineFactory.Search")],
  "search results, activity flag and management messages over time", state="selected engine")
p("R03", "Traffic statistics lose and invent nothing",
  "Over any run, the event counts an engine reports on its interval add up to exactly the number of searches made on it, and its match counts to exactly the number of those searches that reported at least one destination; each search is counted in one interval only, with its match if it had one, so that no report tells of more matches than events. Reported throughput is a positive finite number.",
  ["schedules", "histories"],
  "every interleaving of searches with interval ticks",
  "Needs searches in flight across ticks; no test runs the statistics loop.",
  ["filtering/engine_generator.go", "filtering/engine_factory.go"],
  [("counters", "EngineGenerator.Search and monitor goroutine"), ("forwarding", "EngineFactory.Run")],
  "sums of reported counts against searches made", state="event, match and time counters")
p("R05", "Throughput is what the searches took, and selects the fastest engine",
  "The throughput an engine reports for an interval is the number of searches made on it in the interval, as its event count for the same interval tells, for each microsecond that these searches took together; it is reported once for every interval with searches that took measurable time, however short each of them was, and for no other. On each interval the factory selects an engine whose latest reported throughput is the greatest, keeps the one in use while none has been reported, and announces its selection.",
  ["schedules", "histories", "inputs"],
  "every sequence of search times from nanoseconds to milliseconds, as they change from interval to interval",
  "Needs engines of known speed observed over intervals; no test runs the statistics loop or the factory.",
  ["filtering/engine_generator.go", "filtering/engine_factory.go"],
  [("measurement", "EngineGenerator.Search and monitor goroutine"), ("selection on the interval", "EngineFactory.Run")],
  "throughput, traffic and selection messages against the time measured inside and outside the engines", state="totalTime, enginePerformance")
p("M01", "Every statistic is written to the time-series store exactly once",
  "Every traffic, throughput and engine-selection statistic handed to the statistics manager is written to the store as exactly one data point, in order, in the right database and measurement, with the right engine tag and the values it was given (and the match percentage they imply, whether or not it makes sense); a malformed traffic statistic (counts missing or not integers) writes nothing and does not stop later ones.",
  ["inputs", "histories"],
  "every sequence of statistics",
  "The statistics manager has no test.",
  ["monitoring/stat_manager.go", "monitoring/stat_message.go"],
  [("batching and writing", "NewStatManager's goroutine")],
  "write requests received by a stand-in store", state="the point batch")
p("E01", "The middleware processes the reader's whole message stream",
  "The running middleware answers every reader keepalive with one acknowledgement and every reader event notification with one reader configuration request, in order and carrying the configured message ID, and searches every tag of every access report exactly once, however the byte stream is split into packets, however reports are sized, whatever message IDs the reader uses, and however long a report takes to search while the next ones arrive. The event and match totals it publishes for an engine that was ready throughout equal the number of tags sent and the number of those that match the loaded subscriptions. This holds with or without statistics or subscriptions, when the reader comes up later than the middleware, and when the statistics store is slow for a while.",
  ["histories", "schedules", "inputs"],
  "every sequence of reader messages, every segmentation of the stream, every delay of reader and store",
  "The daemon's loop is in a function no test calls.",
  ["cmd/gosstrak-fc/main.go"],
  [("LLRP framing and dispatch", "run()"), ("search loop", "run()"), ("statistics relay", "run(), monitoring.NewStatManager")],
  "bytes on the reader socket and points in a stand-in store")
p("E02", "Hostile peers cannot wedge or mislead the middleware",
  "Any bytes sent to the management port, and any number of connections opened or dropped there, leave tag processing undisturbed, and a conforming management client gets its stream echoed. A reader message that declares a length shorter than its own header is refused at once: the middleware neither waits for nor allocates the gigabytes such a length would imply.",
  ["inputs", "fault_sequences"],
  "every byte stream on the management port; every declared message length below the header size",
  "No test opens either socket.",
  ["cmd/gosstrak-fc/main.go"],
  [("management listener", "run()"), ("length handling", "run()")],
  "keepalive answers and tag totals under attack; process end on a bad length")
p("E03", "The capture endpoint serves every conforming client",
  "The capture endpoint listens on the given port at every IPv4 address of its host and echoes the streams of every conforming client, whatever other peers send it and however many connections they open, hold or drop, and it keeps running; it recovers by itself once peers that exhausted its descriptors are gone.",
  ["inputs", "fault_sequences"],
  "every byte stream and every number of connections on the capture port",
  "The program is never run by a test.",
  ["cmd/ale-ec/main.go"],
  [("accept loop", "main()")],
  "streams of a conforming client before, during and after hostile connections; the process")
p("E04", "The programs' footprint does not grow with the work they have done",
  "The live heap, stacks, goroutines, threads and descriptors of the running middleware do not grow with the number of tags read, reader messages answered, statistics published or management clients that came and left; those of the capture endpoint do not grow with the number of clients that came and left. After any amount of such work they are as after little of it.",
  ["histories"],
  "every length of the reader's stream, all tags different or the same, and every number of clients served one after the other",
  "A leak shows only in a program that runs for long; no test runs either program.",
  ["cmd/gosstrak-fc/main.go", "cmd/ale-ec/main.go", "filtering/engine_factory.go", "filtering/engine_generator.go", "monitoring/stat_manager.go", "tdt/core.go"],
  [("search loop, statistics relay, management listener", "run()"), ("accept loop", "main() of ale-ec")],
  "the collector's own reports, /proc and a goroutine dump of the running program")
p("F19", "What subscription files say is what each destination gets",
  "From subscription files to reports: whatever files are loaded and applied, as the initial set, as additions and as deletions, with the subscriptions or the engine saved and restored in between, and however the reader packs its tags into access reports, each destination gets, from every engine, the pure identities of exactly the tags that match a pattern it holds, in reading order. This includes the benchmark sets shipped with the repository.",
  ["inputs", "histories", "configurations"],
  "every sequence of subscription files, every packing of tags into reports, every engine",
  "Tests exercise the loader, the sets, the engines and the reports separately.",
  ["filtering/subscriptions.go", "filtering/engine.go", "filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go", "tdt/core.go"],
  [("loading", "LoadSubscriptionsFromCSVFile"), ("byte form", "Subscriptions.ToByteSubscriptions"), ("engines", "AvailableEngines"), ("translation", "Core.Translate")],
  "the lists of identities collected for each destination, as the middleware collects them")
p("F20", "Engines and sets side by side do not disturb one another",
  "Engines of any kind, and subscription sets and filters, each with a history of its own, do not disturb one another: built, updated, searched, dumped, saved and restored in any interleaving, from one goroutine or each from its own at the same time, every one gives exactly what it gives on its own, whether they hold the same patterns for other destinations or different ones, and without a data race. This is what the factory relies on when it runs all engines at once.",
  ["inputs", "schedules", "histories"],
  "every set of engines, every interleaving of their histories, sequential or parallel",
  "Tests use one engine at a time, from one goroutine.",
  ["filtering/engine.go", "filtering/engine_generator.go", "filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go", "filtering/subscriptions.go", "filtering/filter_object.go", "tdt/core.go"],
  [("engines", "AvailableEngines"), ("byte form", "Subscriptions.ToByteSubscriptions"), ("filters", "NewFilter"), ("translation", "Core.Translate")],
  "answers, dumps, saved data and errors of public calls, and the race detector's reports")
p("E05", "The programs fail loudly and use what they are configured with",
  "When the middleware cannot go on it ends, with a failure status and a stated reason, and never goes on as if nothing had happened or reports success: when its reader's connection ends or is reset (between messages, inside a header or inside a body), when the reader sends a message it does not know, when statistics are enabled and their store is absent, goes away or refuses them, when the subscription file is missing or malformed, and when its management address is taken; the same holds for the capture endpoint and its port. None of these on the wire makes it crash. With statistics disabled it needs no store and writes none. The message ID it begins with, the statistics interval, and the store address, credentials and database it writes to are those configured, or those its help names where none is given.",
  ["fault_sequences", "inputs"],
  "every point of the stream at which the peer goes, every configuration",
  "Tests never run the program, so none sees how it ends.",
  ["cmd/gosstrak-fc/main.go", "cmd/ale-ec/main.go", "monitoring/stat_manager.go", "filtering/subscriptions.go"],
  [("reading loop", "run()"), ("listener", "run(), main() of ale-ec"), ("store", "NewStatManager"), ("subscription file", "LoadSubscriptionsFromCSVFile")],
  "exit status and last words of the real program, the requests its store saw")
p("R04", "An engine generator goes through its states and announces itself once for each engine and update",
  "A generator builds its engine exactly once, is ready afterwards and announces itself exactly once, with that engine; every accepted update takes it back to ready and announces it exactly once again, however late the announcements are taken, and searches meanwhile are answered as before. What does not fit its state (an update or rebuild before it is ready, a second init) is refused and changes nothing.",
  ["schedules", "histories"],
  "every interleaving of generation, updates, searches and the channel's owner",
  "Tests take a generator through its states once, undisturbed.",
  ["filtering/engine_generator.go"],
  [("state machine", "NewEngineGenerator"), ("transitions", "enterGenerating, enterPending, enterRebuilding, enterReady")],
  "messages on the management channel, state, answers", state="FSM, Engine")
p("F17", "Searching has no side effect, and its answer belongs to the caller",
  "A search never changes the bytes of the tag read, nor memory around them, and keeps no hold on them: the buffer may be used for the next read at once. The destinations and identity it returns stay as they are through any later searches and updates, and changing them changes nothing in the engine: every tag is reported as the subscriptions held say, in whatever order and however often tags are searched.",
  ["histories", "inputs"],
  "every sequence of reads, updates and uses the caller makes of its buffers and of the answers",
  "Tests search each tag once, in memory of its own, and drop the answer.",
  ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go", "filtering/filter_object.go", "tdt/core.go"],
  [("search of each engine", "Search"), ("translation", "Core.Translate")],
  "guarded read buffers, kept answers, answers judged by an independent matcher")
p("F18", "What an engine shows of itself is what it holds",
  "The dump of every engine, as built, after any sequence of additions, deletions and searches, and as restored, shows every subscription held with its destination and its bits (or its pattern text) in place, and none that is not held; asking for it changes nothing, a restored engine shows the same dump as the one saved, and an engine has the name it is registered under. The byte form of a subscription set holds the bits of every well-formed pattern with its destination, its dump shows every entry, and saving and restoring it, nested or not, reproduces it exactly; a part that is cut short is refused.",
  ["histories", "inputs"],
  "every subscription set, every update history, every nesting of the byte form, every cut point",
  "Dumps are compared for one small structure per engine and never after updates; the saving of the byte form is not tested at all.",
  ["filtering/list.go", "filtering/patricia_trie.go", "filtering/splay_tree.go", "filtering/legacy_engine.go", "filtering/filter_object.go", "filtering/subscriptions.go"],
  [("dumps", "Dump and print of each engine and of ByteSubscriptions"), ("byte form", "Subscriptions.ToByteSubscriptions"), ("its saving", "PartialSubscription.MarshalBinary/UnmarshalBinary")],
  "the dump's text, read back node by node, and the restored byte form")
p("T07", "A printed tag record names the tag that was asked for",
  "For every encodable tag, the printed record (protocol-control word in hexadecimal, comma, identifier in binary digits) and the printed Go bytes give exactly that tag's protocol-control word and identifier; the word's length field counts the identifier's 16-bit words; and the record reads back to the tag's pure identity. Where a field that must be given is missing, or a given field is none its scheme can hold (a company prefix that is not a number of 6 to 12 digits, a filter value above 7, a reference or serial that is no number or beyond its range, container or transport-unit text with a character outside the 6-bit set, a container field of the wrong length, text of more than 31 words), nothing is printed instead of another tag or pattern, and the encoder returns an error. Text is turned into 6-bit code character by character.",
  ["inputs"],
  "every scheme, every combination of field values, and every 6-bit text",
  "The printing helpers are tested on one example each.",
  ["scheme/generate.go", "scheme/epc.go", "scheme/iso.go"],
  [("record", "MakeEPC, MakeISO, PrintID, PrintGoBytes"), ("length in the protocol-control word", "MakeISOPC"), ("6-bit code", "Sixenc2bin")],
  "the printed text, parsed and decoded again")
p("G01", "Converting a tag list keeps every valid record and nothing else",
  "The tag converter writes, for every two-column record whose protocol-control word is hexadecimal and whose identifier is a whole number of bytes in binary digits, that tag in order, and skips every other record; the saved file loads back to the same tags. It never reports success when the file could not be written.",
  ["inputs"],
  "every two-column record list",
  "Only helper functions are tested; the program is never run.",
  ["cmd/gobtags/main.go"],
  [("conversion", "main()"), ("identifier and PC parsing", "makeByteID, makeUint16PC")],
  "the decoded output file")
p("T08", "Translation and tag making are safe for concurrent use and keep nothing between calls",
  "Decoding tags, computing pattern prefixes, making and printing tags may be done from any number of goroutines at once, on one translation core or several: there is no data race, every call gives what it gives alone, and no result depends on which calls came before. The caller's bytes and fields are left as they were.",
  ["schedules", "histories", "inputs"],
  "every set of calls, every order and every interleaving",
  "No test calls these functions from two goroutines, or twice in different orders.",
  ["tdt/core.go", "tdt/epc.go", "tdt/iso.go", "scheme/epc.go", "scheme/iso.go", "scheme/generate.go"],
  [("translation", "Core.Translate"), ("prefixes", "MakePrefixFilterString"), ("tags and records", "MakeEPC, MakeISO, PrintID")],
  "results known beforehand, race detector reports")
p("G02", "A generated data set is complete and consistent",
  "The data set generator (test/gendataset.go) ends with success and leaves, for every company and item it names a file for, 100 tag records that decode to exactly that scheme, company and item (with the serials 0 to 99 where the scheme has a serial), and a filter list in which every file that was to be matched has its patterns with their right bits, each selecting all the file's tags, and which holds nothing else. Its workers share nothing without synchronisation.",
  ["schedules", "inputs"],
  "every size and match percentage, every interleaving of the workers and the filter writer, every draw of companies and items",
  "The generator is never run by a test.",
  ["test/gendataset.go", "scheme/generate.go", "scheme/epc.go", "scheme/iso.go"],
  [("files and filters", "generateUIISet, filterWriter"), ("tag and pattern making", "MakeEPC, MakeISO, PrintID")],
  "the files, decoded again; the exit status; race detector reports")
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P), "properties")
