#!/usr/bin/env python3
"""Writes /verif/KNOWN_FINDINGS (by hand, never from a check)."""
F=[("F15",c+":"+w,"%s reports a tag to only one of several destinations that hold the same pattern when they were given %s: the engine keys its filters by the pattern's bits and holds one destination for each"%(c,d))
   for c,w,d in [("List","at-build","at construction"),("PatriciaTrie","at-build","at construction"),("PatriciaTrie","by-addition","by addition"),("SplayTree","at-build","at construction"),("SplayTree","by-addition","by addition")]]
for p in ("E02","E03"):
    F.append((p,"spdy-header-count","one SYN_STREAM frame whose header block declares 2^32-2^28 headers makes the SPDY library (spdystream v0.5.0, parseHeaderValueBlock) allocate a map of that size, and the process ends out of memory; repaired in the library by a later version, which is not available here"))
    F.append((p,"spdy-jammed-queue","a peer opens a unidirectional stream, resets it and sends more than 50 further frames for it: a frame worker of the SPDY library (spdystream v0.5.0, handleResetFrame) blocks for ever, its queue fills, the library stops reading, and the connection stays open after the peer has left; nothing outside the library can tell"))
F.append(("F14","same-text-other-offset","of two filters with the same text at different offsets, composed, only one has a residual: residuals are kept by the text of the filter alone (filtering/composition.go; not repaired because existing tests and callers look residuals up by that text)"))
F.append(("G01","not-binary-digits","the tag library's loader (go-llrp LoadTagsFromCSV, NewTag) takes any character but 1 in an identifier for a 0: the record '3000,abcdefgh' becomes a tag"))
F.append(("G01","uneven-columns","the tag library's loader (go-llrp LoadTagsFromCSV) panics at a record with another number of columns than the first one instead of skipping it"))
F.append(("G02","grai-drawn-twice","the generator ends with '<nil>' and exit status 1, leaving a partial data set, when it draws an asset type (grai-96) twice: the file exists already; the other schemes go on (test/gendataset.go, log.Fatal in case grai-96; not repaired because commits may not touch files under test/)"))
F.append(("G02","last-filter-lost","the generator ends without waiting for filterWriter, and the filter it received last may be missing from filters.csv (test/gendataset.go; not repaired for the same reason)"))
X='''77ce0b9 G01 success was reported when the output could not be written
c42411c F08 a pattern that cannot be encoded became an empty filter matching every tag
218fae5 F09 reading past the end of a tag identifier shorter than a filter panicked
044c10c F01 the trie lost a subscription equal to the common prefix of its siblings
85954b5 F04 adding a shorter prefix to the trie lost the subtree below it
a8cfbb1 F05 deleting the root of the trie, or another destination's pattern, was wrong
f6ec9d1 F06 the zero branch of a trie node was not restored
9576433 F03 splaying a nested node corrupted the tree of the level above
449fcb5 F05 a deleted node that stayed for aggregation was reported as an empty destination
5e76048 F01 a splay tree built from no subscription panicked
acf9723 F04 adding a shorter prefix to the splay tree lost reports of the subsets it covers
a5c718e F05 the last node of the splay tree could not be deleted, and other destinations' patterns were
9991550 F06 restoring into a filled engine kept parts of what it held
44ffd7b F05 the legacy engine appended to and removed from the caller's sets, and removed the wrong patterns
01239b0 F06 the legacy engine could not be restored
52c35e3 F02 a pattern of unknown type matched every tag in the legacy engine
7390e21 T06 the check digit of a container was computed from something else than the container number
dac58ce T03 tags that cannot be translated panicked or gave an identity
cbe89bc F08 pattern fields that cannot be encoded were encoded as something else
fe0eaa7 T06 a container number with invalid characters was given a check digit
7115fd5 R01 the factory and its generators shared engines, counters and flags without synchronisation
af6e679 R03 an interval with events but no measured time reported an infinite throughput
ead2c6e R02 searching before any engine was available crashed
161b0c6 R02 the factory consumed messages meant for its owner from the management channel
6f6aca5 M01 every statistic was written twice
99661f8 M01 a malformed traffic statistic ended the statistics manager
18880d7 E01 the initial message ID flag was ignored
37cc977 E02 a message length shorter than the header made the middleware allocate gigabytes
d5139ad E02 one failed accept on the management port ended the middleware
829c754 E02 management connections dropped by their peers kept their descriptors
3a066c8 E03 one failed accept ended the capture endpoint
64fc0cc E03 connections dropped by their peers kept their descriptors
71f57c4 E02 management connections with a stuck frame worker kept their descriptors
5887dfc E03 connections with a stuck frame worker kept their descriptors
fa2f709 F16 deleting left nodes that report nothing in the trie and the tree, which grew without bound
4d244b4 T07 a company prefix that no tag can have was encoded as another tag
c51d177 F08 a pattern without its beginning was honoured, and one that begins in upper case ignored, by the engines that compare bits
5a411a6 F02 an ISO pattern written in lower case matched nothing in the legacy engine
b583650 R03 a match was reported in an interval before that of its search, so that 0 events had 1 match
a2824db T07 an EPC field that is no number or beyond its range was encoded as another tag
97b281c T07 container and transport-unit text without 6-bit code was encoded as other text, and text of more than 31 words ended the program
b960891 R05 searches that take less than a microsecond were counted as taking no time: fast engines had no throughput, or one much too high'''
with open('/verif/KNOWN_FINDINGS','w') as f:
    f.write("# Known findings, see DESIGN.md. Checks read the lines 'finding:' and never write here.\n")
    for p,t,d in F: f.write(f"finding: property={p} input={t} {d}\n")
    for l in X.splitlines():
        h,p,d=l.split(' ',2); f.write(f"fixed: property={p} {h} {d}\n")
