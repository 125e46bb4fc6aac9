ST='filtering/splay_tree.go';PT='filtering/patricia_trie.go';SU='filtering/subscriptions.go';LI='filtering/list.go';LE='filtering/legacy_engine.go';FO='filtering/filter_object.go';CO='filtering/composition.go'
seed('f01-list-stops-early','F01',[(LI,'''			reportURIs = append(reportURIs, em.reportURI)
		}
''','''			reportURIs = append(reportURIs, em.reportURI)
		} else if len(reportURIs) != 0 { // the filters are in order, so those matching follow each other
			break
		}
''')],'nested patterns with an unrelated pattern sorted between two that match the same tag',
'The list engine stops at the first filter that does not match after one that did, and misses longer patterns sorted later.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	l := NewList(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.000001"},
		"http://c": {"urn:epc:pat:sgtin-96:3.0614141.812345"},
	})
	want(t, "list", ask(l, sgtin("3", "0614141", "812345", "7")), "http://a http://c")
}''')
seed('f01-trie-build-break','F01',[(PT,'''		if len(fk) < len(prefix) {
			continue
		}''','''		if len(fk) < len(prefix) {
			break
		}''')],'three nested levels: a subscription, and two below it that share more leading bits',
'Building the trie stops looking for branches at the first filter shorter than the prefix, although longer ones follow.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewPatriciaTrie(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.812345"},
		"http://c": {"urn:epc:pat:sgtin-96:3.0614141.812345.7"},
	})
	want(t, "trie", ask(e, sgtin("3", "0614141", "812345", "7")), "http://a http://b http://c")
}''')
seed('f02-iso-dots','F02',[(LE,'''			case "iso17365":
				pattern = patternType + ":" + strings.Replace(pattern, ".", "", -1)''','''			case "iso17365":
				pattern = patternType + ":" + strings.Replace(pattern, ".", "", 2)''')],
'an ISO 17365 pattern given down to its serial number',
'The text engine leaves the last dot in a fully specified ISO 17365 pattern, which then matches nothing.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	id, n, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "043325711", "MH8031200000000001")
	if err != nil {
		t.Fatal(err)
	}
	re := read(scheme.MakeISOPC(n, "A2"), id)
	e := NewLegacyEngine(Subscriptions{"http://a": {"urn:epc:pat:iso17365:25S.UN.043325711.MH8031200000000001"}})
	want(t, "legacy", ask(e, re), "http://a")
}''')
seed('f02-malformed-ends-list','F02',[(LE,'''			if len(seq) != 5 {
				continue
			}''','''			if len(seq) != 5 {
				break
			}''')],'a destination whose list holds a string that is no pattern before a well-formed one',
'The text engine gives up on a destination at the first string that is not a pattern.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewLegacyEngine(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96", "urn:epc:pat:sgtin-96:3.0614141"}})
	want(t, "legacy", ask(e, sgtin("3", "0614141", "812345", "7")), "http://a")
}''')
seed('f03-splay-cuts-chain','F03',[(ST,'''			parent.mismatchNext = stn.mismatchNext
''','''			parent.mismatchNext = nil
			if stn.matchNext == nil || stn.mismatchNext != nil && stn.mismatchNext.matchNext != nil {
				parent.mismatchNext = stn.mismatchNext
			}
''')],
'a hit on a pattern with nested ones that is neither first nor last in its chain, then a search for one behind it',
'Moving a node with nested patterns to the head cuts off the nodes behind it unless the next one has nested patterns too.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614142"},
		"http://c": {"urn:epc:pat:sgtin-96:3.0614142.812345"},
		"http://d": {"urn:epc:pat:sgtin-96:3.0614143"},
	})
	for i := 0; i < 3; i++ {
		want(t, "c", ask(e, sgtin("3", "0614142", "812345", "7")), "http://b http://c")
		want(t, "d", ask(e, sgtin("3", "0614143", "812345", "7")), "http://d")
		want(t, "a", ask(e, sgtin("3", "0614141", "100000", "7")), "http://a")
	}
}''')
seed('f03-trie-remembers','F03',[(PT,'''	tdtCore *tdt.Core
}

// PatriciaTrieNode is''','''	tdtCore *tdt.Core
	lastID  string   // the tag read last, it is often read again
	last    []string // and where it was reported
}

// PatriciaTrieNode is'''),(PT,'''	reportURIs = pt.root.search(re.ID)
	if len(reportURIs) == 0 {''','''	if len(pt.lastID) == 0 || pt.lastID != string(re.ID) {
		pt.lastID, pt.last = string(re.ID), pt.root.search(re.ID)
	}
	reportURIs = pt.last
	if len(reportURIs) == 0 {''')],
'the same tag read again right after a subscription change',
'The trie remembers where the last tag was reported and repeats it although subscriptions were added or deleted since.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewPatriciaTrie(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	re := sgtin("3", "0614141", "812345", "7")
	want(t, "before", ask(e, re), "http://a")
	e.AddSubscription(Subscriptions{"http://b": {"urn:epc:pat:sgtin-96:3.0614141.812345"}})
	want(t, "after", ask(e, re), "http://a http://b")
}''')
seed('f04-trie-offset','F04',[(PT,'''			ptn.zero.filterObject = NewFilter(fs[ncpLength:], currentOffset+ncpLength)''','''			ptn.zero.filterObject = NewFilter(fs[ncpLength:], ncpLength)''')],
'adding a sibling that splits a node below the root, towards the zero branch',
'A node created by splitting a deeper trie node is given its offset from the split node instead of from the start of the tag.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewPatriciaTrie(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.812345"},
	})
	for _, ir := range []string{"812344", "612345", "112345", "012345", "812341"} {
		c := Subscriptions{"http://c": {"urn:epc:pat:sgtin-96:3.0614141." + ir}}
		e.AddSubscription(c)
		want(t, "trie c", ask(e, sgtin("3", "0614141", ir, "7")), "http://a http://c")
		want(t, "trie b", ask(e, sgtin("3", "0614141", "812345", "7")), "http://a http://b")
		e.DeleteSubscription(c)
	}
}''')
seed('f04-splay-nested-offset','F04',[(ST,'''			stn.mismatchNext.filterObject = NewFilter(fs, stn.filterObject.Offset)
			stn.mismatchNext.reportURI = reportURI''','''			stn.mismatchNext.filterObject = NewFilter(fs, 0)
			stn.mismatchNext.reportURI = reportURI''')],
'adding a second pattern nested in the same one',
'A pattern added beside another nested one is compared from the start of the tag.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.812345"},
	})
	e.AddSubscription(Subscriptions{"http://c": {"urn:epc:pat:sgtin-96:3.0614141.112345"}})
	want(t, "splay", ask(e, sgtin("3", "0614141", "112345", "7")), "http://a http://c")
}''')
seed('f05-splay-unlink-order','F05',[(ST,'''				stn.matchNext = stn.mismatchNext.matchNext
				stn.mismatchNext = stn.mismatchNext.mismatchNext
''','''				next := stn.mismatchNext.mismatchNext
				if next != nil {
					stn.matchNext = next.matchNext
				}
				stn.mismatchNext = next
''')],'deleting a node followed by one that holds nested patterns',
'Deleting a node of the self-adjusting tree loses the patterns nested in the node that takes its place.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0514141"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://c": {"urn:epc:pat:sgtin-96:3.0614141.812345"},
	})
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0514141"}})
	want(t, "splay", ask(e, sgtin("3", "0614141", "812345", "7")), "http://b http://c")
}''')
seed('f05-trie-leaf-check','F05',[(PT,'''					ptn.zero.one == nil && ptn.zero.zero == nil {''','''					ptn.zero.one == nil {''')],
'deleting a pattern that has exactly one longer pattern below it, branching on a zero bit',
'A trie node with only a zero branch is taken for a leaf and deleted together with the pattern below it.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewPatriciaTrie(Subscriptions{
		"http://r": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141.012345"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.012345.7"},
	})
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141.012345"}})
	want(t, "trie", ask(e, sgtin("3", "0614141", "012345", "7")), "http://b http://r")
}''')
seed('f05-trie-merge-order','F05',[(PT,'''			ptn.one = ptn.zero.one
			ptn.zero = ptn.zero.zero
''','''			ptn.zero = ptn.zero.zero
			if ptn.zero != nil {
				ptn.one = ptn.zero.one
			}
''')],'deleting a pattern whose only longer pattern itself has two below it',
'Merging a trie node with its zero branch takes the one branch of the wrong node.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	sub := Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.012345"},
		"http://c": {"urn:epc:pat:sgtin-96:3.0614141.012345.7"},
		"http://d": {"urn:epc:pat:sgtin-96:3.0614141.012345.274877906943"},
	}
	e := NewPatriciaTrie(sub)
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	want(t, "d", ask(e, sgtin("3", "0614141", "012345", "274877906943")), "http://b http://d")
	want(t, "c", ask(e, sgtin("3", "0614141", "012345", "7")), "http://b http://c")
}''')
seed('f06-prune-when-saving','F06',[(PT,'''	hasZero := ptn.zero != nil
''','''	// an aggregation node left behind by a deletion need not be saved
	hasZero := ptn.zero != nil && (len(ptn.zero.reportURI) != 0 || ptn.zero.one != nil)
''')],'saving after deletions left a node without destination and with only a zero branch',
'Saving the trie drops nodes that only lead to a zero branch.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewPatriciaTrie(Subscriptions{
		"http://r": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141.012345"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.012345.7"},
		"http://c": {"urn:epc:pat:sgtin-96:3.0614141.012345.274877906943"},
	})
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141.012345"}})
	e.DeleteSubscription(Subscriptions{"http://c": {"urn:epc:pat:sgtin-96:3.0614141.012345.274877906943"}})
	data, err := e.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	r := NewPatriciaTrie(Subscriptions{})
	if err := r.UnmarshalBinary(data); err != nil {
		t.Fatal(err)
	}
	re := sgtin("3", "0614141", "012345", "7")
	want(t, "original", ask(e, re), "http://b http://r")
	want(t, "restored", ask(r, re), "http://b http://r")
}''')
seed('f06-splay-keeps-old','F06',[(ST,'''		err = dec.Decode(&stn.matchNext)
	} else {
		stn.matchNext = nil
	}''','''		err = dec.Decode(&stn.matchNext)
		if err != nil {
			return
		}
		if stn.matchNext.mismatchNext == nil && len(stn.matchNext.reportURI) == 0 {
			stn.matchNext = nil // an aggregation node left behind by a deletion
		}
	} else {
		stn.matchNext = nil
	}''')],'restoring a tree in which a deletion left a nested node without destination that still leads to others',
'Restoring the self-adjusting tree drops nested nodes without destination even if patterns are nested in them.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{
		"http://r": {"urn:epc:pat:sgtin-96:3.0614141"},
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141.012345"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.012345.7"},
		"http://c": {"urn:epc:pat:sgtin-96:3.0614141.012345.8"},
	})
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141.012345"}})
	data, err := e.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	r := NewSplayTree(Subscriptions{})
	if err := r.UnmarshalBinary(data); err != nil {
		t.Fatal(err)
	}
	re := sgtin("3", "0614141", "012345", "7")
	want(t, "original", ask(e, re), "http://b http://r")
	want(t, "restored", ask(r, re), "http://b http://r")
}''')
seed('f07-cut-set-accepted','F07',[(SU,'''		if err = dec.Decode(&fs); err != nil {
			return
		}

		// size of dests''','''		if err = dec.Decode(&fs); err == io.EOF {
			return nil // nothing more was saved
		} else if err != nil {
			return
		}

		// size of dests''')],'a saved subscription set cut exactly between two destinations',
'A saved subscription set that ends after any destination is accepted as complete.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	data, err := Subscriptions{"http://a": {"x"}, "http://b": {"y"}}.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	for n := 0; n < len(data); n++ {
		if err := (Subscriptions{}).UnmarshalBinary(data[:n]); err == nil {
			t.Errorf("accepted when cut to %d of %d bytes", n, len(data))
		}
	}
}''')
seed('f07-presized','F07',[(LE,'''		var reportURIs []string
''','''		reportURIs := make([]string, 0, reportURIsSize)
''')],'saved data of the text engine damaged in the byte that tells how many patterns follow',
'Restoring the text engine reserves whatever number of patterns the damaged data announces, and panics if that is negative or huge.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	data, err := NewLegacyEngine(Subscriptions{"http://a": {"x"}}).MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	for i := range data {
		for b := 0; b < 256; b++ {
			d := append([]byte{}, data...)
			d[i] = byte(b)
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Errorf("byte %d = %d: %v", i, b, r)
					}
				}()
				NewLegacyEngine(Subscriptions{}).UnmarshalBinary(d)
			}()
		}
	}
}''')
seed('f08-extra-colon','F08',[(SU,'''			if len(tf) != 2 { // should only containts a type and fields''','''			if len(tf) < 2 { // should containts a type and fields''')],
'a pattern with a third part after its fields',
'A string with more than a type and fields is taken for a pattern.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141:812345"}})
	want(t, "list", ask(e, sgtin("3", "0614141", "812345", "7")), "")
}''')
seed('f08-fifth-field','F08',[('tdt/iso.go','''	serialNumber := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[3]))
	if nFields == 4 {''','''	serialNumber := binutil.ParseRuneSliceTo6BinRuneSlice([]rune(fields[3]))
	if nFields >= 4 {''')],'an ISO 17365 pattern with a fifth field',
'A transport-unit pattern with too many fields is accepted, and the surplus is ignored.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	id, n, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "043325711", "MH8031200000000001")
	if err != nil {
		t.Fatal(err)
	}
	e := NewSplayTree(Subscriptions{"http://a": {"urn:epc:pat:iso17365:25S.UN.043325711.MH8031200000000001.X"}})
	want(t, "splay", ask(e, read(scheme.MakeISOPC(n, "A2"), id)), "")
}''')
seed('f09-short-tags-skipped','F09',[(LI,'''		if em.filter.Match(re.ID) {''','''		if len(re.ID) > em.filter.ByteSize && em.filter.Match(re.ID) {''')],
'a tag identifier exactly as many bytes long as a filter',
'The list engine does not report a tag whose identifier is just as long as the filter.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}})
	want(t, "list", ask(e, read([]byte{0x30, 0}, []byte{0x30, 0x60})), "http://a")
}''')
seed('f10-shallow-clone','F10',[(SU,'''		clone[f] = []string{}
		for _, dest := range sub[f] {
			clone[f] = append(clone[f], dest)
		}''','''		clone[f] = append(sub[f], []string{}...)''')],
'deleting one of several patterns of a destination from the text engine, and then looking at the set it was built from',
'A copied subscription set shares its pattern lists with the original, so deleting from the text engine shifts the caller\'s patterns.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	sub := Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141", "urn:epc:pat:sgtin-96:3.0614142"}}
	e := NewLegacyEngine(sub)
	e.DeleteSubscription(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	want(t, "the caller's set", strings.Join(sub["http://a"], " "), "urn:epc:pat:sgtin-96:3.0614141 urn:epc:pat:sgtin-96:3.0614142")
}''')
seed('f10-restore-aliases','F10',[(SU,'''	for i := 0; i < subSize; i++ {
		var fs string''','''	var dests []string // reused for each destination
	for i := 0; i < subSize; i++ {
		var fs string'''),(SU,'''		var dests []string
		for j := 0; j < destSize; j++ {''','''		dests = dests[len(dests):]
		for j := 0; j < destSize; j++ {'''),(SU,'''		sub[fs] = dests
''','''		sub[fs] = dests[:len(dests)]
''')],'restoring a set with several destinations and appending to one of them',
'The pattern lists of a restored set share their memory, so that adding to one overwrites the next.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	s := Subscriptions{"http://a": {"1", "2", "3"}, "http://b": {"4"}}
	data, _ := s.MarshalBinary()
	r := Subscriptions{}
	if err := r.UnmarshalBinary(data); err != nil {
		t.Fatal(err)
	}
	r["http://a"] = append(r["http://a"], "5")
	want(t, "b", strings.Join(r["http://b"], " "), "4")
}''')
seed('f11-last-row-wins','F11',[(SU,'''			if strings.HasPrefix(strings.ToLower(pat), "urn:epc:pat:") {
				if _, ok := sub[reportURI]; !ok {''','''			if strings.HasPrefix(strings.ToLower(pat), "urn:epc:pat:") {
				if _, ok := sub[reportURI]; !ok || i == 1 {''')],
'two rows for one address',
'A second row of an address replaces the patterns of the first instead of adding to them.',
pkg='filtering',imports=['os','path/filepath'],demo='''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "s.csv")
	os.WriteFile(f, []byte("http://a,urn:epc:pat:sgtin-96:3\\nhttp://b,urn:epc:pat:sgtin-96:4\\nhttp://a,urn:epc:pat:sgtin-96:5\\n"), 0644)
	sub := LoadSubscriptionsFromCSVFile(f)
	want(t, "a", strings.Join(sub["http://a"], " "), "urn:epc:pat:sgtin-96:3 urn:epc:pat:sgtin-96:5")
}''')
seed('f11-upper-case-address','F11',[(SU,'''		if !strings.HasPrefix(reportURI, "http") {''','''		if !strings.HasPrefix(record[0], "http") {''')],
'an address written in capitals',
'Rows whose address is not written in lower case are skipped.',
pkg='filtering',imports=['os','path/filepath'],demo='''
func TestDemo(t *testing.T) {
	f := filepath.Join(t.TempDir(), "s.csv")
	os.WriteFile(f, []byte("HTTP://A,urn:epc:pat:sgtin-96:3\\n"), 0644)
	sub := LoadSubscriptionsFromCSVFile(f)
	want(t, "a", strings.Join(sub["http://a"], " "), "urn:epc:pat:sgtin-96:3")
}''')
seed('f12-legacy-once','F12',[(LE,'''				reportURIs = append(reportURIs, reportURI)
			}
		}
''','''				reportURIs = append(reportURIs, reportURI)
				return // a tag has one serial number
			}
		}
''')],'two destinations holding the same tag in full, or one nested in the other',
'The text engine stops at the first destination that matches.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	sub := Subscriptions{
		"http://a": {"urn:epc:pat:sgtin-96:3.0614141.812345.7"},
		"http://b": {"urn:epc:pat:sgtin-96:3.0614141.812345"},
	}
	re := sgtin("3", "0614141", "812345", "7")
	want(t, "list", ask(NewList(sub), re), "http://a http://b")
	want(t, "legacy", ask(NewLegacyEngine(sub), re), "http://a http://b")
}''')
seed('f12-grai-no-filter','F12',[(LE,'''				pattern = "grai:" + strings.Join(fields[1:], ".")''','''				pattern = "grai:" + strings.TrimLeft(strings.TrimPrefix(seq[4], fields[0]), ".0")''')],
'a GRAI pattern whose company prefix begins with a zero',
'The text engine drops leading zeros of the company prefix of GRAI patterns and disagrees with the others.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	sub := Subscriptions{"http://a": {"urn:epc:pat:grai-96:3.0614141.12345.400"}}
	id, _, _, err := scheme.MakeGRAI96(false, "3", "0614141", "12345", "400")
	if err != nil {
		t.Fatal(err)
	}
	re := read([]byte{0x30, 0}, id)
	want(t, "list", ask(NewList(sub), re), "http://a")
	want(t, "legacy", ask(NewLegacyEngine(sub), re), "http://a")
}''')
seed('f13-transparent','F13',[(FO,'''	check := make([]byte, f.ByteSize)
	for i := 0; i < f.ByteSize; i++ {
		check[i] = 255
	}
	if reflect.DeepEqual(f.ByteFilter, check) &&
		reflect.DeepEqual(f.ByteMask, check) {
		return true
	}
	return false''','''	check := make([]byte, f.ByteSize)
	for i := 0; i < f.ByteSize; i++ {
		check[i] = 255
	}
	return reflect.DeepEqual(f.ByteFilter, check) && (f.ByteSize == 0 || f.ByteMask[0] == 255)''')],
'a filter of ones whose first byte is all wildcards',
'A filter is called transparent when only its first byte has no required bit.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	if NewFilter("xxxxxxxx11111111", 0).IsTransparent() {
		t.Error("a filter that requires eight ones is called transparent")
	}
}''')
seed('f14-first-mask','F14',[(CO,'''			pmask[i] = pmask[i] | f.ByteMask[head-f.ByteOffset+i]''','''			pmask[i] = f.ByteMask[head-f.ByteOffset+i]''')],
'three or more filters of which one that is not the last has a wildcard where all others have a one',
'The common part requires a bit that one of the filters does not.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	a, b := NewFilter("1111xxxx", 0), NewFilter("11111111", 0)
	c := NewComposition([]*FilterObject{a, b})
	id := []byte{0xF0}
	if !(NewFilter(c.filter, c.offset).Match(id) && c.children["1111xxxx"].Match(id)) {
		t.Error("11110000 does not match what 1111xxxx was factored into")
	}
}''')
seed('f15-same-filter','F15',[(LI,'''		if reflect.DeepEqual(a, em) {''','''		if reflect.DeepEqual(a.filter, em.filter) {''')],
'a second destination added for a pattern that a live list engine already has',
'The list engine takes a pattern for present although another destination holds it, and deletes it for any destination.',
pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	e.AddSubscription(Subscriptions{"http://b": {"urn:epc:pat:sgtin-96:3.0614141"}})
	want(t, "list", ask(e, sgtin("3", "0614141", "812345", "7")), "http://a http://b")
}''')
