FO='filtering/filter_object.go'; CO='filtering/composition.go'; LI='filtering/list.go'; PT='filtering/patricia_trie.go'; ST='filtering/splay_tree.go'; EF='filtering/engine_factory.go'; EG='filtering/engine_generator.go'; SU='filtering/subscriptions.go'
seed('f13-far-offset','F13',[(FO,'	return offset / ByteLength, f, m','	return int(uint8(offset / ByteLength)), f, m')],
'a filter more than 256 bytes into the identifier','The byte offset of a filter is kept in 8 bits.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	f := NewFilter("1", 2048)
	id := make([]byte, 257)
	want(t, "zero", fmt.Sprint(f.Match(id)), "false")
	id[256] = 128
	want(t, "one", fmt.Sprint(f.Match(id)), "true")
}''')
seed('f14-first-difference','F14',[(CO,'''			xmask[i] |= xm
''','''			xmask[i] |= xm
			if xm != 0 && i != 0 {
				break
			}
''')],
'filters of three or more common bytes that differ in two of them after the first','The common filter keeps requiring bits in which the filters differ, after the first byte in which they do.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	a, b := NewFilter("000000000000000100000001", 0), NewFilter("000000000000001000000010", 0)
	c := NewComposition([]*FilterObject{a, b})
	common := NewFilter(c.filter, c.offset)
	for _, id := range [][]byte{{0, 1, 1}, {0, 2, 2}, {0, 1, 2}, {0, 0, 0}} {
		for _, f := range []*FilterObject{a, b} {
			want(t, f.String, fmt.Sprint(common.Match(id) && c.children[f.String].Match(id)), fmt.Sprint(f.Match(id)))
		}
	}
}''')
seed('f15-list-by-filter','F15',[(LI,'if reflect.DeepEqual(a, em) {','if reflect.DeepEqual(a.filter, em.filter) {')],
'a destination added to a pattern another destination holds already','The list takes a filter for present when another destination holds it, so the second one is not added.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	e.AddSubscription(Subscriptions{"http://b": {"urn:epc:pat:sgtin-96:3.0614141"}})
	want(t, "shared", ask(e, sgtin("3", "0614141", "112345", "1")), "http://a http://b")
}''')
seed('f09-undecodable-dropped','F09',[(ST,'''	pureIdentity, err = st.tdtCore.Translate(re.PC, re.ID)
	return
}''','''	if pureIdentity, err = st.tdtCore.Translate(re.PC, re.ID); err != nil {
		return "", []string{}, err
	}
	return
}''')],
'a tag that carries a pattern but has no identity','The tree reports no destination for a tag that cannot be decoded although it carries a subscribed prefix.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	re := sgtin("3", "0614141", "112345", "1")
	re.ID = append(re.ID, 0)
	want(t, "long", ask(e, re), "http://a")
}''')
seed('f17-mask-in-place','F17',[(FO,'''		if (id[f.ByteOffset+i]|f.ByteMask[i])^f.ByteFilter[i] != byte(0) {
			return false
		}
''','''		b := id[f.ByteOffset+i]
		id[f.ByteOffset+i] |= f.ByteMask[i] // the other bits do not matter
		if id[f.ByteOffset+i] != f.ByteFilter[i] {
			return false
		}
		id[f.ByteOffset+i] = b
''')],
'a tag that fails a filter in a byte the filter covers in part','Matching changes the tag: the bits beside the filter stay set where it does not match.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	re := sgtin("3", "0614141", "112345", "1")
	before := fmt.Sprint(re.ID)
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614140"}})
	ask(e, re)
	want(t, "bytes", fmt.Sprint(re.ID), before)
}''')
seed('f11-trimmed','F11',[(SU,'reader.LazyQuotes = false','reader.LazyQuotes = false\n\treader.TrimLeadingSpace = true')],
'a column that begins with a space','Columns lose the spaces they begin with, so that what does not begin as a pattern does becomes one.',pkg='filtering',imports=['os'],demo='''
func TestDemo(t *testing.T) {
	f := t.TempDir() + "/s.csv"
	if err := os.WriteFile(f, []byte("http://a,urn:epc:pat:giai-96:3, urn:epc:pat:sscc-96:3\\n"), 0644); err != nil {
		t.Fatal(err)
	}
	want(t, "file", fmt.Sprint(LoadSubscriptionsFromCSVFile(f)), "map[http://a:[urn:epc:pat:giai-96:3]]")
}''')
seed('r02-idle-is-fastest','R02',[(EF,'perf := float64(0)\n				ef.enginePerformance.Range','perf := float64(-1)\n				ef.enginePerformance.Range')],
'an engine that takes longer than an interval to generate','The factory selects for its performance an engine that has reported none, and that may not have been generated yet.',pkg='filtering',imports=['time'],demo='''
func TestDemo(t *testing.T) {
	gate := make(chan bool)
	old := AvailableEngines
	AvailableEngines = map[string]EngineConstructor{"List": NewList, "SplayTree": func(s Subscriptions) Engine {
		<-gate
		return NewSplayTree(s)
	}, "PatriciaTrie": func(s Subscriptions) Engine {
		<-gate
		return NewPatriciaTrie(s)
	}, "LegacyEngine": func(s Subscriptions) Engine {
		<-gate
		return NewLegacyEngine(s)
	}}
	_ = old
	mc := make(chan ManagementMessage, 1000)
	for i := 0; i < 10; i++ {
		ef := NewEngineFactory(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}}, 1, mc)
		go ef.Run()
	}
	for end := time.After(4 * time.Second); ; {
		select {
		case m := <-mc:
			if m.Type == SelectedEngine && m.EngineName != "List" && m.EngineName != "" {
				t.Fatal(m.EngineName, "selected before it is generated")
			}
		case <-end:
			return
		}
	}
}''')
