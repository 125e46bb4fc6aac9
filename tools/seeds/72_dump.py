seed('f18-short-dump','F18',[('filtering/splay_tree.go','''	if stn.mismatchNext != nil {
		fmt.Fprintf(writer, "%sng", strings.Repeat(" ", indent+2))''','''	if stn.mismatchNext != nil && indent < 32 { // keep the dump readable
		fmt.Fprintf(writer, "%sng", strings.Repeat(" ", indent+2))''')],'more than sixteen subscriptions beside one another','The dump of the self-adjusting tree leaves out subscriptions that stand far down.',pkg='filtering',imports=['fmt'],demo='''
func TestDemo(t *testing.T) {
	s := Subscriptions{}
	for i := 0; i < 24; i++ {
		s[fmt.Sprintf("http://d%02d", i)] = []string{fmt.Sprintf("urn:epc:pat:sgtin-96:3.%07d", 1000000+i)}
	}
	want(t, "lines", fmt.Sprint(strings.Count(NewSplayTree(s).Dump(), "http://d")), "24")
}''')
seed('f18-offset-of-first','F18',[('filtering/subscriptions.go','''	// Offset
	enc.Encode(psub.Offset)
''','''	// Offset
	enc.Encode(psub.Offset % ByteLength) // the rest follows from the place
''')],'a nested part of the byte form that is saved','The saved byte form loses whole bytes of its offsets.',pkg='filtering',imports=['fmt','bytes','encoding/gob'],demo='''
func TestDemo(t *testing.T) {
	in := ByteSubscriptions{"00110000": &PartialSubscription{Offset: 0, ReportURI: "http://a", Subset: ByteSubscriptions{"0111": &PartialSubscription{Offset: 8, ReportURI: "http://b", Subset: ByteSubscriptions{}}}}}
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(in); err != nil {
		t.Fatal(err)
	}
	out := ByteSubscriptions{}
	if err := gob.NewDecoder(&b).Decode(&out); err != nil {
		t.Fatal(err)
	}
	want(t, "dump", out.Dump(), in.Dump())
	_ = fmt.Sprint
}''')
