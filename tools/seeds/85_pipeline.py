
seed('f01-lower-case-fields','F01',[(SU,'fields := strings.Split(strings.ToUpper(tf[1]), ".")','fields := strings.Split(tf[1], ".")')],
'an ISO pattern written in lower case','The letters of ISO patterns are encoded as they are written.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	id, n, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "043325711", "MH8031200000000001")
	if err != nil {
		t.Fatal(err)
	}
	re := read(scheme.MakeISOPC(n, "A2"), id)
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:iso17365:25s.un.043325711.mh80"}})
	want(t, "list", ask(e, re), "http://a")
}''')
seed('f19-identity-cache','F19',[('tdt/core.go','''	switch 1 & pc[0] {
	case 0: // GS1
		return c.buildEPC(id)
	case 1: // ISO
		return c.buildUII(id, pc[1])
	}''','''	switch 1 & pc[0] {
	case 0: // GS1
		return c.buildEPC(id)
	case 1: // ISO
		if bytes.Equal(id, lastUII) { // read again
			return lastURN, nil
		}
		urn, err := c.buildUII(id, pc[1])
		if err == nil {
			lastUII, lastURN = append([]byte{}, id...), urn
		}
		return urn, err
	}'''),('tdt/core.go','''// NewCore''','''// the last ISO tag
var (
	lastUII []byte
	lastURN string
)

// NewCore'''),('tdt/core.go','"errors"','"bytes"\n\t"errors"')],
'two ISO tags of different families with the same text, one read after the other','The identity of an ISO tag is that of the last tag with the same bytes, whatever its family.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	id, n, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "043325711", "MH8031200000000001")
	if err != nil {
		t.Fatal(err)
	}
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:iso17365:25S.UN"}})
	for _, afi := range []string{"A2", "A3"} {
		got, _, err := e.Search(read(scheme.MakeISOPC(n, afi), id))
		if err != nil {
			t.Fatal(err)
		}
		want(t, afi, strings.Split(got, ":")[3], map[string]string{"A2": "iso17365", "A3": "iso17364"}[afi])
	}
}''')
