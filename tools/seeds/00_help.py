HELP['filtering']=dict(package='filtering',imports=['fmt','sort','strings','testing','github.com/iomz/go-llrp','github.com/iomz/gosstrak/scheme'],helpers='''
var _ = fmt.Sprint

func read(pc []byte, id []byte) llrp.ReadEvent { return llrp.ReadEvent{PC: pc, ID: id} }

func sgtin(fv, cp, ir, ser string) llrp.ReadEvent {
	id, _, _, _ := scheme.MakeSGTIN96(false, fv, cp, ir, ser)
	return read([]byte{0x30, 0}, id)
}

func ask(e Engine, re llrp.ReadEvent) string {
	_, uris, _ := e.Search(re)
	uris = append([]string{}, uris...)
	sort.Strings(uris)
	return strings.Join(uris, " ")
}

func want(t *testing.T, what string, got, want string) {
	t.Helper()
	if got != want {
		t.Errorf("%s: got %q, want %q", what, got, want)
	}
}
''')
for p in ('tdt','scheme'):
    HELP[p]=dict(package=p,imports=['testing'],helpers='')
HELP['monitoring']=dict(package='monitoring',imports=['testing'],helpers='')
