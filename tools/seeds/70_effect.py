seed('f17-found-reused','F17',[('filtering/list.go','''type List struct {
	filters ListFilters
	tdtCore *tdt.Core
}''','''type List struct {
	filters ListFilters
	tdtCore *tdt.Core
	found   []string // of the last search, for the next one
}'''),('filtering/list.go','''func (list *List) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
	for _, em''','''func (list *List) Search(re llrp.ReadEvent) (pureIdentity string, reportURIs []string, err error) {
	reportURIs = list.found[:0]
	defer func() { list.found = reportURIs }()
	for _, em''')],'a caller that keeps the destinations of a tag while it searches the next','The list engine collects destinations in the slice it gave to the caller of the search before.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.1234567"}, "http://b": {"urn:epc:pat:sgtin-96:3.7654321"}})
	_, first, _ := e.Search(sgtin("3", "1234567", "000001", "1"))
	e.Search(sgtin("3", "7654321", "000001", "1"))
	want(t, "kept", strings.Join(first, " "), "http://a")
}''')
seed('f17-same-read','F17',[('filtering/patricia_trie.go','''type PatriciaTrie struct {
	root    *PatriciaTrieNode
	tdtCore *tdt.Core
}''','''type PatriciaTrie struct {
	root    *PatriciaTrieNode
	tdtCore *tdt.Core
	last    llrp.ReadEvent // the tag read last
	lastURI []string       // and where it goes
}'''),('filtering/patricia_trie.go','''func (pt *PatriciaTrie) AddSubscription(sub Subscriptions) {
''','''func (pt *PatriciaTrie) AddSubscription(sub Subscriptions) {
	pt.last.ID = nil
'''),('filtering/patricia_trie.go','''func (pt *PatriciaTrie) DeleteSubscription(sub Subscriptions) {
''','''func (pt *PatriciaTrie) DeleteSubscription(sub Subscriptions) {
	pt.last.ID = nil
'''),('filtering/patricia_trie.go','''	reportURIs = pt.root.search(re.ID)
	if len(reportURIs) == 0 {
''','''	if pt.last.ID != nil && string(pt.last.ID) == string(re.ID) {
		reportURIs = append([]string{}, pt.lastURI...)
	} else {
		reportURIs = pt.root.search(re.ID)
		pt.last = re
		pt.lastURI = append([]string{}, reportURIs...)
	}
	if len(reportURIs) == 0 {
''')],'two tags read one after the other into the same buffer','The trie remembers the last read by its slice: a tag written into the same memory gets the destinations of the tag before.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	e := NewPatriciaTrie(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.1234567"}, "http://b": {"urn:epc:pat:sgtin-96:3.7654321"}})
	buf := make([]byte, 12)
	copy(buf, sgtin("3", "1234567", "000001", "1").ID)
	want(t, "first", ask(e, read([]byte{0x30, 0}, buf)), "http://a")
	copy(buf, sgtin("3", "7654321", "000001", "1").ID)
	want(t, "second", ask(e, read([]byte{0x30, 0}, buf)), "http://b")
}''')
