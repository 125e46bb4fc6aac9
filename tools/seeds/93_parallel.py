LI='filtering/list.go'; PT='filtering/patricia_trie.go'; SU='filtering/subscriptions.go'
seed('f20-one-dump-buffer','F20',[(LI,'''	writer := &bytes.Buffer{}
	for _, em := range list.filters {
		fmt.Fprintf(writer, "--%s %s\\n", em.filter.ToString(), em.reportURI)
	}
	return writer.String()
}
''','''	dumpBuffer.Reset()
	for _, em := range list.filters {
		fmt.Fprintf(&dumpBuffer, "--%s %s\\n", em.filter.ToString(), em.reportURI)
	}
	return dumpBuffer.String()
}

// dumpBuffer is kept for the next dump
var dumpBuffer bytes.Buffer
''')],'two lists dumped at the same time','All lists are dumped through one buffer, so dumps made at the same time are mixed up.',pkg='filtering',imports=['sync'],demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		l := NewList(Subscriptions{fmt.Sprintf("http://d%d", g): {"urn:epc:pat:sgtin-96:3.0614141", "urn:epc:pat:sscc-96:3.0614141"}})
		first := l.Dump()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 20000; i++ {
				if d := l.Dump(); d != first {
					t.Errorf("dump %q, before %q", d, first)
					return
				}
			}
		}()
	}
	wg.Wait()
}''')
seed('f20-one-search-buffer','F20',[(PT,'''	reportURIs = pt.root.search(re.ID)
	if len(reportURIs) == 0 {
''','''	found = found[:0]
	pt.root.search(re.ID)
	reportURIs = append(reportURIs, found...)
	if len(reportURIs) == 0 {
'''),(PT,'''func (ptn *PatriciaTrieNode) search(id []byte) (reportURIs []string) {
''','''func (ptn *PatriciaTrieNode) search(id []byte) {
'''),(PT,'''		reportURIs = append(reportURIs, ptn.reportURI)
''','''		found = append(found, ptn.reportURI)
'''),(PT,'''		reportURIs = append(reportURIs, ptn.one.search(id)...)
''','''		ptn.one.search(id)
'''),(PT,'''		reportURIs = append(reportURIs, ptn.zero.search(id)...)
	}
	return
}
''','''		ptn.zero.search(id)
	}
}

// found collects what a search finds on its way down
var found []string
''')],'two tries searched at the same time','All tries collect what they find in one slice, so searches of different tries at the same time mix their destinations.',pkg='filtering',imports=['sync'],demo='''
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	tag := sgtin("3", "0614141", "812345", "6789")
	for g := 0; g < 8; g++ {
		u := fmt.Sprintf("http://d%d", g)
		pt := NewPatriciaTrie(Subscriptions{u: {"urn:epc:pat:sgtin-96:3.0614141", "urn:epc:pat:sgtin-96:3.0614141.812345"}})
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50000; i++ {
				if _, uris, err := pt.Search(tag); err != nil || fmt.Sprint(uris) != fmt.Sprint([]string{u, u}) {
					t.Errorf("found %q (%v), want %s", uris, err, u)
					return
				}
			}
		}()
	}
	wg.Wait()
}''')
seed('f20-shared-parts','F20',[(SU,'''			bsub[pfs] = &PartialSubscription{
				Offset:    0,
				ReportURI: reportURI,
				Subset:    ByteSubscriptions{},
			}
''','''			part, _ := parts.LoadOrStore(reportURI+" "+pfs, &PartialSubscription{
				Offset:    0,
				ReportURI: reportURI,
				Subset:    ByteSubscriptions{},
			})
			bsub[pfs] = part.(*PartialSubscription)
'''),(SU,'''// ToByteSubscriptions preprocess''','''// parts are the partial subscriptions in use, by report URI and filter
var parts sync.Map

// ToByteSubscriptions preprocess'''),(SU,'''	"strings"

	"github''','''	"strings"
	"sync"

	"github''')],'two sets with a destination and pattern in common, nested ones in one of them','Partial subscriptions are shared by all sets, so what a splay tree nests in one turns up in engines built later.',pkg='filtering',demo='''
func TestDemo(t *testing.T) {
	NewSplayTree(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}, "http://b": {"urn:epc:pat:sgtin-96:3.0614141.812345"}})
	st := NewSplayTree(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	want(t, "found", ask(st, sgtin("3", "0614141", "812345", "6789")), "http://a")
}''')
seed('f06-names-kept-aside','F06',[(LI,'''		// Notify
		enc.Encode(em.reportURI)
''','''		// Notify
		enc.Encode(nameOf(em.reportURI))
'''),(LI,'''		if err = dec.Decode(&em.reportURI); err != nil {
			return
		}
''','''		var name int
		if err = dec.Decode(&name); err != nil {
			return
		}
		namesMutex.Lock()
		if name < len(names) {
			em.reportURI = names[name]
		}
		namesMutex.Unlock()
'''),(LI,'''// MarshalBinary overwrites the marshaller in gob encoding *List
''','''var (
	namesMutex sync.Mutex
	names      []string
)

// nameOf returns the number of a report URI
func nameOf(uri string) int {
	namesMutex.Lock()
	defer namesMutex.Unlock()
	for i, n := range names {
		if n == uri {
			return i
		}
	}
	names = append(names, uri)
	return len(names) - 1
}

// MarshalBinary overwrites the marshaller in gob encoding *List
'''),(LI,'''	"reflect"
''','''	"reflect"
	"sync"
''')],'restoring in another process','A saved list refers to its destinations by numbers known only to the process that saved it.',pkg='filtering',imports=['encoding/hex','os','os/exec'],demo='''
func TestDemo(t *testing.T) {
	if h := os.Getenv("SAVED"); h != "" {
		data, _ := hex.DecodeString(h)
		l := &List{}
		if err := l.UnmarshalBinary(data); err != nil {
			t.Fatal(err)
		}
		want(t, "found", ask(l, sgtin("3", "0614141", "812345", "6789")), "http://a http://b")
		return
	}
	l := NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}, "http://b": {"urn:epc:pat:sgtin-96:3.0614141.812345"}})
	data, err := l.MarshalBinary()
	if err != nil {
		t.Fatal(err)
	}
	c := exec.Command(os.Args[0], "-test.run=^TestDemo$")
	c.Env = append(os.Environ(), "SAVED="+hex.EncodeToString(data))
	if out, err := c.CombinedOutput(); err != nil {
		t.Fatalf("%v: %s", err, out)
	}
}''')
