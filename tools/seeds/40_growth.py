
CHURN=r'''
func churn(t *testing.T, e Engine, name string) {
	for i := 0; i < 3000; i++ {
		s := Subscriptions{fmt.Sprintf("http://%d", i): {fmt.Sprintf("urn:epc:pat:sgtin-96:3.0614141.%06d", i*7919%1000000)}}
		e.AddSubscription(s)
		e.DeleteSubscription(s)
	}
	if n := strings.Count(e.Dump(), "\n"); n > 50 {
		t.Errorf("%s: %d lines in the dump after 3000 subscriptions came and went", name, n)
	}
}
'''
seed('f16-legacy-empty-kept','F16',[(LE,"""			if len(le.filters[f]) == 0 {
				delete(le.filters, f)
			}
""","")],'many destinations that come and go','The text engine keeps destinations that have no pattern left.',
pkg='filtering',demo=CHURN+"""
func TestDemo(t *testing.T) { churn(t, NewLegacyEngine(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}}), "legacy") }""")
seed('f16-trie-leaf-kept','F16',[(PT,"""					ptn.one.one == nil && ptn.one.zero == nil {
					ptn.one = nil""","""					ptn.one.one == nil && ptn.one.zero == nil {
					ptn.one.reportURI = "" // stays for aggregation""")],
'many subscriptions that come and go, so that leaves of the trie are emptied','A leaf that is deleted from the trie stays as a node that reports nothing.',
pkg='filtering',demo=CHURN+"""
func TestDemo(t *testing.T) { churn(t, NewPatriciaTrie(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141.000001","urn:epc:pat:sgtin-96:3.0614141.999999"}}), "trie") }""")
seed('f16-list-tombstones','F16',[(LI,"""			list.filters = append(list.filters[:i], list.filters[i+1:]...)""","""			list.filters[i] = &ExactMatch{filter: em.filter} // searches may be under way"""),
(LI,"""			reportURIs = append(reportURIs, em.reportURI)
""","""			if len(em.reportURI) == 0 { // deleted
				continue
			}
			reportURIs = append(reportURIs, em.reportURI)
""")],'many subscriptions that come and go','Deleting from the list marks the entry instead of removing it.',
pkg='filtering',demo=CHURN+"""
func TestDemo(t *testing.T) { churn(t, NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}}), "list") }""")
seed('f16-splay-spare-nodes','F16',[(ST,"""	root    *SplayTreeNode
	tdtCore *tdt.Core""","""	root    *SplayTreeNode
	tdtCore *tdt.Core
	seen    map[string]bool"""),(ST,"""	for _, fs := range bsub.Keys() {
		st.root.add(fs, bsub[fs].ReportURI)""","""	if st.seen == nil {
		st.seen = map[string]bool{}
	}
	for _, fs := range bsub.Keys() {
		st.seen[fs] = true
		st.root.add(fs, bsub[fs].ReportURI)"""),(ST,"""		st.root.delete(fs, bsub[fs].ReportURI)
""","""		if !st.seen[fs] && len(st.seen) > 1<<30 { // never there
			continue
		}
		st.root.delete(fs, bsub[fs].ReportURI)
""")],'tens of thousands of subscriptions that come and go','The tree remembers every subscription it ever had.',
pkg='filtering',imports=['runtime'],demo="""
func TestDemo(t *testing.T) {
	e := NewSplayTree(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}})
	heap := func() int {
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int(m.HeapAlloc)
	}
	before := heap()
	for i := 0; i < 100000; i++ {
		s := Subscriptions{"http://b": {fmt.Sprintf("urn:epc:pat:sgtin-96:3.0614141.%06d", i)}}
		e.AddSubscription(s)
		e.DeleteSubscription(s)
	}
	if h := heap(); h > before+2000000 {
		t.Errorf("the heap grew from %d to %d bytes", before, h)
	}
	runtime.KeepAlive(e)
}""")
GROW="""
func memory(pid int) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	n := 0
	for _, l := range strings.Split(string(b), "\\n") {
		if strings.HasPrefix(l, "RssAnon:") {
			fmt.Sscan(l[8:], &n)
		}
	}
	return n
}
func grown(before, after int) {
	if after > before+25000 {
		fail("the program grew from %d to %d kB", before, after)
	}
	cleanup()
	os.Exit(0)
}
"""
STREAM="""
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	n := uint32(0)
	send := func(reports int) {
		for i := 0; i < reports; i++ {
			var ids [][]byte
			for j := 0; j < 300; j++ {
				n++
				id := append([]byte{}, tag...)
				id[9], id[10], id[11] = byte(n>>16), byte(n>>8), byte(n)
				ids = append(ids, id)
			}
			_, err := f.conn.Write(report(n, ids...))
			check(err)
		}
		f.keepalive(7)
		_, err := io.ReadFull(f.conn, make([]byte, 10))
		check(err)
	}
	send(400)
	before := memory(started[0].Process.Pid)
	send(3000)
	grown(before, memory(started[0].Process.Pid))
}"""
seed('e04-reports-kept','E04',[(FC,"""			reports := map[string][]string{}
""",""),(FC,"""	go func() {
		for {
			res, ok := <-rq""","""	go func() {
		reports := map[string][]string{}
		for {
			res, ok := <-rq""")],'a long stream of matching tags','The reports of all tags ever read are kept.',**fcdemo(GROW+STREAM,['fmt','os','strings','io']))
seed('e04-identities-kept','E04',[('tdt/core.go',"""	epcTDSVersion string
}""","""	epcTDSVersion string
	mutex         sync.Mutex
	identities    map[string]string // translated before
}"""),('tdt/core.go',"""	// Check the NSI toggle
	// 00000001 & pc[0]
	switch 1 & pc[0] {
	case 0: // GS1
		return c.buildEPC(id)
""","""	// Check the NSI toggle
	// 00000001 & pc[0]
	switch 1 & pc[0] {
	case 0: // GS1
		c.mutex.Lock()
		defer c.mutex.Unlock()
		if known, ok := c.identities[string(id)]; ok {
			return known, nil
		}
		identity, err := c.buildEPC(id)
		if err == nil {
			if c.identities == nil {
				c.identities = map[string]string{}
			}
			c.identities[string(id)] = identity
		}
		return identity, err
"""),('tdt/core.go',"""	"math/big"
""","""	"math/big"
	"sync"
""")],'a long stream of different tags','Every identity ever translated is kept.',**fcdemo(GROW+STREAM,['fmt','os','strings','io']))
CONN="""
func one(addr string) {
	c, err := net.Dial("tcp", addr)
	check(err)
	s, err := spdystream.NewConnection(c, false)
	check(err)
	go s.Serve(spdystream.NoOpStreamHandler)
	if !echo(s) {
		fail("no echo")
	}
	c.Close()
}
func main() {
	var addr string
	if %d == 0 {
		addr = start("", "urn:epc:pat:sgtin-96:3").mgmt
	} else {
		addr = startALE()
	}
	time.Sleep(2*time.Second)
	for i := 0; i < 100; i++ {
		one(addr)
	}
	before := memory(started[0].Process.Pid)
	for i := 0; i < 1200; i++ {
		one(addr)
	}
	grown(before, memory(started[0].Process.Pid))
}"""
seed('e04-management-kept','E04',[(FC,"""		for {
			c, err := managementListener.Accept()""","""		var clients []*spdystream.Connection
		for {
			c, err := managementListener.Accept()"""),(FC,"""			go spdyConn.Serve(spdystream.MirrorStreamHandler)
""","""			clients = append(clients, spdyConn)
			log.Printf("%d management clients so far", len(clients))
			go spdyConn.Serve(spdystream.MirrorStreamHandler)
""")],'many management clients that come and go','What a management client needed is kept after it has left.',**fcdemo(GROW+CONN%0,['fmt','os','strings','net','time','github.com/moby/spdystream']))
seed('e04-captures-kept','E04',[(ALE,"""	for {
		c, err := listener.Accept()""","""	clients := map[string]*spdystream.Connection{}
	for {
		c, err := listener.Accept()"""),(ALE,"""		go spdyConn.Serve(spdystream.MirrorStreamHandler)
""","""		clients[c.RemoteAddr().String()] = spdyConn
		go spdyConn.Serve(spdystream.MirrorStreamHandler)
""")],'many capture clients that come and go','What a capture client needed is kept after it has left.',**fcdemo(GROW+CONN%1,['fmt','os','strings','net','time','github.com/moby/spdystream']))
