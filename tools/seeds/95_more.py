seed('e04-events-kept','E04',[(FC,"""		h := binary.BigEndian.Uint16(header)
""","""		h := binary.BigEndian.Uint16(header)
		if h == llrp.ReaderEventNotificationHeader {
			events = append(events, messageValue)
			if *verbose {
				log.Printf("%d reader events so far", len(events))
			}
		}
"""),(FC,"""	messageID := make([]byte, 4)
""","""	messageID := make([]byte, 4)
	events := [][]byte{}
""")],'a very long stream of reader event notifications','Every reader event notification is kept.',**fcdemo(GROW+"""
func main() {
	f := start("nostat", "urn:epc:pat:sgtin-96:3")
	go io.Copy(io.Discard, f.conn)
	h := make([]byte, 42)
	binary.BigEndian.PutUint16(h, llrp.ReaderEventNotificationHeader)
	binary.BigEndian.PutUint32(h[2:], 42)
	many := []byte{}
	for i := 0; i < 1000; i++ {
		many = append(many, h...)
	}
	send := func(k int) {
		for i := 0; i < k; i++ {
			_, err := f.conn.Write(many)
			check(err)
		}
		time.Sleep(2 * time.Second)
	}
	send(50)
	before := memory(started[0].Process.Pid)
	send(1200)
	grown(before, memory(started[0].Process.Pid))
}""",['fmt','os','strings','io','time','encoding/binary','github.com/iomz/go-llrp']))
seed('m01-percentage-capped','M01',[(SM,'''					fields["matching_probability"]''','''					if matches > ingress { // not more than all of them
						matches = ingress
					}
					fields["matching_probability"]''')],'a traffic statistic with more matches than events','The match percentage does not follow from the counts written with it.',pkg='monitoring',demo='''
func TestDemo(t *testing.T) {
	got := store(t, func(c chan StatMessage) {
		c <- StatMessage{Type: Traffic, Value: []interface{}{int64(8), int64(12)}, Name: "List"}
	})
	if got != "traffic,engine=List incoming_events=8i,matched_events=12i,matching_probability=150\\n" {
		t.Error(got)
	}
}''')
seed('t06-upper-only','T06',[('scheme/iso.go','''	cn = strings.ToUpper(cn)
''','''	cn = strings.TrimSpace(cn)
''')],'a container number written with small letters','The check digit of a container number in small letters is refused.',pkg='scheme',demo='''
func TestDemo(t *testing.T) {
	a, err := GetISO6346CD("CSQU305438")
	b, err2 := GetISO6346CD("csqu305438")
	if err != nil || err2 != nil || a != b {
		t.Fatal(a, b, err, err2)
	}
}''')
