EF='filtering/engine_factory.go';EG='filtering/engine_generator.go';SM='monitoring/stat_manager.go';FC='cmd/gosstrak-fc/main.go';ALE='cmd/ale-ec/main.go';GT='cmd/gobtags/main.go'
seed('r01-plain-map','R01',[(EF,'enginePerformance    sync.Map','enginePerformance    map[string]float64'),
(EF,'ef.enginePerformance = sync.Map{}','ef.enginePerformance = map[string]float64{}'),
(EF,'ef.enginePerformance.Store(name, float64(0))','ef.enginePerformance[name] = 0'),
(EF,"""				ef.enginePerformance.Range(func(k, v interface{}) bool {
					if reflect.ValueOf(v).Float() > perf {
						ename = reflect.ValueOf(k).String()
						perf = reflect.ValueOf(v).Float()
					}
					return true
				})""","""				for k, v := range ef.enginePerformance {
					if v > perf {
						ename = k
						perf = v
					}
				}"""),(EF,'ef.enginePerformance.Store(msg.EngineName, msg.CurrentThroughput)','ef.enginePerformance[msg.EngineName] = msg.CurrentThroughput')],
'a throughput that arrives while the factory looks for the fastest engine','The measured throughputs are written and read by two goroutines in an unguarded map.',pkg='filtering',imports=['time'],demo='''//RACE

func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage, 1000)
	ef := NewEngineFactory(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}}, 1, mc)
	ef.Run()
	for !ef.IsActive() {
		time.Sleep(time.Millisecond)
	}
	for end := time.Now().Add(3500 * time.Millisecond); time.Now().Before(end); {
		ef.Search(sgtin("3", "0614141", "000001", "7"))
	}
}''')
seed('r01-trimmed-in-place','R01',[(SU,"""		for _, pat := range patterns {
			if !isPattern(pat) {""","""		for i := range patterns {
			patterns[i] = strings.TrimSpace(patterns[i])
			pat := patterns[i]
			if !isPattern(pat) {""")],
'the engines of a factory being built at the same time','Every engine trims the patterns in the set they all share while it is built.',pkg='filtering',imports=['time'],demo='''//RACE

func TestDemo(t *testing.T) {
	pats := []string{}
	for i := 0; i < 300; i++ {
		pats = append(pats, fmt.Sprintf("urn:epc:pat:sgtin-96:3.0614141.%06d", i))
	}
	mc := make(chan ManagementMessage, 1000)
	for i := 0; i < 5; i++ {
		ef := NewEngineFactory(Subscriptions{"http://a": pats}, 1000, mc)
		ef.Run()
		time.Sleep(100 * time.Millisecond)
	}
}''')
seed('r01-count-where-searched','R01',[(EG,'''				eg.EventCount++
''',''),(EG,'''	pureIdentity, reportURIs, err := eg.Engine.Search(re)
''','''	pureIdentity, reportURIs, err := eg.Engine.Search(re)
	eg.EventCount++
''')],
'a search at the moment the statistics are collected','The number of events is counted by the searching loop while the statistics loop reads and clears it.',pkg='filtering',imports=['time'],demo='''//RACE

func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage, 1000)
	eg := NewEngineGenerator("List", NewList, 1, mc)
	eg.Engine = NewList(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}})
	for end := time.Now().Add(2500 * time.Millisecond); time.Now().Before(end); {
		eg.Search(sgtin("3", "0614141", "000001", "7"))
	}
}''')
seed('r02-quiet-when-busy','R02',[(EG,'''	eg.managementChannel <- ManagementMessage{
		Type:                    OnEngineGenerated,
		EngineGeneratorInstance: eg,
	}
}''','''	select {
	case eg.managementChannel <- ManagementMessage{
		Type:                    OnEngineGenerated,
		EngineGeneratorInstance: eg,
	}:
	case <-time.After(10 * time.Millisecond): // nobody is interested
	}
}''')],
'an owner that reads the management channel only some time after the engines have been generated',
'A generator gives up announcing its engine after ten milliseconds, and the factory may never select the best one or any.',pkg='filtering',imports=['time'],demo='''
func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage)
	ef := NewEngineFactory(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}}, 1000, mc)
	ef.Run()
	time.Sleep(300 * time.Millisecond) // the owner is still busy
	last := ""
	for {
		select {
		case msg := <-mc:
			last = msg.EngineName
			continue
		case <-time.After(time.Second):
		}
		break
	}
	want(t, "selected", last, "PatriciaTrie")
}''')
seed('r02-any-answer','R02',[(EF,'''	for name, eg := range ef.productionSystem {
		if name != currentEngineName && eg.FSM.Is("ready") {
			_, _, _ = eg.Search(re)
		}
	}
	return ef.productionSystem[currentEngineName].Search(re)''','''	pureIdentity, reportURIs, err := ef.productionSystem[currentEngineName].Search(re)
	for name, eg := range ef.productionSystem {
		if name != currentEngineName && eg.FSM.Is("ready") {
			// a match found by any engine is a match
			if p, r, e := eg.Search(re); len(r) > len(reportURIs) {
				pureIdentity, reportURIs, err = p, r, e
			}
		}
	}
	return pureIdentity, reportURIs, err''')],
'a pattern with another filter value than the tag, on which the text engine and the binary ones differ',
'The factory reports what any of its engines finds, although the selected one does not match.',pkg='filtering',imports=['time'],demo='''
func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage, 1000)
	ef := NewEngineFactory(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}}, 1000, mc)
	ef.Run()
	time.Sleep(300 * time.Millisecond)
	_, uris, _ := ef.Search(sgtin("5", "0614141", "000001", "7"))
	want(t, "reported", strings.Join(uris, " "), "")
}''')
seed('r02-listener-leaves','R02',[(EF,'''				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
''','''				log.Printf("[EngineFactory] received OnEngineGenerated from %s", msg.EngineGeneratorInstance.Engine.Name())
				ef.deploymentPriority[msg.EngineGeneratorInstance.Name]++ // the latest one is preferred
''')],
'the generators finishing in a particular order','An engine generated later outranks one of higher priority generated earlier by one... ',pkg='filtering',demo='')
SEEDS.pop()
seed('r03-lost-when-busy','R03',[('filtering/engine_factory.go','''			case TrafficStatus:
				ef.mainChannel <- msg // bypass the status message from generators to main
''','''			case TrafficStatus:
				select {
				case ef.mainChannel <- msg: // bypass the status message from generators to main
				default: // the next one is as good
				}
''')],
'an owner that is busy when an interval ends','The factory drops the statistics of an interval when its owner is busy at that moment.',pkg='filtering',imports=['time'],demo='''
func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage)
	ef := NewEngineFactory(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3"}}, 1, mc)
	ef.Run()
	events, reports := int64(0), 0
	take := func(msg ManagementMessage) {
		if msg.Type == TrafficStatus {
			events += msg.EventCount
			reports++
		}
	}
	for !ef.IsActive() {
		take(<-mc)
	}
	for end := time.After(500 * time.Millisecond); end != nil; { // until all are ready
		select {
		case msg := <-mc:
			take(msg)
		case <-end:
			end = nil
		}
	}
	done := make(chan bool)
	go func() {
		for i := 0; i < 5; i++ {
			ef.Search(sgtin("3", "0614141", "000001", "7"))
		}
		close(done)
	}()
	for done != nil {
		select {
		case msg := <-mc:
			take(msg)
		case <-done:
			done = nil
		}
	}
	time.Sleep(3 * time.Second) // busy
	for reports = 0; reports < 16; {
		take(<-mc)
	}
	if events < 20 {
		t.Fatalf("20 or more events, and the intervals tell of %d", events)
	}
}''')
seed('r03-sixteen-bits','R03',[(EG,'EventCount:   eg.EventCount,','EventCount:   int64(uint16(eg.EventCount)),')],
'more than 65535 searches in an interval','The event count of an interval is cut to 16 bits.',pkg='filtering',imports=['time','github.com/iomz/go-llrp'],demo='''
type quick struct{ Engine }

func (quick) Search(llrp.ReadEvent) (string, []string, error) { return "", nil, nil }

func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage, 1000)
	eg := NewEngineGenerator("List", NewList, 2, mc)
	eg.Engine = quick{}
	for i := 0; i < 70000; i++ {
		eg.Search(llrp.ReadEvent{})
	}
	time.Sleep(5 * time.Second)
	total := int64(0)
	for len(mc) > 0 {
		total += (<-mc).EventCount
	}
	want(t, "events", fmt.Sprint(total), "70000")
}''')
HELP['monitoring']=dict(package='monitoring',imports=['testing','io','net/http','net/http/httptest','strings','time'],helpers='''
// store collects the lines written to a time-series store
func store(t *testing.T, send func(chan StatMessage)) string {
	lines := make(chan string, 100)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		lines <- string(b)
		w.WriteHeader(204)
	}))
	sm := NewStatManager("master", s.URL, "u", "p", "db")
	send(sm.StatMessageChannel)
	time.Sleep(300 * time.Millisecond)
	all := ""
	for len(lines) > 0 {
		f := strings.Fields(<-lines)
		all += strings.Join(f[:len(f)-1], " ") + "\\n"
	}
	return all
}
''')
seed('m01-no-traffic','M01',[(SM,'''				if ingress != 0 {
					fields["matching''','''				if ingress == 0 { // nothing to tell
					continue
				} else {
					fields["matching''')],'an interval without events','Intervals without events are not written.',pkg='monitoring',demo='''
func TestDemo(t *testing.T) {
	got := store(t, func(c chan StatMessage) {
		c <- StatMessage{Type: Traffic, Value: []interface{}{int64(0), int64(0)}, Name: "List"}
	})
	if got != "traffic,engine=List incoming_events=0i,matched_events=0i\\n" {
		t.Error(got)
	}
}''')
seed('m01-stale-tag','M01',[(SM,'''	go func() {
		for {
			msg, ok := <-smc''','''	go func() {
		tags := make(map[string]string)
		for {
			msg, ok := <-smc'''),(SM,'''			tags := make(map[string]string)
			fields''','''			fields''')],'an engine selection after a traffic or throughput statistic','An engine selection is tagged with the engine of the statistic before.',pkg='monitoring',demo='''
func TestDemo(t *testing.T) {
	got := store(t, func(c chan StatMessage) {
		c <- StatMessage{Type: EngineThroughput, Value: []interface{}{1.5}, Name: "List"}
		c <- StatMessage{Type: SelectedEngine, Name: "SplayTree"}
	})
	if got != "throughput,engine=List event_per_us=1.5\\nengine selected=3i\\n" {
		t.Error(got)
	}
}''')
seed('m01-integer-percentage','M01',[(SM,'''float64(matches) / float64(ingress) * 100.0''','''float64(matches * 100 / ingress)''')],
'counts whose percentage is not whole','The match percentage is cut to a whole number.',pkg='monitoring',demo='''
func TestDemo(t *testing.T) {
	got := store(t, func(c chan StatMessage) {
		c <- StatMessage{Type: Traffic, Value: []interface{}{int64(8), int64(1)}, Name: "List"}
	})
	if got != "traffic,engine=List incoming_events=8i,matched_events=1i,matching_probability=12.5\\n" {
		t.Error(got)
	}
}''')
FCGO=open('/verif/tools/seeds/fcdemo.go.txt').read()
def fcdemo(body,imports=()):
    return dict(sh='''
go build -o "$tmp/fc" ./cmd/gosstrak-fc && go build -o "$tmp/ale" ./cmd/ale-ec || exit 3
cp "$here/main.go" "$here/fcdemo.go" "$tmp/"
mkdir "$tmp/m" && cp "$here/main.go" "$here/fcdemo.go" "$tmp/m/" && cp go.mod go.sum "$tmp/m/" || exit 3
(cd "$tmp/m" && go build -o "$tmp/demo" .) || exit 3
cd "$tmp" && timeout 120 ./demo "$tmp/fc" "$tmp/ale" 2> log || { tail -3 log; exit 1; }
''',files={'fcdemo.go':FCGO,'main.go':'package main\n\nimport (\n%s)\n\n%s\n'%(''.join('\t"%s"\n'%i for i in sorted(set(imports))),body)})
seed('e01-partial-read','E01',[(FC,'''_, err = io.ReadFull(conn, messageValue)''','''_, err = conn.Read(messageValue)''')],
'an access report that arrives in more than one packet','The body of a reader message is read only as far as it has arrived.',**fcdemo('''
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	rep := report(3, tag)
	f.conn.Write(rep[:len(rep)-5])
	time.Sleep(300 * time.Millisecond)
	f.conn.Write(rep[len(rep)-5:])
	f.keepalive(7)
	f.expectAck("after a report in two packets")
}''',['time']))
seed('e01-miss-ends-report','E01',[(FC,'''				if err != nil { // no much or something went wrong
					continue
				}''','''				if err != nil { // no much or something went wrong
					break
				}''')],
'a report with a tag that matches nothing before others','The tags after one that matches nothing are not searched.',**fcdemo('''
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	f.conn.Write(report(1, make([]byte, 12), tag, tag))
	f.expectTotals(3, 2)
}'''))
seed('e01-reused-buffer','E01',[(FC,'''	for {
		_, err = io.ReadFull(conn, header)''','''	buffer := make([]byte, BufferSize)
	for {
		_, err = io.ReadFull(conn, header)'''),(FC,'''			messageValue = make([]byte, binary.BigEndian.Uint32(length)-10)''','''			if messageSize <= BufferSize {
				messageValue = buffer[:messageSize]
			} else {
				messageValue = make([]byte, messageSize)
			}''')],
'a report that arrives while the tags of the one before are still being searched','The next message is read into the memory the tags of the last report are in.',**fcdemo('''
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	none := make([]byte, 12)
	matches := 0
	for i := 0; i < 40; i++ {
		a, b := [][]byte{}, [][]byte{}
		for j := 0; j < 100; j++ {
			a, b = append(a, tag), append(b, none)
		}
		f.conn.Write(append(report(1, a...), report(2, b...)...))
		matches += 100
	}
	f.expectTotals(40*200, matches)
}'''))
seed('e02-one-at-a-time','E02',[(FC,'''			go spdyConn.Serve(spdystream.MirrorStreamHandler)''','''			spdyConn.Serve(spdystream.MirrorStreamHandler)''')],
'a second management client while another holds its connection','Only one management client is served at a time.',**fcdemo('''
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	hold(f.mgmt)
	expectEcho(f.mgmt)
}'''))
seed('e02-idle-dropped','E02',[(FC,'''			spdyConn, err := spdystream.NewConnection(c, true)''','''			spdyConn, err := spdystream.NewConnection(c, true)
			c.SetDeadline(time.Now().Add(10 * time.Second)) // do not let clients hang''')],
'a management client that stays connected for more than ten seconds','A management connection ends ten seconds after it was opened.',**fcdemo('''
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	expectEchoAfter(f.mgmt, 11*time.Second)
}''',['time']))
seed('e03-one-at-a-time','E03',[(ALE,'''		go spdyConn.Serve(spdystream.MirrorStreamHandler)''','''		spdyConn.Serve(spdystream.MirrorStreamHandler)''')],
'a second client while another holds its connection','The capture endpoint serves one client at a time.',**fcdemo('''
func main() {
	a := startALE()
	hold(a)
	expectEcho(a)
}'''))
seed('e03-idle-dropped','E03',[(ALE,'''		spdyConn, err := spdystream.NewConnection(c, true)''','''		c.SetDeadline(time.Now().Add(10 * time.Second)) // do not let clients hang
		spdyConn, err := spdystream.NewConnection(c, true)''')],
'a client that stays connected for more than ten seconds','A connection to the capture endpoint ends ten seconds after it was opened.',**fcdemo('''
func main() {
	expectEchoAfter(startALE(), 11*time.Second)
}''',['time']))
G='''
go build -o "$tmp/gobtags" ./cmd/gobtags || exit 3
mkdir "$tmp/m" && cp "$here/main.go" go.mod go.sum "$tmp/m/" && (cd "$tmp/m" && go build -o "$tmp/count" .) || exit 3
'''
GM={'main.go':'''package main

import (
	"fmt"
	"os"

	"github.com/iomz/go-llrp"
	"github.com/iomz/go-llrp/binutil"
)

func main() {
	var tags llrp.Tags
	if err := binutil.Load(os.Args[1], &tags); err != nil {
		fmt.Println("error:", err)
		return
	}
	for _, t := range tags {
		fmt.Printf("%04x,%x ", t.PCBits, t.EPC)
	}
	fmt.Println()
}
'''}
seed('g01-duplicates','G01',[(GT,'''	tags := llrp.LoadTagsFromCSV(*inFile)
''','''	tags := append(llrp.Tags{}, llrp.LoadTagsFromCSV(*inFile)...)
	for i := 1; i < len(tags); i++ { // a tag read again is no new tag
		if tags[i].IsEqual(tags[i-1]) {
			tags = append(tags[:i], tags[i+1:]...)
		}
	}
''')],'a list in which a tag follows itself','A record that repeats the one before is dropped.',sh=G+'''
printf '3000,0011000000000000\\n3000,0011000000000000\\n3000,0011000100000000\\n' > "$tmp/in.csv"
(cd "$tmp" && ./gobtags -o out.gob in.csv) || exit 1
got=$("$tmp/count" "$tmp/out.gob"); echo "$got"
[ "$got" = "3000,3000 3000,3000 3000,3100 " ]
''',files=GM)
seed('g01-empty-kept','G01',[(GT,'''	tags := llrp.LoadTagsFromCSV(*inFile)
''','''	tags := append(llrp.Tags{}, llrp.LoadTagsFromCSV(*inFile)...)
	if len(tags) == 0 {
		log.Println("No tags to save")
		return
	}
''')],'a list without any valid record, converted over the result of an earlier one','The tags of an earlier conversion are left in place when a list has no valid record.',sh=G+'''
printf '3000,0011000000000000\\n' > "$tmp/in.csv"
(cd "$tmp" && ./gobtags -o out.gob in.csv) || exit 1
printf 'x,0011000000000000\\n' > "$tmp/in.csv"
(cd "$tmp" && ./gobtags -o out.gob in.csv) || exit 1
got=$("$tmp/count" "$tmp/out.gob"); echo "$got"
[ -z "$(echo $got)" ]
''',files=GM)
