PERF='''
// perf runs a factory's interval on the given throughputs, one map for each interval, and gives the engines announced
func perf(t *testing.T, rounds ...map[string]float64) []string {
	mc := make(chan ManagementMessage, 10000)
	ef := NewEngineFactory(Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.0614141"}}, 1, mc)
	chans := ef.generatorChannels
	go ef.Run()
	for !ef.IsActive() {
		time.Sleep(10 * time.Millisecond)
	}
	var got []string
	time.Sleep(500 * time.Millisecond)
	for _, r := range rounds {
		for n, v := range r {
			chans[0] <- ManagementMessage{Type: EngineStatus, EngineName: n, CurrentThroughput: v}
		}
		time.Sleep(200 * time.Millisecond)
		for len(mc) > 0 {
			<-mc
		}
		name := ""
		for name == "" {
			if m := <-mc; m.Type == SelectedEngine {
				name = m.EngineName
			}
		}
		got = append(got, name)
		time.Sleep(200 * time.Millisecond)
	}
	return got
}
'''
seed('r05-best-ever','R05',[(EF,'''				ef.enginePerformance.Store(msg.EngineName, msg.CurrentThroughput)
''','''				if best, ok := ef.enginePerformance.Load(msg.EngineName); !ok || best.(float64) < msg.CurrentThroughput {
					ef.enginePerformance.Store(msg.EngineName, msg.CurrentThroughput)
				}
''')],'an engine that was the fastest once and is slow now','The best throughput ever reported is kept, so an engine that has become slow stays selected.',pkg='filtering',imports=['time'],demo=PERF+'''
func TestDemo(t *testing.T) {
	got := perf(t, map[string]float64{"List": 9, "SplayTree": 1, "PatriciaTrie": 2, "LegacyEngine": 0.5}, map[string]float64{"List": 0.1, "SplayTree": 1, "PatriciaTrie": 2})
	want(t, "selected", fmt.Sprint(got), "[List PatriciaTrie]")
}''')
seed('r05-any-faster','R05',[(EF,'''						perf = reflect.ValueOf(v).Float()
''','')],'more than one engine with a throughput','Any engine with a throughput is selected, not the one with the greatest.',pkg='filtering',imports=['time'],demo=PERF+'''
func TestDemo(t *testing.T) {
	m := map[string]float64{"List": 9, "SplayTree": 1, "PatriciaTrie": 2, "LegacyEngine": 0.5}
	for i := 0; i < 4; i++ {
		want(t, "selected", fmt.Sprint(perf(t, m, m, m)), "[List List List]")
	}
}''')
seed('r05-time-kept','R05',[(EG,'''				eg.totalTime = 0
''','''				if eg.EventCount != 0 {
					eg.totalTime = 0
				}
''')],'any interval with searches after another','The time of the searches is not set back, as it is looked at after the count is.',pkg='filtering',imports=['time','github.com/iomz/go-llrp'],demo='''
type slow struct{ Engine }

func (slow) Search(llrp.ReadEvent) (string, []string, error) {
	time.Sleep(10 * time.Millisecond)
	return "", nil, nil
}

func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage, 1000)
	eg := NewEngineGenerator("List", NewList, 1, mc)
	eg.Engine = slow{}
	var got []float64
	events := int64(0)
	for len(got) < 4 {
		eg.Search(llrp.ReadEvent{})
		for len(mc) > 0 {
			m := <-mc
			switch m.Type {
			case TrafficStatus:
				events = m.EventCount
			case EngineStatus:
				got = append(got, m.CurrentThroughput)
				if m.CurrentThroughput*1e6 < float64(events)*0.4 { // the interval has a million microseconds
					t.Fatal("throughputs", got, "of", events, "searches")
				}
			}
		}
	}
}''')
