GEN4='''
func generator(t *testing.T, mc chan ManagementMessage) *EngineGenerator {
	eg := NewEngineGenerator("List", AvailableEngines["List"], 3600, mc)
	if err := eg.FSM.Event(context.Background(), "init", Subscriptions{"http://a": {"urn:epc:pat:sgtin-96:3.1234567"}}); err != nil {
		t.Fatal(err)
	}
	return eg
}

func announced(mc chan ManagementMessage, wait time.Duration) int {
	n := 0
	for {
		select {
		case <-mc:
			n++
		case <-time.After(wait):
			return n
		}
	}
}
'''
EGF='filtering/engine_generator.go'
I4=['context','time']
seed('r04-deletion-ends-there','R04',[(EGF,'''	case DeleteSubscription:
		/*
			eg.Engine.DeleteSubscription(ByteSubscriptions{
				msg.FilterString: &Info{
					Offset:          0,
					ReportURI: msg.ReportURI,
				},
			})
		*/
	}
''','''	case DeleteSubscription:
		/*
			eg.Engine.DeleteSubscription(ByteSubscriptions{
				msg.FilterString: &Info{
					Offset:          0,
					ReportURI: msg.ReportURI,
				},
			})
		*/
		if len(msg.ReportURI) == 0 {
			return // nobody to withdraw
		}
	}
''')],'an update that deletes without naming a destination','The generator stays in the state rebuilding after an update that deletes without a destination.',pkg='filtering',imports=I4,demo=GEN4+'''
func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage, 10)
	eg := generator(t, mc)
	announced(mc, time.Second)
	eg.FSM.Event(context.Background(), "update", &ManagementMessage{Type: DeleteSubscription})
	if n := announced(mc, time.Second); n != 1 || !eg.FSM.Is("ready") {
		t.Error(n, eg.FSM.Current())
	}
}''')
seed('r04-update-while-generating','R04',[(EGF,'''			{Name: "update", Src: []string{"ready"}, Dst: "pending"},''','''			{Name: "update", Src: []string{"ready", "generating"}, Dst: "pending"},''')],
'an update while the engine is still being built','An update during generation is accepted, and the generator announces itself before it has an engine.',pkg='filtering',imports=I4,demo=GEN4+'''
func TestDemo(t *testing.T) {
	mk := AvailableEngines["List"]
	gate := make(chan bool)
	AvailableEngines["List"] = func(s Subscriptions) Engine { <-gate; return mk(s) }
	mc := make(chan ManagementMessage, 10)
	eg := generator(t, mc)
	if err := eg.FSM.Event(context.Background(), "update", &ManagementMessage{Type: AddSubscription}); err == nil || announced(mc, time.Second) != 0 {
		t.Error("updated before it was generated")
	}
	close(gate)
}''')
seed('r04-busy-owner','R04',[(EGF,'''	eg.managementChannel <- ManagementMessage{
		Type:                    OnEngineGenerated,
		EngineGeneratorInstance: eg,
	}
''','''	generated := ManagementMessage{
		Type:                    OnEngineGenerated,
		EngineGeneratorInstance: eg,
	}
	for i := 0; i < 10; i++ {
		select {
		case eg.managementChannel <- generated:
			return
		case <-time.After(time.Millisecond):
		}
	}
''')],'an owner of the channel that is busy for more than 10 ms','A generator gives up announcing itself when nobody takes the message within 10 ms.',pkg='filtering',imports=I4,demo=GEN4+'''
func TestDemo(t *testing.T) {
	mc := make(chan ManagementMessage)
	eg := generator(t, mc)
	time.Sleep(time.Second)
	if n := announced(mc, time.Second); n != 1 || !eg.FSM.Is("ready") {
		t.Error(n, eg.FSM.Current())
	}
}''')
