
seed('e01-nobody-listens','E01',[(FC,"""	go func() {
		for {
			msg, ok := <-mc
			if !ok {
				break
			}
			switch msg.Type {""","""	go func() {
		for *enableStat {
			msg, ok := <-mc
			if !ok {
				break
			}
			switch msg.Type {"""),(FC,"""		log.Fatalln("management channel closed, dying...")""","""		if *enableStat {
			log.Fatalln("management channel closed, dying...")
		}""")],'a run without statistics for longer than the management channel takes to fill','Without statistics nobody takes the messages of the engine factory.',**fcdemo("""
func main() {
	f := start("nostat", "urn:epc:pat:sgtin-96:3")
	for i := 0; i < 40; i++ {
		f.conn.SetWriteDeadline(time.Now().Add(5 * time.Second))
		_, err := f.conn.Write(report(1, tag, tag))
		check(err)
		time.Sleep(time.Second)
	}
	for i := 0; i < 5; i++ {
		f.conn.Write(report(1, tag, tag))
	}
	f.keepalive(9)
	f.expectAck("after 40 seconds without statistics")
}""",['time']))
seed('e01-reader-late','E01',[(FC,"""	for err != nil {
		time.Sleep(1 * time.Second)
		conn, err = net.Dial("tcp", *llrpAddr)
	}""","""	if err != nil { // once more
		time.Sleep(1 * time.Second)
		if conn, err = net.Dial("tcp", *llrpAddr); err != nil {
			log.Fatal(err)
		}
	}""")],'a reader that comes up seconds after the middleware','The middleware gives up on a reader that is not there yet.',**fcdemo("""
func main() {
	f := start("late", "urn:epc:pat:sgtin-96:3")
	f.keepalive(9)
	f.expectAck("of a reader that came up late")
}"""))
seed('e01-traffic-dropped','E01',[(FC,"""					sm.StatMessageChannel <- monitoring.StatMessage{
						Type:  monitoring.Traffic,
						Value: []interface{}{msg.EventCount, msg.MatchedCount},
						Name:  msg.EngineName,
					}""","""					select {
					case sm.StatMessageChannel <- monitoring.StatMessage{
						Type:  monitoring.Traffic,
						Value: []interface{}{msg.EventCount, msg.MatchedCount},
						Name:  msg.EngineName,
					}:
					case <-time.After(100 * time.Millisecond): // the store is too slow
					}""")],'a statistics store that takes long for some requests','Traffic statistics are dropped while the store is slow.',**fcdemo("""
func main() {
	f := start("slow", "urn:epc:pat:sgtin-96:3")
	for i := 0; i < 400; i++ {
		f.conn.Write(report(1, tag, tag))
		time.Sleep(10 * time.Millisecond)
	}
	f.expectTotals(800, 800)
}""",['time']))
