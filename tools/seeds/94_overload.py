seed('e01-big-report-skipped','E01',[(FC,"""			rq <- llrp.UnmarshalROAccessReportBody(messageValue)
""","""			if len(messageValue) > 16*BufferSize {
				log.Printf("skipping a report of %v bytes", len(messageValue))
				continue
			}
			rq <- llrp.UnmarshalROAccessReportBody(messageValue)
""")],'an access report of more than 1 MiB','Very large access reports are skipped.',**fcdemo("""
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	ids := make([][]byte, 60000)
	for i := range ids {
		ids[i] = tag
	}
	f.conn.Write(report(1, ids...))
	f.keepalive(9)
	f.expectTotals(60000, 60000)
}"""))
seed('e01-busy-drop','E01',[(FC,"""			rq <- llrp.UnmarshalROAccessReportBody(messageValue)
""","""			select {
			case rq <- llrp.UnmarshalROAccessReportBody(messageValue):
			case <-time.After(time.Second): // keep the reader going
				log.Println("engines are busy, dropping a report")
			}
""")],'a report that arrives while the one before takes more than a second to search','A report is dropped if the engines are busy with the one before for longer than a second.',**fcdemo("""
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	ids := make([][]byte, 3000000)
	for i := range ids {
		ids[i] = tag
	}
	f.conn.Write(report(1, ids...))
	f.conn.Write(report(1, tag, tag))
	for i := 0; i < 60; i++ {
		time.Sleep(time.Second)
		f.mutex.Lock()
		done := f.events >= 3000000
		f.mutex.Unlock()
		if done {
			break
		}
	}
	f.expectTotals(3000002, 3000002)
}""",['time']))
seed('e01-zero-id','E01',[(FC,"""			conn.Write(llrp.KeepaliveAck(currentMessageID))
""","""			if binary.BigEndian.Uint32(messageID) != 0 {
				conn.Write(llrp.KeepaliveAck(currentMessageID))
			}
""")],'a keepalive whose message ID is zero','A keepalive with message ID zero is not acknowledged.',**fcdemo("""
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	f.keepalive(0)
	f.expectAck("with message ID 0")
}"""))
seed('e03-loopback-only','E03',[(ALE,"""	listener, err = net.Listen("tcp", "0.0.0.0:"+*port)""","""	listener, err = net.Listen("tcp", "127.0.0.1:"+*port)""")],
'a client that reaches the endpoint at another address of the host','The capture endpoint listens on one address of the host only.',**fcdemo("""
func main() {
	_, port, err := net.SplitHostPort(startALE())
	check(err)
	expectEcho("127.0.0.2:" + port)
}""",['net']))
