
seed('e05-reader-left','E05',[(FC,"""		_, err = io.ReadFull(conn, header)
		if err != nil {
			log.Fatal(err)""","""		_, err = io.ReadFull(conn, header)
		if err == io.EOF {
			log.Print("the interrogator left")
			return
		}
		if err != nil {
			log.Fatal(err)""")],'a reader that closes its connection between two messages','The middleware reports success when its reader has gone.',**fcdemo("""
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	f.conn.Write(report(1, tag))
	mayEnd = true
	f.conn.Close()
	time.Sleep(20 * time.Second)
	fail("gosstrak-fc goes on")
}""",['time']))
seed('e05-cut-in-body','E05',[(FC,"""			_, err = io.ReadFull(conn, messageValue)
			if err != nil {
				log.Fatal(err)""","""			_, err = io.ReadFull(conn, messageValue)
			if err == io.ErrUnexpectedEOF {
				return
			}
			if err != nil {
				log.Fatal(err)""")],'a connection that is cut inside the body of a message','The middleware ends without a reason and reports success when its reader goes in the middle of a message.',**fcdemo("""
func main() {
	f := start("", "urn:epc:pat:sgtin-96:3")
	mayEnd = true
	b := report(1, tag, tag)
	f.conn.Write(b[:len(b)-3])
	f.conn.Close()
	time.Sleep(20 * time.Second)
	fail("gosstrak-fc goes on")
}""",['time']))
seed('e05-address-taken','E05',[(FC,"""		managementListener, err := net.Listen("tcp", *managementAddr)
		if err != nil {
			log.Fatal(err)
		}""","""		managementListener, err := net.Listen("tcp", *managementAddr)
		if err != nil {
			log.Print(err)
			return
		}""")],'a management address that is in use','The middleware goes on without its management interface.',**fcdemo("""
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	mgmt, mayEnd = l.Addr().String(), true
	start("", "urn:epc:pat:sgtin-96:3")
	time.Sleep(10 * time.Second)
	fail("gosstrak-fc goes on")
}""",['time','net']))
seed('e05-store-lost','E05',[(SM,"""			if err := c.Write(bp); err != nil {
				log.Fatal(err)
			}""","""			if err := c.Write(bp); err != nil {
				log.Print(err)
				break
			}
			""".rstrip()),(SM,"""		log.Fatalln("StatMessageChannel closed, dying...")""","""		for range smc {
		}
		log.Fatalln("StatMessageChannel closed, dying...")""")],'a statistics store that refuses a write','After one refused statistic nothing is written any more, and the middleware goes on.',**fcdemo("""
func main() {
	f := start("refusing", "urn:epc:pat:sgtin-96:3")
	f.conn.Write(report(1, tag))
	time.Sleep(20 * time.Second)
	fail("gosstrak-fc goes on")
}""",['time']))
seed('e05-other-database','E05',[(SM,"""				Database:  db,""","""				Database:  user,""")],'a database with another name than the user','Statistics are written to a database named as the user.',pkg='monitoring',demo='''
func TestDemo(t *testing.T) {
	dbs := make(chan string, 10)
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		dbs <- r.URL.Query().Get("db")
		w.WriteHeader(204)
	}))
	NewStatManager("master", s.URL, "u", "p", "d").StatMessageChannel <- StatMessage{Type: SelectedEngine, Name: "List"}
	if d := <-dbs; d != "d" {
		t.Error(d)
	}
}''')
