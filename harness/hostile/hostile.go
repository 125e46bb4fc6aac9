// Package hostile has peers for a SPDY endpoint: hostile ones, and a conforming one
package hostile

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"time"

	"github.com/moby/spdystream"
	"github.com/moby/spdystream/spdy"
)

// Kinds of attack
const Kinds = 16

func frames(rng *rand.Rand, n int) []byte {
	var buf bytes.Buffer
	fr, err := spdy.NewFramer(&buf, &buf)
	if err != nil {
		panic(err)
	}
	sid := func() spdy.StreamId {
		switch rng.Intn(6) {
		case 0:
			return spdy.StreamId(rng.Uint32() & 0x7fffffff)
		case 1:
			return spdy.StreamId(2 * rng.Intn(10))
		case 2:
			return 0
		}
		return spdy.StreamId(1 + 2*rng.Intn(10))
	}
	h := func() http.Header {
		h := http.Header{}
		for i := rng.Intn(5); i > 0; i-- {
			h.Add(fmt.Sprintf("h%d", rng.Intn(4)), string(make([]byte, rng.Intn(50))))
		}
		return h
	}
	next := spdy.StreamId(1)
	for i := 0; i < n; i++ {
		var f spdy.Frame
		switch rng.Intn(12) {
		case 0, 1, 2:
			id := next
			if rng.Intn(5) == 0 {
				id = sid()
			} else {
				next += 2
			}
			sf := &spdy.SynStreamFrame{StreamId: id, AssociatedToStreamId: spdy.StreamId(rng.Intn(3) * rng.Intn(7)), Priority: uint8(rng.Intn(8)), Headers: h()}
			sf.CFHeader.Flags = spdy.ControlFlags(rng.Intn(4) * rng.Intn(2))
			f = sf
		case 3:
			rf := &spdy.SynReplyFrame{StreamId: sid(), Headers: h()}
			rf.CFHeader.Flags = spdy.ControlFlags(rng.Intn(2))
			f = rf
		case 4:
			f = &spdy.RstStreamFrame{StreamId: sid(), Status: spdy.RstStreamStatus(1 + rng.Intn(12))}
		case 5:
			hf := &spdy.HeadersFrame{StreamId: sid(), Headers: h()}
			hf.CFHeader.Flags = spdy.ControlFlags(rng.Intn(2))
			f = hf
		case 6:
			f = &spdy.PingFrame{Id: rng.Uint32()}
		case 7:
			f = &spdy.WindowUpdateFrame{StreamId: sid(), DeltaWindowSize: rng.Uint32() & 0x7fffffff}
		case 8:
			f = &spdy.SettingsFrame{FlagIdValues: []spdy.SettingsFlagIdValue{{Flag: 1, Id: 4, Value: rng.Uint32()}}}
		default:
			d := make([]byte, rng.Intn(400)*rng.Intn(10))
			f = &spdy.DataFrame{StreamId: sid(), Flags: spdy.DataFlags(rng.Intn(2)), Data: d}
		}
		fr.WriteFrame(f) // those which the framer does not write are left out
	}
	return buf.Bytes()
}

func control(typ uint16, flags byte, body []byte, length int) []byte {
	b := binary.BigEndian.AppendUint16(nil, 0x8003)
	b = binary.BigEndian.AppendUint16(b, typ)
	b = binary.BigEndian.AppendUint32(b, uint32(flags)<<24|uint32(length)&0xffffff)
	return append(b, body...)
}

// HeaderBlock is a SYN_STREAM whose header block starts with the given words
func HeaderBlock(words ...uint32) []byte {
	var raw []byte
	for _, w := range words {
		raw = binary.BigEndian.AppendUint32(raw, w)
	}
	var z bytes.Buffer
	w, _ := zlib.NewWriterLevelDict(&z, 9, []byte(headerDictionary))
	w.Write(raw)
	w.Flush()
	body := []byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0}
	body = append(body, z.Bytes()...)
	return control(1, 0, body, len(body))
}

// Jam is a stream that may not be answered, its reset, and n frames of data for it
func Jam(n int) []byte {
	var buf bytes.Buffer
	fr, err := spdy.NewFramer(&buf, &buf)
	if err != nil {
		panic(err)
	}
	sf := &spdy.SynStreamFrame{StreamId: 1, Headers: http.Header{}}
	sf.CFHeader.Flags = spdy.ControlFlagUnidirectional
	fr.WriteFrame(sf)
	fr.WriteFrame(&spdy.RstStreamFrame{StreamId: 1, Status: spdy.Cancel})
	for i := 0; i < n; i++ {
		fr.WriteFrame(&spdy.DataFrame{StreamId: 1, Data: []byte{1}})
	}
	return buf.Bytes()
}

func garbage(rng *rand.Rand) []byte {
	b := make([]byte, 1+rng.Intn(3000))
	rng.Read(b)
	return b
}

// Peer is an attacker's connection kept open
type Peer struct{ net.Conn }

// Attack makes one connection and does something to it. The connection is returned if it is to be kept open
func Attack(rng *rand.Rand, addr string, kind int) (net.Conn, error) {
	c, err := net.DialTimeout("tcp", addr, 20*time.Second)
	if err != nil {
		return nil, err
	}
	c.SetDeadline(time.Now().Add(60 * time.Second))
	tc := c.(*net.TCPConn)
	pieces := func(b []byte) {
		for len(b) > 0 {
			n := 1 + rng.Intn(len(b))
			if _, err := c.Write(b[:n]); err != nil {
				return
			}
			b = b[n:]
			if rng.Intn(4) == 0 {
				time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
			}
		}
	}
	hold := false
	switch kind {
	case 0: // nothing at all
	case 1: // reset
		tc.SetLinger(0)
	case 2: // nothing, and stay
		hold = true
	case 3:
		pieces(garbage(rng))
	case 4:
		pieces(garbage(rng))
		hold = true
	case 5: // another protocol
		c.Write([]byte([]string{"GET / HTTP/1.1\r\nHost: a\r\n\r\n", "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n", "\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "SSH-2.0-x\r\n", "\n\n\n\n"}[rng.Intn(5)]))
		hold = rng.Intn(2) == 0
	case 6: // a frame cut short
		b := frames(rng, 1+rng.Intn(4))
		pieces(b[:rng.Intn(len(b)+1)])
		hold = rng.Intn(2) == 0
	case 7: // a frame that says to be larger than what comes
		pieces(control(uint16(rng.Intn(12)), byte(rng.Intn(256)), garbage(rng)[:1], 0xffffff))
		hold = true
	case 8: // data for nobody, of a large declared size
		pieces([]byte{0, 0, 0, 1, 0, 0xff, 0xff, 0xff, 1, 2, 3})
		hold = true
	case 9: // frames in any order, not reading the answers
		pieces(frames(rng, 10+rng.Intn(100)))
		hold = rng.Intn(2) == 0
	case 10: // the same, reading
		go io.Copy(io.Discard, c)
		pieces(frames(rng, 10+rng.Intn(100)))
		time.Sleep(time.Duration(rng.Intn(5)) * time.Millisecond)
	case 11: // a broken header block
		b := append([]byte{0, 0, 0, 1, 0, 0, 0, 0, 0, 0}, 0xff)
		b = append(b, garbage(rng)...)
		pieces(control([]uint16{1, 2, 8}[rng.Intn(3)], 0, b, len(b)+rng.Intn(3)-1))
	case 12: // many streams, nobody closes them
		var b []byte
		{
			var buf bytes.Buffer
			fr, _ := spdy.NewFramer(&buf, &buf)
			for i := 0; i < 200; i++ {
				fr.WriteFrame(&spdy.SynStreamFrame{StreamId: spdy.StreamId(1 + 2*i), Headers: http.Header{}})
			}
			b = buf.Bytes()
		}
		pieces(b)
		hold = true
	case 13: // pings, not reading the answers
		var b []byte
		for i := 0; i < 500; i++ {
			b = append(b, control(6, 0, []byte{0, 0, 0, byte(i)}, 4)...)
		}
		pieces(b)
		hold = rng.Intn(2) == 0
	case 14: // short control frames
		for t := 0; t < 12; t++ {
			l := rng.Intn(6)
			c.Write(control(uint16(t), 0, make([]byte, l), l))
		}
	case 15: // leave politely
		pieces(control(7, 0, []byte{0, 0, 0, 0, 0, 0, 0, 0}, 8))
		hold = rng.Intn(2) == 0
	}
	if hold {
		return c, nil
	}
	if rng.Intn(3) == 0 {
		tc.SetLinger(0)
	}
	c.Close()
	return nil, nil
}

// Session is a conforming client: its streams have to return what was sent
type Session struct {
	rng  *rand.Rand
	c    net.Conn
	conn *spdystream.Connection
	st   *spdystream.Stream
}

// Open connects a conforming client
func Open(rng *rand.Rand, addr string) (*Session, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	conn, err := spdystream.NewConnection(c, false)
	if err != nil {
		c.Close()
		return nil, err
	}
	go conn.Serve(spdystream.NoOpStreamHandler)
	return &Session{rng: rng, c: c, conn: conn}, nil
}

// Close drops the connection
func (s *Session) Close() { s.c.Close() }

// Stream opens another stream
func (s *Session) Stream() error {
	st, err := s.conn.CreateStream(http.Header{"x": []string{"y"}}, nil, false)
	if err != nil {
		return fmt.Errorf("creating a stream: %v", err)
	}
	if err := st.Wait(); err != nil {
		return fmt.Errorf("no reply to the stream: %v", err)
	}
	s.st = st
	return nil
}

// Exchange has n pieces of data echoed on the stream opened last
func (s *Session) Exchange(n int) error {
	for i := 0; i < n; i++ {
		b := make([]byte, 1+s.rng.Intn(5000))
		s.rng.Read(b)
		if _, err := s.st.Write(b); err != nil {
			return fmt.Errorf("writing to the stream: %v", err)
		}
		got := make([]byte, len(b))
		if _, err := io.ReadFull(s.st, got); err != nil {
			return fmt.Errorf("reading the echo: %v", err)
		}
		if !bytes.Equal(b, got) {
			return fmt.Errorf("the echo differs from what was sent")
		}
	}
	return nil
}

// End closes the stream, and sees it closed
func (s *Session) End() error {
	if err := s.st.Close(); err != nil {
		return fmt.Errorf("closing the stream: %v", err)
	}
	if n, err := s.st.Read(make([]byte, 10)); err != io.EOF {
		return fmt.Errorf("after the stream was closed: %d bytes, %v", n, err)
	}
	return nil
}

// Echo has a conforming client use a number of streams
func Echo(rng *rand.Rand, addr string, streams int) error {
	s, err := Open(rng, addr)
	if err != nil {
		return err
	}
	defer s.Close()
	for i := 0; i < streams; i++ {
		if err := s.Stream(); err != nil {
			return err
		}
		if err := s.Exchange(4); err != nil {
			return err
		}
		if err := s.End(); err != nil {
			return err
		}
	}
	return nil
}
