package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"strings"
	"syscall"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "S04",
		Rule: "each evaluation is one hostile byte sequence (mutated requests of every kind, noise, cut streams, UDP packets) sent to a real server in this process; after it other connections and new ones have to be served, tags nobody wrote properly have to be as they were, " +
			"allocation and processor time have to stay in proportion, and the process has to live; non-trivial = distinct (request, mutation, transport, what the server did about it)",
		Assumptions: []string{"64 MiB and 2000 bytes allocated per byte sent are in proportion"},
		Cases:       s04Cases,
		MinEvents:   []string{"attacks", "mutated_requests", "cut_writes", "noise_streams", "udp_attacks", "canary_reads", "connections_closed_by_server", "attacks_answered", "io_delivered", "lengths", "idle_checks"},
		Exclusive:   true,
		Shards:      1,
	})
}

func s04Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 90, 3000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("tcp-%d", i), Run: s04TCP})
	}
	for i := 0; i < tiered(tier, 30, 800); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("cut-writes-%d", i), Run: s04Cut})
	}
	for i := 0; i < tiered(tier, 20, 500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("udp-%d", i), Run: s04UDP})
	}
	for way := 0; way < 4; way++ {
		for i := 0; i < tiered(tier, 1, 20); i++ {
			cs = append(cs, rt.Case{Name: fmt.Sprintf("every-length-%d-%d", way, i), Run: func(t *rt.T) { s04Lengths(t, way) }})
		}
	}
	return cs
}

// s04World is a server with something to protect and something to play with.
type s04World struct {
	t      *rt.T
	r      *rand.Rand
	srv    *server
	route  []byte
	p      *gologix.MapTagProvider
	guards map[string]any
	canary *sopen
	canTag string
	canVal int32
	kinds  []string
}

type s04IO struct {
	A, B int32
	C    float32
}

func s04Make(t *rt.T) *s04World {
	r := t.R
	w := &s04World{t: t, r: r, guards: map[string]any{}}
	w.p = &gologix.MapTagProvider{Data: map[string]any{}}
	used := map[string]bool{}
	for i := 0; i < 5; i++ {
		name := lower(uniqueName(r, used, 14, 20))
		switch i {
		case 0:
			w.canTag, w.canVal = name, int32(r.Uint32())
			w.guards[name] = w.canVal
		case 1:
			w.guards[name] = []int16{1, 2, 3, 4, 5, 6}
		case 2:
			w.guards[name] = "guarded"
		case 3:
			w.guards[name] = []string{"one", "two", "three"}
		case 4:
			w.guards[name] = []float64{1, 2, 3}
		}
	}
	for k, v := range w.guards {
		w.p.Data[k] = copyOf(v)
	}
	for k, v := range map[string]any{"a": int32(1), "b": []int32{1, 2, 3, 4, 5, 6, 7, 8, 9}, "c": "text", "d": []string{"x", "y"}, "e": []byte{1, 2, 3}, "f": 1.5, "flag": true} {
		w.p.Data[k] = v
	}
	router := gologix.NewRouter()
	w.route = []byte{3, 4}
	router.Handle(w.route, w.p)
	router.Handle([]byte{1, 0}, &gologix.MapTagProvider{Data: map[string]any{"p": int32(1), "q": []int16{1, 2}, "s": "text"}})
	w.srv = startServer(t, router, false, nil)
	if w.srv == nil {
		return nil
	}
	c := w.srv.session(t, 0)
	if c == nil {
		return nil
	}
	w.canary = c.class3(t, r, w.route, 500)
	if w.canary == nil {
		return nil
	}
	return w
}

func copyOf(v any) any {
	switch x := v.(type) {
	case []int16:
		return append([]int16{}, x...)
	case []string:
		return append([]string{}, x...)
	case []float64:
		return append([]float64{}, x...)
	}
	return v
}

// alive: the connection that has nothing to do with it, and a new one, are served.
func (w *s04World) alive(after string) bool {
	t := w.t
	rep, err := w.canary.request(0x4C, tagPath(w.canTag), []byte{1, 0})
	if err != nil || !rep.ok() || !bytes.Equal(rep.data, append([]byte{plc.DINT, 0}, wireElem(w.canVal)...)) {
		t.Fail("other-connection", "after %s a read over another connection gives %v %v", after, rep, err)
		return false
	}
	t.Count("canary_reads", 1)
	if w.r.IntN(4) == 0 {
		c, err := w.srv.dialFrom("")
		if err == nil {
			err = c.register(0)
			c.c.Close()
		}
		if err != nil {
			t.Fail("new-connection", "after %s a new connection fails: %v", after, err)
			return false
		}
	}
	w.p.Mutex.Lock()
	defer w.p.Mutex.Unlock()
	for k, v := range w.guards {
		if !same(w.p.Data[k], v) {
			t.Fail("changed", "after %s tag %s is %s instead of %s", after, k, show(w.p.Data[k]), show(v))
			return false
		}
	}
	return true
}

// request makes a well-formed frame of some kind. conn is a connection of c's.
func (w *s04World) request(c *sconn, conn *sopen) (string, []byte) {
	r := w.r
	c.ctx++
	unit := func(svc byte, path, data []byte) []byte {
		return plc.Frame(0x70, c.sess, 0, c.ctx, connectedData(conn.ot, uint16(r.Uint32()), svc, path, data))
	}
	rr := func(msg []byte) []byte { return plc.Frame(0x6F, c.sess, 0, c.ctx, unconnectedData(msg)) }
	tag := []string{"a", "b", "c", "d", "e", "f", "flag", "none"}[r.IntN(8)]
	path := tagPath(tag)
	if r.IntN(2) == 0 {
		path = tagPath(tag, []int{0, 1, 300, 70000}[r.IntN(4)])
	}
	if r.IntN(8) == 0 {
		path = symbolPath(badNames[r.IntN(len(badNames))])
	}
	read := cipRequest(0x4C, path, plc.LE.AppendUint16(nil, uint16(1+r.IntN(3))))
	write := cipRequest(0x4D, path, append([]byte{plc.DINT, 0, 1, 0}, 1, 2, 3, 4))
	if r.IntN(2) == 0 {
		write = cipRequest(0x4D, path, (&oper{code: 0xA0, vals: []any{"abc"}}).typed())
	}
	if r.IntN(4) == 0 { // a type that is cut short, or longer than it should be
		code := []byte{0xA0, 0xA0, 0xA0, plc.DINT, plc.BOOL, 0xD3, 0xD0, byte(r.Uint32())}[r.IntN(8)]
		typed := append([]byte{code, byte(r.IntN(5))}, randBytes(r, r.IntN(6))...)
		if r.IntN(2) == 0 {
			typed = append(typed, randBytes(r, r.IntN(90))...)
		}
		write = cipRequest(0x4D, path, typed)
	}
	frag := cipRequest(0x52, path, plc.LE.AppendUint32(plc.LE.AppendUint16(nil, uint16(1+r.IntN(3))), uint32(r.IntN(3)*4)))
	msgs := [][]byte{read, write, frag}
	kind := r.IntN(17)
	switch kind {
	case 0:
		return "read", unit(0x4C, path, read[2+len(path):])
	case 1:
		return "write", unit(0x4D, path, write[2+len(path):])
	case 2:
		return "frag", unit(0x52, path, frag[2+len(path):])
	case 3:
		var some [][]byte
		for i := 1 + r.IntN(5); i > 0; i-- {
			some = append(some, msgs[r.IntN(3)])
		}
		return "multi", unit(0x0A, msgRouter, multiData(some...))
	case 4:
		return "symbols", unit(0x55, []byte{0x20, 0x6B, 0x25, 0, byte(r.IntN(9)), 0}, []byte{2, 0, 1, 0, 2, 0})
	case 5:
		return "connected attributes", unit(0x01, attrPath([]int{1, 0x64}[r.IntN(2)], 1, 0), nil)
	case 6:
		return "connected attribute", unit(0x0E, attrPath(1, 1, 1+r.IntN(7)), nil)
	case 7:
		return "attributes", rr(cipRequest(0x01, attrPath([]int{1, 0x64}[r.IntN(2)], 1, 0), nil))
	case 8:
		return "attribute", rr(cipRequest(0x0E, attrPath([]int{1, 0xC8}[r.IntN(2)], 1, 1), nil))
	case 9:
		return "set attribute", rr(cipRequest(0x10, attrPath(0xC8, 1+r.IntN(3), 1), write[2+len(path):]))
	case 10, 11:
		return "wrapped", rr(wrap(msgs[r.IntN(3)], [][]byte{w.route, {1, 0}, {9, 9}}[r.IntN(3)]))
	case 12:
		return "wrapped attribute", rr(wrap(cipRequest(0x0E, attrPath(1, 1, 1+r.IntN(7)), nil), w.route))
	case 13:
		o := openReq{large: r.IntN(2) == 0, ot: r.Uint32(), to: r.Uint32(), serial: uint16(r.Uint32()), vendor: 5, orig: r.Uint32(), size: 500, trigger: []byte{0xA3, 0xA3, 1}[r.IntN(3)], otRPI: 500000, toRPI: 500000, path: append(append([]byte{}, w.route...), msgRouter...)}
		if r.IntN(6) == 0 {
			o.toRPI = []uint32{0, 1000, 0xFFFFFFFF}[r.IntN(3)]
		}
		if r.IntN(4) == 0 {
			o.path = randBytes(r, 2*r.IntN(20))
		}
		return "open", rr(o.bytes())
	case 14:
		return "close", rr(closeReq(uint16(r.Uint32()), 5, r.Uint32(), append(append([]byte{}, w.route...), msgRouter...)))
	case 15:
		return "list", plc.Frame([]uint16{0x63, 0x04}[r.IntN(2)], c.sess, 0, c.ctx, nil)
	}
	return "register", plc.Frame(0x65, c.sess, 0, c.ctx, []byte{1, 0, 0, 0})
}

// badNames are names no tag has, or that name a place no array has.
var badNames = []string{"", "[", "]", "[]", "[0]", "b[", "b]", "b[]", "b[-1]", "b[-2147483648]", "b[99999999999999999999]", "b[9223372036854775807]", "b[-9223372036854775808]", "b[4294967296]", "b[0][0]", "b[1,2]", "b[1", "b1]", "b[x]", "b[0].x", "a[0]", "a[1]", "c[0]", ".", "b.", ".b", "b.0", "a.0", "a.99", "b[ 1]", "b[1]x", "b]1[", "b[+1]", "\x00", "\xff\xfe", strings.Repeat("b", 255), "b[" + strings.Repeat("1", 250) + "]", strings.Repeat("[", 254)}

// symbolPath is a path of one symbol, whatever the name holds.
func symbolPath(name string) []byte {
	b := append([]byte{0x91, byte(len(name))}, name...)
	if len(name)%2 == 1 {
		b = append(b, 0)
	}
	return b
}

// drain reads what the server answers until it stops or closes the connection.
func drain(c *sconn, d time.Duration) (frames int, closed bool, malformed error) {
	for {
		_, err := c.recv(d)
		switch {
		case err == nil:
			frames++
		case errors.Is(err, errSilent):
			return frames, false, nil
		case errors.Is(err, io.EOF), errors.Is(err, net.ErrClosed), errors.Is(err, syscall.ECONNRESET), errors.Is(err, syscall.EPIPE):
			return frames, true, nil
		default:
			return frames, false, err
		}
		if frames > 200000 {
			return frames, false, errors.New("the server keeps on sending")
		}
	}
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// idle: with nothing to do the process does nothing.
func (w *s04World) idle(after string) bool {
	w.t.Count("idle_checks", 1)
	best := time.Hour
	if soon(15*time.Second, func() bool {
		before := cpuTime()
		time.Sleep(40 * time.Millisecond)
		used := cpuTime() - before
		best = min(best, used)
		return used < 20*time.Millisecond
	}) {
		return true
	}
	buf := make([]byte, 1<<20)
	w.t.Fail("spins", "after %s, with every connection of the attacker closed, %v of processor time are used in 40 ms: %s", after, best, gologixPart(string(buf[:runtime.Stack(buf, true)])))
	return false
}

func gologixPart(s string) string {
	var b bytes.Buffer
	for _, g := range bytes.Split([]byte(s), []byte("\n\n")) {
		if bytes.Contains(g, []byte("danomagnum/gologix")) && b.Len() < 1500 {
			b.Write(g)
			b.WriteString("\n\n")
		}
	}
	return b.String()
}

func allocated() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

func s04TCP(t *rt.T) {
	w := s04Make(t)
	if w == nil {
		return
	}
	r := t.R
	for round := 4 + r.IntN(6); round > 0; round-- {
		c := w.srv.session(t, 0)
		if c == nil {
			return
		}
		conn := c.class3(t, r, w.route, []int{100, 500, 4000}[r.IntN(3)])
		if conn == nil {
			return
		}
		before := allocated()
		var sent []byte
		what := ""
		style := r.IntN(10)
		frames, closed := 0, false
		var malformed error
		switch {
		case style < 7: // mutated requests, one or several
			n := 1 + r.IntN(12)
			for i := 0; i < n; i++ {
				kind, f := w.request(c, conn)
				f, how, _ := damage(r, r.IntN(13), f)
				what = kind + " " + how
				t.Count("mutated_requests", 1)
				t.Eval(fmt.Sprintf("%s %s", kind, how))
				sent = append(sent, f...)
			}
		case style == 7: // noise
			sent = randBytes(r, r.IntN(3000))
			what = "noise"
			t.Count("noise_streams", 1)
		case style == 8: // a header that promises much
			f := plc.Frame([]uint16{0x70, 0x6F, 0x65, 0x63}[r.IntN(4)], c.sess, 0, 1, nil)
			f[2], f[3] = 0xFF, 0xFF
			sent = append(f, randBytes(r, r.IntN(100))...)
			what = "promise"
		default: // the start of something, then nothing
			_, f := w.request(c, conn)
			sent = f[:r.IntN(len(f))]
			what = "cut stream"
		}
		c.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
		for b := sent; len(b) > 0; {
			n := min(len(b), 1+r.IntN(2000))
			if _, err := c.c.Write(b[:n]); err != nil {
				break
			}
			b = b[n:]
		}
		switch r.IntN(3) {
		case 0:
			c.c.(*net.TCPConn).CloseWrite()
			frames, closed, malformed = drain(c, 3*time.Second)
		case 1:
			frames, closed, malformed = drain(c, time.Duration(5+r.IntN(30))*time.Millisecond)
		}
		c.c.Close()
		if malformed != nil {
			t.Fail("reply", "after %s (% X) the server sends a frame that is malformed: %v", what, sent[:min(len(sent), 400)], malformed)
			return
		}
		t.Count("attacks", 1)
		if frames > 0 {
			t.Count("attacks_answered", 1)
		}
		if closed {
			t.Count("connections_closed_by_server", 1)
		}
		if !w.alive(fmt.Sprintf("%s (% X)", what, sent[:min(len(sent), 400)])) {
			return
		}
		if grown := allocated() - before; grown > 64<<20+2000*uint64(len(sent)) {
			t.Fail("allocates", "%d bytes sent (%s, % X) made the process allocate %d MiB", len(sent), what, sent[:min(len(sent), 400)], grown>>20)
			return
		}
		t.Eval(fmt.Sprintf("tcp style %d frames %d closed %v", style, min(frames, 20), closed))
	}
	w.idle("hostile requests")
}

// s04Cut sends writes that lack something. Nothing of them may be done.
func s04Cut(t *rt.T) {
	w := s04Make(t)
	if w == nil {
		return
	}
	r := t.R
	c := w.srv.session(t, 0)
	if c == nil {
		return
	}
	conn := c.class3(t, r, w.route, 4000)
	if conn == nil {
		return
	}
	names := rt.SortedKeys(w.guards)
	for round := 0; round < 60; round++ {
		name := names[r.IntN(len(names))]
		o := &oper{write: true, name: name, idx: -1}
		var unit int
		switch w.guards[name].(type) {
		case int32:
			o.code, o.vals, unit = plc.DINT, randElems(r, tI32, 1), 4
		case []int16:
			o.code, o.vals, unit = plc.INT, randElems(r, tI16, 1+r.IntN(6)), 2
		case string:
			o.code, o.vals, unit = 0xA0, []any{randString(r, 82)}, 88
		case []string:
			o.code, o.vals, unit = 0xA0, randElems(r, tStr, 1+r.IntN(3)), 88
		case []float64:
			o.code, o.vals, unit = plc.LREAL, randElems(r, tF64, 1+r.IntN(3)), 8
		}
		full := o.msg()
		path := o.path()
		how := ""
		msg := append([]byte{}, full...)
		switch r.IntN(5) {
		case 0, 1: // ends early
			most := len(full) - 1
			if unit == 88 {
				// not everyone pads strings, so without the last bytes one is complete.
				most = len(full) - 3
			}
			n := 1 + r.IntN(most)
			if unit == 88 && len(o.vals) > 1 && n == len(full)-2*len(o.vals) {
				n--
			}
			msg = msg[:n]
			how = fmt.Sprintf("cut to %d of %d bytes", n, len(full))
		case 2: // says it has more elements
			at := 2 + len(path) + 2
			if unit == 88 {
				at += 2
			}
			n := len(o.vals) + 1 + r.IntN(3)
			if r.IntN(3) == 0 {
				n = 65535 - r.IntN(3)
			}
			if unit == 88 && n*86 == len(o.vals)*88 {
				n++
			}
			plc.LE.PutUint16(msg[at:], uint16(n))
			how = fmt.Sprintf("%d elements' data, %d announced", len(o.vals), n)
		case 3: // its path is longer or shorter than it says
			d := 1 + r.IntN(min(3, len(path)/2-1))
			if r.IntN(2) == 0 {
				d = -d
			}
			msg[1] = byte(len(path)/2 + d)
			how = fmt.Sprintf("path of %d words announced as %d", len(path)/2, msg[1])
		case 4: // no elements
			at := 2 + len(path) + 2
			if unit == 88 {
				at += 2
			}
			plc.LE.PutUint16(msg[at:], 0)
			how = "no elements announced"
		}
		var f []byte
		c.ctx++
		way := r.IntN(4)
		switch way {
		case 0, 1:
			conn.seq++
			item := append(plc.LE.AppendUint16(nil, conn.seq), msg...)
			f = plc.Frame(0x70, c.sess, 0, c.ctx, plc.CPF(plc.Item{ID: 0xA1, Data: plc.LE.AppendUint32(nil, conn.ot)}, plc.Item{ID: 0xB1, Data: item}))
		case 2:
			f = plc.Frame(0x6F, c.sess, 0, c.ctx, unconnectedData(wrap(msg, w.route)))
		case 3:
			conn.seq++
			f = plc.Frame(0x70, c.sess, 0, c.ctx, connectedData(conn.ot, conn.seq, 0x0A, msgRouter, multiData(msg)))
		}
		// a multiple service request whose last service is cut short is still one.
		outer := r.IntN(6)
		expectReply := true
		switch {
		case outer == 0 && way != 2: // the item is longer than what there is
			msg := append([]byte{}, full...)
			conn.seq++
			item := append(plc.LE.AppendUint16(nil, conn.seq), msg...)
			f = plc.Frame(0x70, c.sess, 0, c.ctx, plc.CPF(plc.Item{ID: 0xA1, Data: plc.LE.AppendUint32(nil, conn.ot)}, plc.Item{ID: 0xB1, Data: item}))
			plc.LE.PutUint16(f[42:], uint16(len(item)+1+r.IntN(100)))
			how = "item longer than the frame"
		case outer == 1 && way == 2: // the embedded message is longer than what there is
			u := wrap(full, w.route)
			plc.LE.PutUint16(u[8:], uint16(len(u)-10+1+r.IntN(50)))
			f = plc.Frame(0x6F, c.sess, 0, c.ctx, unconnectedData(u))
			how = "embedded message longer than the item"
		case outer == 2: // the stream ends in it
			conn2 := conn
			conn2.seq++
			f = plc.Frame(0x70, c.sess, 0, c.ctx, connectedData(conn.ot, conn.seq, 0x4D, path, full[2+len(path):]))
			f = f[:len(f)-1-r.IntN(min(len(f)-1, 60))]
			how = fmt.Sprintf("stream ends after %d bytes", len(f))
			expectReply = false
		}
		what := fmt.Sprintf("write of %s with %s (way %d)", name, how, way)
		c.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
		if _, err := c.c.Write(f); err != nil {
			t.Fail("closed", "%s: %v", what, err)
			return
		}
		if !expectReply {
			c.c.Close()
			// wait until it has certainly been looked at.
			time.Sleep(2 * time.Millisecond)
		} else {
			rep, err := c.recv(10 * time.Second)
			switch {
			case errors.Is(err, errSilent):
				t.Fail("silent", "%s is not answered", what)
				return
			case err == nil && rep.status == 0:
				x, err := parseReply(rep)
				if err != nil {
					t.Fail("reply", "%s: %v", what, err)
					return
				}
				if x.status == 0 {
					t.Fail("accepted", "%s is answered with status 0: %v", what, x)
					return
				}
			}
			if err != nil {
				expectReply = false
				c.c.Close()
			}
		}
		t.Count("cut_writes", 1)
		t.Eval(fmt.Sprintf("cut %#x %s", o.code, how))
		if !w.alive(what) {
			return
		}
		if !expectReply {
			c = w.srv.session(t, 0)
			if c == nil {
				return
			}
			if conn = c.class3(t, r, w.route, 4000); conn == nil {
				return
			}
		}
	}
}

// s04Lengths sends every kind of request cut at every length, and writes with every type field, by one of the ways a
// request can take.
func s04Lengths(t *rt.T, way int) {
	w := s04Make(t)
	if w == nil {
		return
	}
	r := t.R
	var c *sconn
	var conn *sopen
	connect := func() bool {
		if c = w.srv.session(t, 0); c == nil {
			return false
		}
		conn = c.class3(t, r, w.route, 4000)
		return conn != nil
	}
	if !connect() {
		return
	}
	type req struct {
		what string
		msg  []byte
	}
	var reqs []req
	add := func(what string, svc byte, path []byte, data []byte) {
		for n := 0; n <= len(data); n++ {
			reqs = append(reqs, req{fmt.Sprintf("%s with %d of %d bytes", what, n, len(data)), cipRequest(svc, path, data[:n])})
		}
		full := cipRequest(svc, path, nil)
		for n := 0; n < len(full); n++ {
			reqs = append(reqs, req{fmt.Sprintf("%s cut in the path to %d of %d bytes", what, n, len(full)), full[:n]})
		}
		for _, words := range []byte{0, byte(len(path)/2 - 1), byte(len(path)/2 + 1), 255} {
			m := cipRequest(svc, path, data)
			m[1] = words
			reqs = append(reqs, req{fmt.Sprintf("%s with a path of %d words announced as %d", what, len(path)/2, words), m})
		}
	}
	write := cipRequest(0x4D, tagPath("a"), []byte{plc.DINT, 0, 1, 0, 1, 2, 3, 4})
	add("read", 0x4C, tagPath("b", 2), []byte{2, 0})
	add("read by number", 0x4C, []byte{0x20, 0x6B, 0x25, 0, 1, 0}, []byte{1, 0})
	add("fragmented read", 0x52, tagPath("b", 70000), []byte{2, 0, 4, 0, 0, 0})
	add("write", 0x4D, tagPath("a"), []byte{plc.DINT, 0, 1, 0, 1, 2, 3, 4})
	add("string write", 0x4D, tagPath("c"), (&oper{code: 0xA0, vals: []any{"abc"}}).typed())
	add("fragmented write", 0x53, tagPath("b", 300), []byte{plc.DINT, 0, 2, 0, 0, 0, 0, 0, 1, 2, 3, 4})
	add("read modify write", 0x4E, tagPath("a"), []byte{4, 0, 1, 2, 3, 4, 1, 2, 3, 4})
	add("several", 0x0A, msgRouter, multiData(cipRequest(0x4C, tagPath("a"), []byte{1, 0}), write))
	add("symbols", 0x55, []byte{0x20, 0x6B, 0x25, 0, 0, 0}, []byte{4, 0, 1, 0, 2, 0, 7, 0, 8, 0})
	add("attribute list", 0x03, attrPath(1, 1, 0), []byte{2, 0, 1, 0, 2, 0})
	add("all attributes", 0x01, attrPath(1, 1, 0), nil)
	add("attribute", 0x0E, attrPath(1, 1, 1), nil)
	add("attribute", 0x0E, attrPath(0xC8, 1, 1), nil)
	add("set attribute", 0x10, attrPath(0xC8, 1, 1), []byte{plc.DINT, 0, 1, 0, 1, 2, 3, 4})
	add("open", 0x54, []byte{0x20, 6, 0x24, 1}, (&openReq{ot: 1, to: 2, serial: 3, vendor: 5, orig: 6, size: 500, trigger: 0xA3, otRPI: 500000, toRPI: 500000, path: append(append([]byte{}, w.route...), msgRouter...)}).bytes()[6:])
	add("large open", 0x5B, []byte{0x20, 6, 0x24, 1}, (&openReq{large: true, ot: 1, to: 2, serial: 4, vendor: 5, orig: 6, size: 500, trigger: 0xA3, otRPI: 500000, toRPI: 500000, path: append(append([]byte{}, w.route...), msgRouter...)}).bytes()[6:])
	add("close", 0x4E, []byte{0x20, 6, 0x24, 1}, closeReq(9, 5, 6, append(append([]byte{}, w.route...), msgRouter...))[6:])
	add("template", 0x4C, []byte{0x20, 0x6C, 0x25, 0, 1, 0}, []byte{0, 0, 0, 0, 100, 0})
	add("unconnected send", 0x52, []byte{0x20, 6, 0x24, 1}, wrap(write, w.route)[6:])
	for _, name := range badNames {
		path := symbolPath(name)
		for _, m := range [][]byte{
			cipRequest(0x4C, path, []byte{1, 0}),
			cipRequest(0x52, path, []byte{1, 0, 0, 0, 0, 0}),
			cipRequest(0x4D, path, []byte{plc.DINT, 0, 1, 0, 0, 0, 0, 0}),
			cipRequest(0x53, path, []byte{plc.DINT, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0}),
			cipRequest(0x4C, append(path, 0x28, 1), []byte{1, 0}),
			cipRequest(0x4C, append(symbolPath("b"), path...), []byte{1, 0}),
		} {
			reqs = append(reqs, req{fmt.Sprintf("service %02x of the tag %.40q (%d bytes)", m[0], name, len(name)), m})
		}
	}
	for _, code := range []byte{0xA0, plc.DINT, plc.BOOL, plc.LREAL, 0xD0, 0xD3, 0xDA, 0, 0xFF} {
		for info := 0; info < 6; info++ {
			for rest := 0; rest < 14; rest++ {
				for _, first := range []byte{0, 1, 0xCE} {
					data := append([]byte{code, byte(info)}, bytes.Repeat([]byte{0}, rest)...)
					if rest > 0 {
						data[2] = first
					}
					if rest > 3 {
						data[4] = byte(r.IntN(3))
					}
					reqs = append(reqs, req{fmt.Sprintf("write of type %02x %02x then %02x and %d more bytes", code, info, first, rest), cipRequest(0x4D, tagPath([]string{"a", "b", "c", "d", "e"}[r.IntN(5)]), data)})
				}
			}
		}
	}
	r.Shuffle(len(reqs), func(i, j int) { reqs[i], reqs[j] = reqs[j], reqs[i] })
	for i, q := range reqs {
		var f []byte
		c.ctx++
		switch way {
		case 0:
			conn.seq++
			item := append(plc.LE.AppendUint16(nil, conn.seq), q.msg...)
			f = plc.Frame(0x70, c.sess, 0, c.ctx, plc.CPF(plc.Item{ID: 0xA1, Data: plc.LE.AppendUint32(nil, conn.ot)}, plc.Item{ID: 0xB1, Data: item}))
		case 1:
			conn.seq++
			f = plc.Frame(0x70, c.sess, 0, c.ctx, connectedData(conn.ot, conn.seq, 0x0A, msgRouter, multiData(q.msg)))
		case 2:
			f = plc.Frame(0x6F, c.sess, 0, c.ctx, unconnectedData(wrap(q.msg, w.route)))
		case 3:
			f = plc.Frame(0x6F, c.sess, 0, c.ctx, unconnectedData(q.msg))
		}
		c.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
		rep, err := sframe{}, error(nil)
		if _, err = c.c.Write(f); err == nil {
			rep, err = c.recv(10 * time.Second)
		}
		t.Count("lengths", 1)
		t.Eval(q.what)
		if errors.Is(err, errSilent) {
			t.Fail("silent", "%s (way %d) is not answered, the connection stays", q.what, way)
			return
		}
		if err == nil && rep.ctx != c.ctx {
			t.Fail("reply", "%s (way %d) is answered with the context of another request", q.what, way)
			return
		}
		if err != nil {
			t.Count("lengths_refused_by_closing", 1)
			c.c.Close()
		}
		if err != nil || i%16 == 0 {
			if !w.alive(fmt.Sprintf("%s (way %d)", q.what, way)) {
				return
			}
		}
		if err != nil && !connect() {
			return
		}
	}
	w.idle("requests of every length")
}

// ioPacket is what an originator sends over a cyclic connection.
func ioPacket(id, seq uint32, payload []byte) []byte {
	b := plc.LE.AppendUint16(nil, 2)
	b = append(b, 0x02, 0x80, 8, 0)
	b = plc.LE.AppendUint32(b, id)
	b = plc.LE.AppendUint32(b, seq)
	b = append(b, 0xB1, 0)
	b = plc.LE.AppendUint16(b, uint16(6+len(payload)))
	b = plc.LE.AppendUint32(b, seq)
	b = plc.LE.AppendUint16(b, 1)
	return append(b, payload...)
}

func s04UDP(t *rt.T) {
	w := s04Make(t)
	if w == nil {
		return
	}
	r := t.R
	iop := &gologix.IOProvider[s04IO, s04IO]{In: &s04IO{}, Out: &s04IO{}}
	ioRoute := []byte{4, 5}
	w.srv.router.Handle(ioRoute, iop)
	c := w.canary.c
	id := r.Uint32() | 1
	conn, rep, err := c.open(openReq{ot: id, to: r.Uint32() | 1, serial: uint16(r.Uint32()), vendor: 3, orig: r.Uint32(), size: 20, trigger: 1, otRPI: 30000000, toRPI: 30000000, path: append(append([]byte{}, ioRoute...), 0x20, 4, 0x24, 1)}, ioRoute)
	if err != nil || !rep.ok() {
		t.Fail("open", "cyclic forward open: %v %v", rep, err)
		return
	}
	u, err := net.Dial("udp", "127.0.0.1:2222")
	if err != nil {
		t.Fail("udp", "%v", err)
		return
	}
	defer u.Close()
	current := s04IO{}
	seq := uint32(0)
	deliver := func(v s04IO) []byte {
		seq++
		var b bytes.Buffer
		gologix.Pack(&b, v)
		return ioPacket(conn.ot, seq, b.Bytes())
	}
	for round := 0; round < 25; round++ {
		what := ""
		before := allocated()
		n := 0
		for k := 1 + r.IntN(12); k > 0; k-- {
			f := deliver(s04IO{int32(r.Uint32()), int32(r.Uint32()), r.Float32()})
			switch kind := r.IntN(11); kind {
			case 9: // an address item of another length, the rest as it should be
				k := r.IntN(8)
				f = append(append(append([]byte{}, f[:6]...), randBytes(r, k)...), f[14:]...)
				plc.LE.PutUint16(f[4:], uint16(k))
				what = fmt.Sprintf("address of %d bytes", k)
			case 10:
				k := r.IntN(6)
				f = f[:18+k]
				plc.LE.PutUint16(f[16:], uint16(k))
				what = fmt.Sprintf("payload of %d bytes", k)
			case 0:
				f = f[:r.IntN(len(f))]
				what = fmt.Sprintf("cut to %d", len(f))
			case 1:
				cut := 1 + r.IntN(12)
				f = f[:len(f)-cut]
				plc.LE.PutUint16(f[16:], uint16(len(f)-18))
				what = fmt.Sprintf("payload without %d bytes", cut)
			case 2:
				plc.LE.PutUint16(f, []uint16{0, 1, 3, 4, 65535}[r.IntN(5)])
				what = "item count"
			case 3:
				plc.LE.PutUint16(f[2:], []uint16{0, 0xA1, 0x8000, 0xFFFF}[r.IntN(4)])
				what = "first item's type"
			case 4:
				plc.LE.PutUint16(f[14:], []uint16{0, 0xB2, 0xA1, 0xFFFF}[r.IntN(4)])
				what = "second item's type"
			case 5:
				plc.LE.PutUint32(f[6:], conn.ot+1+uint32(r.IntN(3)))
				what = "connection"
			case 6:
				f = randBytes(r, r.IntN(200))
				what = "noise"
			case 7:
				f = append(f, randBytes(r, 4096+r.IntN(30000))...)
				plc.LE.PutUint16(f, 3)
				what = "huge"
			case 8:
				at := []int{4, 16}[r.IntN(2)]
				plc.LE.PutUint16(f[at:], []uint16{0xFFFF, 0x8000, 1000, 60}[r.IntN(4)])
				what = "item length"
			}
			u.Write(f)
			n += len(f)
			t.Count("udp_attacks", 1)
			t.Count("attacks", 1)
			t.Eval("udp " + what)
		}
		time.Sleep(time.Duration(r.IntN(4)) * time.Millisecond)
		if got := iop.GetOutputData(); got != current {
			t.Fail("io-changed", "after packets that are no proper ones (the last: %s) the output data is %v instead of %v", what, got, current)
			return
		}
		if !w.alive("UDP " + what) {
			return
		}
		current = s04IO{int32(r.Uint32()), int32(round), 1}
		arrived := soon(8*time.Second, func() bool {
			u.Write(deliver(current))
			time.Sleep(time.Millisecond)
			return iop.GetOutputData() == current
		})
		if !arrived {
			t.Fail("io-dead", "after packets like %s proper ones are not delivered any more: %v instead of %v", what, iop.GetOutputData(), current)
			return
		}
		t.Count("io_delivered", 1)
		if grown := allocated() - before; grown > 64<<20+2000*uint64(n) {
			t.Fail("allocates", "%d bytes in UDP packets (%s) made the process allocate %d MiB", n, what, grown>>20)
			return
		}
	}
	w.idle("hostile UDP packets")
}
