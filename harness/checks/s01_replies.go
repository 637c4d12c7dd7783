package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/bits"
	"math/rand/v2"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "S01",
		Rule: "each evaluation is one request of a random stream sent to a real server over one of several TCP connections, pipelined and cut into random pieces; an online checker matches every frame the server sends with the oldest unanswered request of its connection; " +
			"non-trivial = distinct (kind of request, outcome class, kind of provider, position among pipelined requests)",
		Assumptions: []string{"each TCP connection registers one session, with the handle its requests carry", "tags' values are what this case wrote, so the outcome of each request is known when it is generated"},
		Cases:       s01Cases,
		MinEvents:   []string{"requests", "replies", "error_replies", "ok_replies", "streams", "forward_opens", "multi_services", "custom_values", "requests_on_gone_connections"},
		Exclusive:   true,
		Shards:      1,
	})
}

func s01Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 200, 4000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("streams-%d", i), Run: s01Streams})
	}
	for i := 0; i < tiered(tier, 100, 2000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("custom-%d", i), Run: s01Custom})
	}
	return cs
}

const (
	anyStatus = iota
	wantOK
	wantError
	wantPartial // OK, or status 6 if it doesn't fit
)

// expectation is what is known about the reply to a request.
type expectation struct {
	what     string
	cmd      uint16
	ctx      uint64
	frameErr bool   // the frame's status isn't 0 and it carries no reply
	any      bool   // a frame with or without an error
	to       uint32 // of connected replies
	seq      uint16
	svc      byte
	status   int
	size     int // most bytes of a connected reply's item
	check    func(rep sreply) error
	multi    func(rep sreply) error  // whatever the status
	raw      func(data []byte) error // of other commands
}

func (e *expectation) verify(t *rt.T, f sframe, sess uint32) string {
	if f.cmd != e.cmd {
		t.Fail("command", "%s: the next frame is for command %#x, not %#x", e.what, f.cmd, e.cmd)
		return "bad"
	}
	if f.ctx != e.ctx {
		t.Fail("context", "%s: the next reply has context %#x, not %#x", e.what, f.ctx, e.ctx)
		return "bad"
	}
	if f.sess != sess {
		t.Fail("session", "%s: the reply has session %#x, not %#x", e.what, f.sess, sess)
		return "bad"
	}
	if e.frameErr {
		if f.status == 0 {
			t.Fail("no-error", "%s: answered with status 0 and % X", e.what, f.data)
		}
		return "frame-error"
	}
	if e.any && f.status != 0 {
		return "frame-error"
	}
	if e.cmd != 0x6F && e.cmd != 0x70 {
		if f.status != 0 {
			t.Fail("error", "%s: answered with status %#x", e.what, f.status)
			return "bad"
		}
		if e.raw != nil {
			if err := e.raw(f.data); err != nil {
				t.Fail("reply", "%s: %v", e.what, err)
			}
		}
		return "ok"
	}
	rep, err := parseReply(f)
	if err != nil {
		t.Fail("malformed", "%s: %v", e.what, err)
		return "bad"
	}
	if e.cmd == 0x70 {
		if rep.to != e.to && e.to != anyTO {
			t.Fail("connection", "%s: the reply is for connection %#x, not %#x", e.what, rep.to, e.to)
		}
		if rep.seq != e.seq {
			t.Fail("sequence", "%s: the reply's sequence count is %d, not %d", e.what, rep.seq, e.seq)
		}
		if e.size > 0 && rep.size > e.size {
			t.Fail("too-big", "%s: the reply has %d bytes over a connection of %d", e.what, rep.size, e.size)
		}
	}
	if rep.svc != e.svc|0x80 {
		t.Fail("service", "%s: the reply names service %#x, not %#x", e.what, rep.svc, e.svc|0x80)
	}
	switch e.status {
	case wantOK:
		if rep.status != 0 {
			t.Fail("refused", "%s: answered with status %#x % X", e.what, rep.status, rep.ext)
			return "bad"
		}
	case wantError:
		if rep.status == 0 {
			t.Fail("no-error", "%s: answered with status 0 and %s", e.what, hexs(rep.data))
			return "bad"
		}
	case wantPartial:
		if rep.status != 0 && rep.status != 6 {
			t.Fail("refused", "%s: answered with status %#x % X", e.what, rep.status, rep.ext)
			return "bad"
		}
	}
	if e.multi != nil {
		if err := e.multi(rep); err != nil {
			t.Fail("multi", "%s: %v (status %#x)", e.what, err, rep.status)
			return "bad"
		}
	}
	if e.check != nil && (rep.status == 0 || rep.status == 6) {
		if err := e.check(rep); err != nil {
			t.Fail("reply", "%s: %v", e.what, err)
		}
	}
	if rep.status == 0 {
		return "ok"
	}
	return fmt.Sprintf("status-%d", rep.status)
}

// s01World is a provider and what is in it.
type s01World struct {
	route    []byte
	p        *gologix.MapTagProvider
	consts   map[string]constTag
	names    []string
	bad      gologix.CIPEndpoint // on badRoute
	badRoute []byte
}

type constTag struct {
	code byte
	data []byte
	n    int
}

func s01MakeWorld(r *rand.Rand, router *gologix.PathRouter, used map[string]bool) *s01World {
	w := &s01World{p: &gologix.MapTagProvider{Data: map[string]any{}}, consts: map[string]constTag{}}
	w.route = freeRoute(r, used)
	names := map[string]bool{}
	for i := 0; i < 6+r.IntN(8); i++ {
		name := uniqueName(r, names, 1, 20)
		code := s02Codes[r.IntN(len(s02Codes))]
		n := 1 + r.IntN(9)
		switch r.IntN(5) {
		case 0:
			n = 0 // scalar
		case 1:
			n = 100 + r.IntN(900)
		}
		data := randData(r, code, max(1, n))
		v := goSlice(code, data)
		if n == 0 {
			w.p.Data[lower(name)] = v.Index(0).Interface()
		} else {
			w.p.Data[lower(name)] = v.Interface()
		}
		w.consts[name] = constTag{code, data, n}
		w.names = append(w.names, name)
	}
	w.p.Data["scratch"] = int32(0)
	w.p.Data["text"] = "some text"
	router.Handle(w.route, w.p)
	w.badRoute = freeRoute(r, used)
	w.bad = failingEndpoint{}
	router.Handle(w.badRoute, w.bad)
	return w
}

// failingEndpoint refuses everything.
type failingEndpoint struct{}

func (failingEndpoint) TagRead(string, int16) (any, error)    { return nil, errors.New("no") }
func (failingEndpoint) TagWrite(string, any) error            { return errors.New("no") }
func (failingEndpoint) IORead() ([]byte, error)               { return nil, errors.New("no") }
func (failingEndpoint) IOWrite(items []gologix.CIPItem) error { return errors.New("no") }

// oneRequest makes a read, write or other service and says what its reply has to be. data is what may follow. The
// status is that of a reply with unlimited room.
func (w *s01World) oneRequest(r *rand.Rand, embedded bool) (what string, msg []byte, status int, check func(sreply) error) {
	name := w.names[r.IntN(len(w.names))]
	tag := w.consts[name]
	n := max(1, tag.n)
	spelled := recase(r, name)
	sz := plc.Size(tag.code)
	checkData := func(want []byte) func(sreply) error {
		return func(rep sreply) error {
			if len(rep.data) < 2 || rep.data[1] != 0 || atomGo(rep.data[0]) != atomOf(tag.code).Go {
				return fmt.Errorf("read of %s says its type is % X", name, rep.data[:min(2, len(rep.data))])
			}
			got := rep.data[2:]
			if rep.status == 0 && !bytes.Equal(got, want) {
				return fmt.Errorf("read of %s returns %s, it is %s", name, hexs(got), hexs(want))
			}
			if rep.status == 6 && (len(got) == 0 || !bytes.HasPrefix(want, got) || len(got) == len(want)) {
				return fmt.Errorf("partial read of %s returns %s, it is %s", name, hexs(got), hexs(want))
			}
			return nil
		}
	}
	u16 := func(n int) []byte { return plc.LE.AppendUint16(nil, uint16(n)) }
	switch r.IntN(14) {
	case 0, 1, 2: // read some
		q := 1 + r.IntN(n)
		return "read", cipRequest(0x4C, tagPath(spelled), u16(q)), wantPartial, checkData(tag.data[:q*sz])
	case 3: // from an element on
		if tag.n == 0 {
			return "read scalar element", cipRequest(0x4C, tagPath(spelled, r.IntN(3)), u16(1)), wantError, nil
		}
		i := r.IntN(n)
		q := 1 + r.IntN(n-i)
		return "read elements", cipRequest(0x4C, tagPath(spelled, i), u16(q)), wantPartial, checkData(tag.data[i*sz : (i+q)*sz])
	case 4: // fragmented
		off := r.IntN(n) * sz
		d := plc.LE.AppendUint32(u16(n), uint32(off))
		return "fragmented read", cipRequest(0x52, tagPath(spelled), d), wantPartial, checkData(tag.data[off:])
	case 5: // too many
		return "read too many", cipRequest(0x4C, tagPath(spelled), u16(n+1+r.IntN(65000-n))), wantError, nil
	case 6:
		return "read unknown tag", cipRequest(0x4C, tagPath("nosuch"+name), u16(1)), wantError, nil
	case 7:
		v := r.Uint32()
		d := append([]byte{plc.DINT, 0, 1, 0}, plc.LE.AppendUint32(nil, v)...)
		return "write", cipRequest(0x4D, tagPath("scratch"), d), wantOK, wantNothing
	case 8:
		return "write wrong type", cipRequest(0x4D, tagPath("text"), []byte{plc.DINT, 0, 1, 0, 1, 2, 3, 4}), wantError, nil
	case 9:
		d := append([]byte{plc.DINT, 0, 2, 0}, plc.LE.AppendUint32(nil, 5)...) // one of two elements
		return "write cut short", cipRequest(0x4D, tagPath("scratch"), d), wantError, nil
	case 10:
		return "write beyond the end", cipRequest(0x4D, tagPath(spelled, n+r.IntN(100000)), append([]byte{tag.code, 0, 1, 0}, tag.data[:sz]...)), wantError, nil
	case 11: // an unsupported service
		svc := []byte{0x02, 0x05, 0x07, 0x4B, 0x4E, 0x4F, 0x53, 0x50, 0x10, 0x0E + 1, 0x63, 0x7F, 0x18}[r.IntN(13)]
		if embedded && r.IntN(3) == 0 {
			svc = 0x0A
		}
		if svc == 0x4E {
			svc = 0x4F
		}
		if svc == 0x10 && !embedded {
			svc = 0x03
		}
		return fmt.Sprintf("unsupported service %#x", svc), cipRequest(svc, tagPath(spelled), randBytes(r, r.IntN(12))), wantError, nil
	case 12:
		return "read zero elements", cipRequest(0x4C, tagPath(spelled), u16(0)), wantError, nil
	}
	return "read of a path that is no tag", cipRequest(0x4C, attrPath(0x6B, 1, 1), u16(1)), wantError, nil
}

func wantNothing(rep sreply) error {
	if len(rep.data) != 0 {
		return fmt.Errorf("reply has data % X", rep.data)
	}
	return nil
}

// s01Stream generates one TCP connection's requests.
type s01Stream struct {
	c     *sconn
	conns []*sopen
	gone  []*sopen
	w     *s01World
	reqs  [][]byte
	exps  []*expectation
	ctx   uint64
}

func (s *s01Stream) add(cmd uint16, data []byte, e *expectation) {
	s.ctx++
	ctx := s.ctx * 0x9E3779B97F4A7C15
	s.reqs = append(s.reqs, plc.Frame(cmd, s.c.sess, 0, ctx, data))
	if e != nil {
		e.cmd, e.ctx = cmd, ctx
		s.exps = append(s.exps, e)
	}
}

func (s *s01Stream) generate(t *rt.T, r *rand.Rand) {
	w := s.w
	k := r.IntN(20)
	if len(s.conns) == 0 && k < 11 {
		k = 11 + r.IntN(9)
	}
	switch {
	case k < 9 && len(s.conns) > 0: // connected
		conn := s.conns[r.IntN(len(s.conns))]
		conn.seq++
		what, msg, status, check := w.oneRequest(r, false)
		if bytes.Equal(conn.route, w.badRoute) {
			status, check = wantError, nil
		}
		data := plc.CPF(plc.Item{ID: 0xA1, Data: plc.LE.AppendUint32(nil, conn.ot)}, plc.Item{ID: 0xB1, Data: append(plc.LE.AppendUint16(nil, conn.seq), msg...)})
		s.add(0x70, data, &expectation{what: "connected " + what, to: conn.to, seq: conn.seq, svc: msg[0], status: status, check: check, size: conn.size})
	case k < 11 && len(s.conns) > 0: // multiple services
		conn := s.conns[r.IntN(len(s.conns))]
		conn.seq++
		if r.IntN(12) == 0 { // more than the connection has room for replies to
			msgs := make([][]byte, conn.size/5)
			for i := range msgs {
				msgs[i] = []byte{0x4F, 0}
			}
			t.Count("too_many_services", 1)
			s.add(0x70, connectedData(conn.ot, conn.seq, 0x0A, msgRouter, multiData(msgs...)), &expectation{what: fmt.Sprintf("%d tiny services", len(msgs)), to: conn.to, seq: conn.seq, svc: 0x0A, status: wantError, size: conn.size})
			return
		}
		n := 1 + r.IntN(6)
		if conn.size >= 1500 && r.IntN(3) == 0 { // as many as there's room for
			n = 7 + r.IntN(min(800, conn.size/12))
			t.Count("long_multi_services", 1)
		}
		var msgs [][]byte
		var statuses []int
		var checks []func(sreply) error
		var names []string
		allOK := true
		room := min(conn.size, 65000) - 100
		for i := 0; i < n; i++ {
			name, msg, st, check := w.oneRequest(r, true)
			if room -= len(msg) + 2; room < 0 && i > 0 {
				break
			}
			if bytes.Equal(conn.route, w.badRoute) {
				st = wantError
			}
			names, msgs, statuses, checks = append(names, name), append(msgs, msg), append(statuses, st), append(checks, check)
			allOK = allOK && st == wantOK
		}
		n = len(msgs)
		if n > 12 {
			names = append(names[:12:12], fmt.Sprintf("… %d", n))
			t.Count(fmt.Sprintf("multi_services_2^%d", bits.Len(uint(n))), 1)
		}
		e := &expectation{what: fmt.Sprintf("multi%v", names), to: conn.to, seq: conn.seq, svc: 0x0A, status: anyStatus, size: conn.size}
		if allOK {
			e.status = wantOK
		}
		full := func(rep sreply) error {
			reps, err := multiReplies(rep.data, n)
			if err != nil {
				return err
			}
			bad := false
			for i, x := range reps {
				if x.status != 0 {
					bad = true
				}
				if x.svc != msgs[i][0]|0x80 {
					return fmt.Errorf("reply %d names service %#x, the request's is %#x", i, x.svc, msgs[i][0])
				}
				switch statuses[i] {
				case wantOK:
					if x.status != 0 {
						return fmt.Errorf("embedded %s is answered with status %#x", names[min(i, len(names)-1)], x.status)
					}
				case wantError:
					if x.status == 0 {
						return fmt.Errorf("embedded %s is answered with status 0", names[min(i, len(names)-1)])
					}
				case wantPartial:
					// 0x11: there was no room left.
					if x.status != 0 && x.status != 6 && x.status != 0x11 {
						return fmt.Errorf("embedded %s is answered with status %#x", names[min(i, len(names)-1)], x.status)
					}
				}
				if checks[i] != nil && (x.status == 0 || x.status == 6) {
					if err := checks[i](x); err != nil {
						return err
					}
				}
			}
			if bad != (rep.status == 0x1E) {
				return fmt.Errorf("overall status is %#x, some failing is %v", rep.status, bad)
			}
			return nil
		}
		e.multi = full
		t.Count("multi_services", 1)
		data := connectedData(conn.ot, conn.seq, 0x0A, msgRouter, multiData(msgs...))
		s.add(0x70, data, e)
	case k < 12: // on a connection there isn't
		ot, seq := r.Uint32(), uint16(r.Uint32())
		for _, c := range s.conns {
			if c.ot == ot {
				return
			}
		}
		if len(s.gone) > 0 && r.IntN(3) > 0 {
			ot = s.gone[r.IntN(len(s.gone))].ot
		}
		_, msg, _, _ := w.oneRequest(r, false)
		if r.IntN(2) == 0 {
			msg = cipRequest(0x0A, msgRouter, multiData(msg))
		}
		data := plc.CPF(plc.Item{ID: 0xA1, Data: plc.LE.AppendUint32(nil, ot)}, plc.Item{ID: 0xB1, Data: append(plc.LE.AppendUint16(nil, seq), msg...)})
		s.add(0x70, data, &expectation{what: "request on a connection that isn't open", any: true, to: anyTO, seq: seq, svc: msg[0], status: wantError})
		t.Count("requests_on_gone_connections", 1)
	case k < 14: // unconnected
		what, msg, status, check := w.oneRequest(r, true)
		route := w.route
		if r.IntN(6) == 0 {
			route, status, check = w.badRoute, wantError, nil
		} else if r.IntN(6) == 0 {
			route, status, check = []byte{17, 1}, wantError, nil
		}
		if status == wantPartial && len(msg) > 0 {
			// there is room for any of these tags
			status = wantOK
		}
		s.add(0x6F, unconnectedData(wrap(msg, route)), &expectation{what: "unconnected " + what, svc: msg[0], status: status, check: check})
	case k < 15: // identity
		switch r.IntN(4) {
		case 0:
			s.add(0x6F, unconnectedData(cipRequest(0x01, attrPath(1, 1, 0), nil)), &expectation{what: "identity attributes", svc: 1, status: wantOK})
		case 1:
			s.add(0x6F, unconnectedData(cipRequest(0x0E, attrPath(1, 1, 1+r.IntN(7)), nil)), &expectation{what: "identity attribute", svc: 0x0E, status: wantOK})
		case 2:
			s.add(0x6F, unconnectedData(cipRequest(0x0E, attrPath(1, 1, 9+r.IntN(200)), nil)), &expectation{what: "unknown identity attribute", svc: 0x0E, status: wantError})
		default:
			s.add(0x6F, unconnectedData(wrap(cipRequest(0x01, attrPath(2+r.IntN(90), 1, 0), nil), w.route)), &expectation{what: "attributes of no object", svc: 1, status: wantError})
		}
	case k < 16:
		switch r.IntN(5) {
		case 0:
			s.add(0x63, nil, &expectation{what: "ListIdentity", raw: func(d []byte) error {
				if len(d) < 6 || plc.LE.Uint16(d) != 1 || plc.LE.Uint16(d[2:]) != 0x0C || int(plc.LE.Uint16(d[4:])) != len(d)-6 {
					return fmt.Errorf("ListIdentity reply is % X", d)
				}
				return nil
			}})
		case 1:
			s.add(0x04, nil, &expectation{what: "ListServices", raw: func(d []byte) error {
				if len(d) < 6 || plc.LE.Uint16(d) < 1 || plc.LE.Uint16(d[2:]) != 0x100 {
					return fmt.Errorf("ListServices reply is % X", d)
				}
				return nil
			}})
		case 2:
			s.add(0x00, randBytes(r, r.IntN(20)), nil) // no operation
		default:
			cmd := []uint16{0x64, 0x72, 0x73, 0x01, 0x1234, 0xFFFF}[r.IntN(6)]
			s.add(cmd, randBytes(r, r.IntN(30)), &expectation{what: fmt.Sprintf("unknown command %#x", cmd), frameErr: true})
		}
	case k < 17: // another connection is opened
		o := openReq{large: r.IntN(2) == 0, to: r.Uint32()%0xFFFFFFF + 1, serial: uint16(r.Uint32()), vendor: uint16(r.Uint32()), orig: r.Uint32(), size: 500, trigger: 0xA3, otRPI: 1 + r.Uint32()%1000000, toRPI: 1 + r.Uint32()%1000000,
			path: append(append([]byte{}, w.route...), msgRouter...)}
		svc := o.bytes()[0]
		s.add(0x6F, unconnectedData(o.bytes()), &expectation{what: "forward open", svc: svc, status: wantOK, check: func(rep sreply) error {
			_, err := opened(s.c, o, w.route, rep)
			return err
		}})
		t.Count("forward_opens", 1)
	case k < 18 && len(s.conns) > 0: // one is closed
		i := r.IntN(len(s.conns))
		conn := s.conns[i]
		s.conns = append(s.conns[:i:i], s.conns[i+1:]...)
		s.gone = append(s.gone, conn)
		s.add(0x6F, unconnectedData(closeReq(conn.serial, conn.vendor, conn.orig, append(append([]byte{}, conn.route...), msgRouter...))), &expectation{what: "forward close", svc: 0x4E, status: wantOK,
			check: func(rep sreply) error {
				if len(rep.data) < 10 || plc.LE.Uint16(rep.data) != conn.serial || plc.LE.Uint16(rep.data[2:]) != conn.vendor || plc.LE.Uint32(rep.data[4:]) != conn.orig {
					return fmt.Errorf("reply to the close of serial %#x vendor %#x originator %#x is % X", conn.serial, conn.vendor, conn.orig, rep.data)
				}
				return nil
			}})
	default: // an unsupported service without a connection
		svc := []byte{0x02, 0x05, 0x4B, 0x55, 0x4C, 0x4D, 0x7F}[r.IntN(7)]
		s.add(0x6F, unconnectedData(cipRequest(svc, attrPath(2+r.IntN(80), 1, 0), randBytes(r, r.IntN(10)))), &expectation{what: fmt.Sprintf("direct service %#x", svc), svc: svc, status: wantError})
	}
}

// anyTO: there is no connection whose identifier the reply could have.
const anyTO = 0xFFFFFFFF

// play sends everything in random pieces while replies are checked.
func (s *s01Stream) play(t *rt.T, r *rand.Rand) {
	var all []byte
	for _, q := range s.reqs {
		all = append(all, q...)
	}
	pr := rt.NewRand(r.Uint64(), "pieces")
	style := r.IntN(4)
	failed := make(chan error, 1)
	go func() {
		b := all
		for len(b) > 0 {
			n := len(b)
			switch style {
			case 0:
				n = 1 + pr.IntN(40)
			case 1:
				n = 1 + pr.IntN(700)
			case 2:
				n = 1 + pr.IntN(20000)
			}
			n = min(n, len(b))
			s.c.c.SetWriteDeadline(time.Now().Add(60 * time.Second))
			if _, err := s.c.c.Write(b[:n]); err != nil {
				failed <- err
				return
			}
			b = b[n:]
			if pr.IntN(30) == 0 {
				time.Sleep(time.Duration(pr.IntN(2000)) * time.Microsecond)
			}
		}
		failed <- nil
	}()
	for i, e := range s.exps {
		f, err := s.c.recv(20 * time.Second)
		if err != nil {
			sig := "closed"
			if errors.Is(err, errSilent) {
				sig = "silent"
			}
			t.Fail(sig, "%s (request %d of %d): instead of a reply: %v", e.what, i, len(s.exps), err)
			return
		}
		out := e.verify(t, f, s.c.sess)
		t.Count("replies", 1)
		if out == "ok" {
			t.Count("ok_replies", 1)
		} else {
			t.Count("error_replies", 1)
		}
		t.Eval(fmt.Sprintf("%s %s %d", e.what, out, min(i, 3)))
		if out == "bad" {
			return
		}
	}
	if err := <-failed; err != nil {
		t.Fail("closed", "the server stopped taking requests: %v", err)
		return
	}
	if f, err := s.c.recv(60 * time.Millisecond); err == nil {
		t.Fail("extra", "after every request was answered there is one more frame: %v", f)
	} else if !errors.Is(err, errSilent) {
		t.Fail("closed", "after every request was answered: %v", err)
	}
	// it still is of use.
	if _, err := s.c.roundtrip(0x04, nil); err != nil {
		t.Fail("closed", "afterwards the connection doesn't answer: %v", err)
	}
}

func s01Streams(t *rt.T) {
	r := t.R
	router := gologix.NewRouter()
	used := map[string]bool{}
	worlds := []*s01World{}
	for i := 0; i < 1+r.IntN(3); i++ {
		worlds = append(worlds, s01MakeWorld(r, router, used))
	}
	srv := startServer(t, router, false, nil)
	if srv == nil {
		return
	}
	streams := []*s01Stream{}
	for i := 0; i < 1+r.IntN(4); i++ {
		sess := uint32(0)
		if r.IntN(2) == 0 {
			sess = r.Uint32() | 1
		}
		c := srv.session(t, sess)
		if c == nil {
			return
		}
		w := worlds[r.IntN(len(worlds))]
		s := &s01Stream{c: c, w: w, ctx: r.Uint64() >> 20}
		for k := r.IntN(5); k > 0; k-- {
			route := w.route
			if r.IntN(6) == 0 {
				route = w.badRoute
			}
			conn := c.class3(t, r, route, []int{100, 250, 500, 511, 1500, 4000, 20000, 40000, 65000}[r.IntN(9)])
			if conn == nil {
				return
			}
			s.conns = append(s.conns, conn)
		}
		streams = append(streams, s)
	}
	for _, s := range streams {
		for k := 20 + r.IntN(150); k > 0; k-- {
			s.generate(t, r)
		}
		t.Count("requests", len(s.reqs))
		t.Count("streams", 1)
	}
	rands := make([]*rand.Rand, len(streams))
	for i := range rands {
		rands[i] = rt.NewRand(r.Uint64(), "play")
	}
	t.Within(150*time.Second, "streams", func() {
		var wg sync.WaitGroup
		for i, s := range streams {
			wg.Add(1)
			go func() { defer wg.Done(); s.play(t, rands[i]) }()
		}
		wg.Wait()
	})
	if len(streams) > 1 {
		t.Count("parallel_streams", len(streams))
	}
}

// weird is an endpoint that returns whatever it is told to.
type weird struct {
	mu  sync.Mutex
	val any
	err error
}

func (w *weird) TagRead(tag string, qty int16) (any, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.val, w.err
}
func (w *weird) TagWrite(tag string, value any) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.err
}
func (w *weird) IORead() ([]byte, error)               { return nil, errors.New("no") }
func (w *weird) IOWrite(items []gologix.CIPItem) error { return errors.New("no") }

// s01Custom: whatever a provider returns, there is one reply.
func s01Custom(t *rt.T) {
	r := t.R
	router := gologix.NewRouter()
	used := map[string]bool{}
	w := &weird{}
	route := freeRoute(r, used)
	router.Handle(route, w)
	router.Handle([]byte{1, 0}, w)
	srv := startServer(t, router, false, nil)
	if srv == nil {
		return
	}
	c := srv.session(t, 0)
	if c == nil {
		return
	}
	conn := c.class3(t, r, route, []int{100, 500, 4000}[r.IntN(3)])
	if conn == nil {
		return
	}
	type st struct{ A, B int32 }
	i := 7
	values := []any{nil, st{1, 2}, []st{{1, 2}}, map[string]int{"a": 1}, i, &i, uint(5), []int{1, 2}, "x", string(make([]byte, 500)), []string{}, []string{"a", "b"},
		make([]string, 300), make([]byte, 70000), make([]int64, 9000), []bool{true, false}, []bool{}, []int16{}, []any{int16(1), int16(2)}, []any{}, []any{nil}, []any{"a", 1}, make(chan int), func() {}, complex(1, 2), [3]int32{1, 2, 3},
		struct{}{}, errors.New("a value"), time.Now(), gologix.CIPTypeDINT, [][]int32{{1}, {2}}, (*st)(nil), []byte(nil), int8(-3), uint64(1) << 63, float32(1.5)}
	errs := []error{nil, nil, nil, errors.New("no"), &gologix.CIPError{Code: 5}, &gologix.CIPError{}, fmt.Errorf("wrapped: %w", &gologix.CIPError{Code: 8})}
	for k := 0; k < 40; k++ {
		v, e := values[r.IntN(len(values))], errs[r.IntN(len(errs))]
		w.mu.Lock()
		w.val, w.err = v, e
		w.mu.Unlock()
		kind := fmt.Sprintf("%T", v)
		if e != nil {
			kind = "error"
		}
		var rep sreply
		var err error
		how := r.IntN(5)
		svc := byte(0x4C)
		data := plc.LE.AppendUint16(nil, uint16(1+r.IntN(3)))
		if r.IntN(3) == 0 {
			svc = 0x52
			data = plc.LE.AppendUint32(data, uint32(r.IntN(3)*4))
		}
		switch r.IntN(6) {
		case 0:
			svc, data = 0x4D, append([]byte{plc.INT, 0, 1, 0}, 1, 2)
		case 1:
			svc, data = 0x4D, append([]byte{plc.INT, 0, 2, 0}, 1, 2, 3, 4)
		}
		multi := false
		switch how {
		case 0, 1:
			rep, err = conn.request(svc, tagPath("anything"), data)
			if err == nil && rep.size > conn.size {
				err = fmt.Errorf("the reply has %d bytes over a connection of %d", rep.size, conn.size)
			}
		case 2:
			q := cipRequest(svc, tagPath("anything"), data)
			multi = true
			rep, err = conn.request(0x0A, msgRouter, multiData(q, q, q))
			if err == nil && rep.size > conn.size {
				err = fmt.Errorf("the reply has %d bytes over a connection of %d", rep.size, conn.size)
			}
			if err == nil {
				_, err = multiReplies(rep.data, 3)
			}
		case 3:
			rep, err = c.direct(wrap(cipRequest(svc, tagPath("anything"), data), route))
		case 4:
			msg := cipRequest(0x0E, attrPath(0xC8, 1, 1), nil)
			rep, err = c.direct(msg)
			svc = 0x0E
		}
		t.Count("custom_values", 1)
		t.Count("requests", 1)
		if err != nil {
			sig := "reply"
			if errors.Is(err, errSilent) {
				sig = "silent"
			}
			t.Fail("custom-"+sig, "service %#x (way %d) of a provider that returns %T, %v: %v", svc, how, v, e, err)
			return
		}
		if e != nil && !multi && rep.ok() {
			t.Fail("no-error", "service %#x (way %d) of a provider that returns the error %q is answered with status 0 and %s", svc, how, e, hexs(rep.data))
			return
		}
		t.Count("replies", 1)
		t.Eval(fmt.Sprintf("custom %s %#x %d %d", kind, svc, how, rep.status))
	}
}
