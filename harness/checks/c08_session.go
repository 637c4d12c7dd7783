package checks

import (
	"fmt"
	"math/rand/v2"
	"net"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C08",
		Rule: "each evaluation is one step in the life of a client (Connect, Disconnect, an operation, a transport fault) after which the client's claim to be connected is compared with the TCP connections, sessions and connections the controller model has open and with what it received; " +
			"non-trivial = distinct (previous step, step, fault, state before, state after)",
		Assumptions: []string{"a transport fault while connecting may be answered with a retry at the standard size or with an error", "sockets may take up to 10 s to be seen closed by the controller"},
		Cases:       c08Cases,
		MinEvents:   []string{"connects", "connects_failed", "disconnects", "fallbacks", "drops", "timeouts", "autoconnects", "while_disconnected", "second_connects", "chaos_calls", "chaos_reconnects", "never_connected_calls", "refused_dials", "absent_connects"},
		Races:       true,
	})
}

func c08Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 60, 3000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("life-%d", i), Run: c08Life})
	}
	for i := 0; i < tiered(tier, 28, 1000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("chaos-%d", i), Run: c08Chaos})
	}
	for i := 0; i < tiered(tier, 24, 400); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("absent-%d", i), Run: c08Absent})
	}
	for _, o := range ops() {
		cs = append(cs, rt.Case{Name: "idle-" + o.Name, Run: func(t *rt.T) { c08Idle(t, o) }})
	}
	return cs
}

// absentPath is the default path: slot 0 of the backplane, and its message
// router.
const absentPath = "/port1:00/C2/I1"

// c08Absent is a controller that isn't there at first, and a client with
// settings that are left to the library.
func c08Absent(t *rt.T) {
	r := t.R
	ip := fmt.Sprintf("127.%d.%d.%d", 20+r.IntN(200), r.IntN(256), 1+r.IntN(254))
	port := uint(44818)
	if r.IntN(2) == 0 {
		port = uint(20000 + r.IntN(10000))
	}
	addr := fmt.Sprintf("%s:%d", ip, port)
	c := gologix.NewClient(ip)
	c.AutoConnect = r.IntN(2) == 0
	c.Controller.Port = port
	if port == 44818 && r.IntN(2) == 0 {
		c.Controller.Port = 0
	}
	given := c.ConnectionSize
	if r.IntN(2) == 0 {
		c.ConnectionSize = 0
		given = 0
	} else if r.IntN(2) == 0 {
		c.ConnectionSize = 500
		given = 500
	}
	if r.IntN(2) == 0 {
		c.RPI = 0
	}
	if r.IntN(2) == 0 {
		c.SocketTimeout = 0
	}
	if r.IntN(2) == 0 {
		c.Controller.Path = nil
	}
	defer func() { c.Disconnect() }()
	for round := 0; round < 2 && !t.Failed(); round++ {
		// nobody is there. If somebody is after all, it is another check.
		l, err := net.Listen("tcp", addr)
		if err != nil {
			return
		}
		l.Close()
		for i := 0; i < 1+r.IntN(3); i++ {
			var v int32 = 5
			if !t.Within(60*time.Second, "absent", func() {
				if r.IntN(2) == 0 {
					err = c.Connect()
				} else {
					err = c.Read("D", &v)
				}
			}) {
				return
			}
			if err == nil || v != 5 {
				t.Fail("absent", "round %d: a call without a controller gave %d, %v", round, v, err)
				return
			}
			if c.Connected() {
				t.Fail("absent", "round %d: the client says it is connected to a controller that isn't there", round)
				return
			}
			t.Count("refused_dials", 1)
			t.Eval(fmt.Sprintf("absent/%d/%v", round, c.AutoConnect))
		}
		p, err := plc.NewAt(addr)
		if err != nil {
			return
		}
		defer p.Close()
		p.Add(&plc.Tag{Name: "D", Type: plc.DINT, Data: []byte{7, 0, 0, byte(round)}})
		if !c.AutoConnect || r.IntN(2) == 0 {
			if !t.Within(60*time.Second, "absent", func() { err = c.Connect() }) {
				return
			}
			if err != nil {
				t.Fail("absent", "round %d: connecting to a controller that is there now: %v", round, err)
				return
			}
		}
		var v int32
		if !t.Within(60*time.Second, "absent", func() { err = c.Read("D", &v) }) {
			return
		}
		if err != nil || v != 7+int32(round)<<24 {
			t.Fail("absent", "round %d: reading from a controller that is there now gave %#x, %v", round, v, err)
			return
		}
		clientState(t, p, c, 0, "the controller has come")
		cs := p.OpenConns()
		if t.Failed() || len(cs) != 1 {
			return
		}
		if given != 0 && cs[0].Size != int(given) || cs[0].Size < 500 {
			t.Fail("absent", "round %d: a client with a connection size of %d opened a connection of %d", round, given, cs[0].Size)
		}
		if cs[0].OTRPI == 0 {
			t.Fail("absent", "round %d: the connection has no packet interval", round)
		}
		if got := plc.PathString(cs[0].Path); got != absentPath {
			t.Fail("absent", "round %d: the connection leads to %s, the default path is %s", round, got, absentPath)
		}
		t.Count("absent_connects", 1)
		t.Eval(fmt.Sprintf("present/%d/%v/%d/%d", round, c.AutoConnect, given, port))
		if r.IntN(2) == 0 {
			if !t.Within(60*time.Second, "absent", func() { err = c.Disconnect() }) {
				return
			}
			if err != nil {
				t.Fail("absent", "round %d: %v", round, err)
			}
		}
		p.Close()
		if c.Connected() { // the next call finds out
			if !t.Within(60*time.Second, "absent", func() { err = c.Read("D", &v) }) {
				return
			}
			if err == nil {
				t.Fail("absent", "round %d: reading from a controller that went away works", round)
			}
		}
		clientState(t, p, c, 0, "the controller has gone")
	}
}

// soon waits for a condition that must come true without help.
func soon(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// goroutinesIn counts the goroutines with a function of that name on their stack.
func goroutinesIn(fn string) (int, string) {
	buf := make([]byte, 4<<20)
	n := runtime.Stack(buf, true)
	k := 0
	text := ""
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		if strings.Contains(g, fn) && !strings.Contains(g, "checks.goroutinesIn") {
			k++
			if len(text) < 1500 {
				text += g + "\n\n"
			}
		}
	}
	return k, text
}

// clientState compares what the client says with what the controller has.
func clientState(t *rt.T, p *plc.PLC, c *gologix.Client, size int, after string) {
	if c.Connected() {
		cs := p.OpenConns()
		if len(cs) != 1 {
			t.Fail("connections", "after %s the client is connected and the controller has %d connections open", after, len(cs))
			return
		}
		if n := p.TCPOpen.Load(); n != 1 {
			if !soon(10*time.Second, func() bool { return p.TCPOpen.Load() == 1 }) {
				t.Fail("sockets", "after %s the client is connected and the controller sees %d sockets", after, p.TCPOpen.Load())
			}
		}
		if cs[0].Size != int(c.ConnectionSize) || cs[0].TOSize != cs[0].Size {
			t.Fail("size", "after %s the open connection has sizes %d and %d, the client believes %d", after, cs[0].Size, cs[0].TOSize, c.ConnectionSize)
		}
		if cs[0].Vendor != c.VendorId || cs[0].Orig != c.SerialNumber || cs[0].Serial != c.ConnectionSerialNumber {
			t.Fail("originator", "after %s the open connection belongs to vendor %#x, serial %#x, connection %#x; the client is vendor %#x, serial %#x, connection %#x", after, cs[0].Vendor, cs[0].Orig, cs[0].Serial, c.VendorId, c.SerialNumber, c.ConnectionSerialNumber)
		}
		if us := uint32(c.RPI / time.Microsecond); cs[0].OTRPI != us || cs[0].TORPI != us {
			t.Fail("rpi", "after %s the open connection has packet intervals of %d and %d us, the client is set to %v", after, cs[0].OTRPI, cs[0].TORPI, c.RPI)
		}
		if cs[0].Large != (cs[0].Size > 511) {
			t.Fail("opensize", "after %s a connection of %d bytes was opened with large=%v", after, cs[0].Size, cs[0].Large)
		}
		_ = size
		return
	}
	if !soon(10*time.Second, func() bool { return p.TCPOpen.Load() == 0 }) {
		t.Fail("socket-left", "after %s the client is disconnected but %d of its sockets are still open", after, p.TCPOpen.Load())
	}
}

func c08Life(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	c := newClient(p)
	size := []int{4000, 4000, 500, 511, 512, 1000, 65535}[r.IntN(7)]
	c.ConnectionSize = uint16(size)
	if r.IntN(2) == 0 {
		c.VendorId = uint16(r.Uint32())
		c.SerialNumber = r.Uint32()
		c.RPI = time.Duration(1+r.IntN(9_999_999)) * time.Microsecond
		if c.VendorId == 0 {
			c.VendorId = 1
		}
	}
	defer func() { c.Disconnect() }()
	prev := "new"
	steps := 25
	everything := ops()
	for i := 0; i < steps && !t.Failed(); i++ {
		was := c.Connected()
		desc, fault := "", ""
		step := r.IntN(14)
		if !was && r.IntN(2) == 0 {
			step = r.IntN(4)
		}
		ok := t.Within(100*time.Second, "life", func() {
			switch {
			case step < 4: // connect, undisturbed or not
				desc = "Connect"
				var hits atomic.Int64
				expect := "" // "": either; "ok"; "fail"
				p.Lock()
				p.RefuseLarge = false
				p.MaxConnSize = 0
				p.Unlock()
				at := r.IntN(3)
				var act *plc.Action
				short := false
				switch f := r.IntN(10); {
				case was:
					fault = "already"
				case f < 3:
					expect = "ok"
				case f == 3 || f == 4:
					fault = "large refused"
					p.Lock()
					p.RefuseLarge = true
					p.Unlock()
					expect = "ok"
				case f == 5:
					fault = "too large"
					p.Lock()
					p.MaxConnSize = 300
					p.Unlock()
					c.ConnectionSize = uint16(size)
					expect = "fail"
					if size <= 300 {
						expect = "ok"
					}
				case f == 6:
					fault = "denied"
					p.Deny.Store(true)
					expect = "fail"
				case f == 7:
					fault = fmt.Sprintf("close@%d", at)
					act = &plc.Action{Close: true, CloseN: r.IntN(60)}
				case f == 8:
					fault = fmt.Sprintf("eip@%d", at)
					act = &plc.Action{Reply: &plc.Reply{Status: 0x01}, EIPStatus: uint32(1 + r.IntN(0x70))}
				default:
					fault = fmt.Sprintf("silent@%d", at)
					act = &plc.Action{Transform: func([]byte) []byte { return nil }}
					short = true
				}
				if act != nil {
					n := 0
					h := func(q *plc.Req) *plc.Action {
						n++
						if n-1 == at {
							hits.Add(1)
							return act
						}
						return nil
					}
					p.Lock()
					p.OnReq, p.OnCmd = h, h
					p.Unlock()
				}
				if short {
					c.SocketTimeout = 200 * time.Millisecond
				}
				wanted := int(c.ConnectionSize)
				before := p.OpenConns()
				err := c.Connect()
				c.SocketTimeout = 30 * time.Second
				p.Lock()
				p.OnReq, p.OnCmd = nil, nil
				p.Unlock()
				p.Deny.Store(false)
				if was {
					t.Count("second_connects", 1)
					if err == nil {
						t.Fail("connected-twice", "Connect on a connected client returned nil")
					}
					after := p.OpenConns()
					if !c.Connected() || len(before) != 1 || len(after) != 1 || before[0].OT != after[0].OT {
						t.Fail("second-connect", "a second Connect disturbed the connection: %d connections before, %d after, connected %v", len(before), len(after), c.Connected())
					}
					return
				}
				if err == nil {
					t.Count("connects", 1)
				} else {
					t.Count("connects_failed", 1)
				}
				switch {
				case expect == "ok" && err != nil:
					t.Fail("connect", "Connect (%s) failed on a controller that would have accepted it: %v", fault, err)
				case expect == "fail" && err == nil:
					t.Fail("connect-nil", "Connect (%s) returned nil", fault)
				case (err == nil) != c.Connected():
					t.Fail("connected", "Connect (%s) returned %v but Connected() is %v", fault, err, c.Connected())
				case err != nil && hits.Load() == 0 && act != nil:
					t.Fail("connect-early", "Connect failed before the fault: %v", err)
				case err == nil && fault == "large refused" && wanted > 511:
					t.Count("fallbacks", 1)
					cs := p.OpenConns()
					if len(cs) == 1 && (cs[0].Large || cs[0].Size > 511) {
						t.Fail("fallback", "fell back to a connection of %d bytes (large %v)", cs[0].Size, cs[0].Large)
					}
				}
			case step < 6: // disconnect
				desc = "Disconnect"
				p.Lock()
				closed := p.Closed
				p.Unlock()
				open := p.OpenConns()
				graceful := true
				if was {
					var act *plc.Action
					switch r.IntN(6) {
					case 0:
						fault = "refused"
						act = &plc.Action{Reply: &plc.Reply{Status: 1, Ext: []uint16{0x107}}}
					case 1:
						fault = "closed"
						act = &plc.Action{Close: true}
					case 2:
						fault = "silent"
						c.SocketTimeout = 200 * time.Millisecond
						act = &plc.Action{Transform: func([]byte) []byte { return nil }}
					case 3:
						fault = "garbage"
						act = &plc.Action{Transform: func(f []byte) []byte { return f[:24+copy(f[2:], []byte{byte(r.IntN(20)), 0})*0+int(f[2])] }}
					}
					if act != nil {
						graceful = fault == "silent" || fault == "garbage"
						p.Lock()
						p.OnReq = func(q *plc.Req) *plc.Action { return act }
						p.Unlock()
					}
				}
				err := c.Disconnect()
				c.SocketTimeout = 30 * time.Second
				p.Lock()
				p.OnReq = nil
				now := p.Closed
				p.Unlock()
				if !was {
					if err == nil {
						t.Fail("disconnect-nil", "Disconnect on a disconnected client returned nil")
					}
					return
				}
				t.Count("disconnects", 1)
				if c.Connected() {
					t.Fail("still-connected", "connected after Disconnect (%s), which returned %v", fault, err)
				}
				if fault == "" && err != nil {
					t.Fail("disconnect", "Disconnect failed: %v", err)
				}
				if graceful && now != closed+1 {
					t.Fail("not-closed", "Disconnect (%s) closed %d connections at the controller, %d were open", fault, now-closed, len(open))
				}
			case step < 9: // an operation
				o := everything[r.IntN(len(everything))]
				c.AutoConnect = !was && r.IntN(3) == 0
				desc = "operation"
				total := p.TCPTotal.Load()
				w.shuffle(r)
				err, bad := o.Run(w, c, r)
				switch {
				case was && (err != nil || bad != ""):
					t.Fail("op:"+o.Name, "%s on a connected client after %s: %v %s", o.Name, prev, err, bad)
				case !was && c.AutoConnect:
					fault = "auto"
					if bad != "" {
						t.Fail("autoop:"+o.Name, "%s with AutoConnect after %s: %s", o.Name, prev, bad)
					}
					if err == nil && o.Kind != "udp" {
						t.Count("autoconnects", 1)
						if !c.Connected() {
							t.Fail("auto-state:"+o.Name, "%s with AutoConnect worked but the client is not connected", o.Name)
						}
					}
					if err != nil && (o.Kind == "read" || o.Kind == "readmulti" || o.Kind == "write" || o.Kind == "writemulti") {
						if rl, mx := p.RefuseLarge, p.MaxConnSize; !rl && mx == 0 {
							t.Fail("auto:"+o.Name, "%s on a disconnected client with AutoConnect: %v", o.Name, err)
						}
					}
				case !was && o.Kind != "udp":
					fault = "idle"
					t.Count("while_disconnected", 1)
					if err == nil {
						t.Fail("idle:"+o.Name, "%s on a disconnected client returned nil", o.Name)
					}
					if p.TCPTotal.Load() != total {
						t.Fail("idle-connect:"+o.Name, "%s on a disconnected client without AutoConnect opened a TCP connection", o.Name)
					}
				}
				c.AutoConnect = false
			case step < 11: // the controller drops the connection, the next call notices
				desc = "drop"
				if !was {
					return
				}
				t.Count("drops", 1)
				p.DropAll()
				soon(10*time.Second, func() bool { return p.TCPOpen.Load() == 0 })
				v := int32(0)
				if err := c.Read("D1", &v); err == nil {
					t.Fail("read-dropped", "a read on a connection the controller dropped returned nil")
				}
				if c.Connected() {
					t.Fail("connected-dropped", "connected after a read failed because the controller had dropped the connection")
				}
			default: // a reply that is lost, cut or late
				desc = "lost"
				if !was {
					return
				}
				o := opNamed("Read-int32")
				if r.IntN(2) == 0 {
					o = everything[r.IntN(len(everything))]
				}
				if o.Kind == "udp" {
					return
				}
				var act *plc.Action
				switch r.IntN(4) {
				case 0:
					fault = "silent"
					act = &plc.Action{Transform: func([]byte) []byte { return nil }}
				case 1:
					fault = "cut"
					n := 1 + r.IntN(40)
					act = &plc.Action{Transform: func(f []byte) []byte { return f[:min(n, len(f)-1)] }}
				case 2:
					fault = "late"
					act = &plc.Action{Delay: 500 * time.Millisecond}
				default:
					fault = "closed"
					act = &plc.Action{Close: true, CloseN: r.IntN(50)}
				}
				n := 0
				p.Lock()
				p.OnReq = func(q *plc.Req) *plc.Action {
					if q.In {
						return nil
					}
					n++
					if n == 1 {
						return act
					}
					return nil
				}
				p.OnCmd = p.OnReq
				p.Unlock()
				c.SocketTimeout = 200 * time.Millisecond
				err, bad := o.Run(w, c, r)
				c.SocketTimeout = 30 * time.Second
				p.Lock()
				seen := n
				p.OnReq, p.OnCmd = nil, nil
				p.Unlock()
				t.Count("timeouts", 1)
				if bad != "" {
					t.Fail("lost-value:"+o.Name, "%s with a reply that was %s: %s", o.Name, fault, bad)
				}
				if seen > 0 && err == nil {
					t.Fail("lost-nil:"+o.Name, "%s with a reply that was %s returned nil", o.Name, fault)
				}
				if seen > 0 && c.Connected() {
					t.Fail("lost-connected:"+o.Name, "%s failed because its reply was %s (%v) and the client is still connected", o.Name, fault, err)
				}
			}
		})
		if !ok || t.Failed() {
			break
		}
		clientState(t, p, c, size, fmt.Sprintf("%s (%s)", desc, fault))
		if c.Connected() && r.IntN(2) == 0 {
			w.shuffle(r)
			if err, bad := opNamed("Read-int32").Run(w, c, r); err != nil || bad != "" {
				t.Fail("unusable", "a read after %s (%s): %v %s", desc, fault, err, bad)
			}
			if err, bad := opNamed("ReadList").Run(w, c, r); err != nil || bad != "" {
				t.Fail("unusable", "a list read after %s (%s): %v %s", desc, fault, err, bad)
			}
		}
		f, _, _ := strings.Cut(fault, "@")
		t.Eval(fmt.Sprintf("%s>%s(%s)%v>%v", prev, desc, f, was, c.Connected()))
		prev = desc
	}
	// cut and dropped frames are the faults' doing
	for _, e := range p.WireErrors() {
		if !strings.HasPrefix(e, "TCP stream ended") {
			t.Fail("wire", "%s", e)
			break
		}
	}
	p.Lock()
	big := append([]string{}, p.TooBig...)
	p.Unlock()
	if len(big) > 0 {
		t.Fail("too-big", "%s", big[0])
	}
	c.Disconnect()
	if !soon(10*time.Second, func() bool { n, _ := goroutinesIn("danomagnum/gologix."); return n == 0 }) {
		_, text := goroutinesIn("danomagnum/gologix.")
		t.Fail("goroutines", "goroutines left in the library after Disconnect:\n%s", text)
	}
	t.Sample(map[string]any{"connection_size": size, "opened": p.Opened, "closed": p.Closed, "sockets": p.TCPTotal.Load()})
}

// c08Idle calls every operation on clients that never were, or no longer are, connected.
func c08Idle(t *rt.T, o op) {
	w := newOpWorld(t)
	if o.Kind == "udp" {
		t.Eval("skip " + o.Name)
		return
	}
	for _, how := range []string{"never", "after", "failed", "cancelled"} {
		c := newClient(w.p)
		switch how {
		case "after":
			if err := c.Connect(); err != nil {
				t.Fail("connect", "%v", err)
				return
			}
			c.Disconnect()
		case "failed":
			w.p.Deny.Store(true)
			c.Connect()
			w.p.Deny.Store(false)
		case "cancelled":
			c.KeepAliveCancel(true)
			c.KeepAlive()
			c.Disconnect()
		}
		n := w.p.LogLen()
		for k := 0; k < 3; k++ {
			t.Within(60*time.Second, "idle:"+o.Name, func() {
				err, _ := o.Run(w, c, t.R)
				t.Count("never_connected_calls", 1)
				t.Eval(fmt.Sprintf("%s %s %d", o.Name, how, k))
				if err == nil {
					t.Fail("idle:"+o.Name, "%s on a client that is not connected (%s) returned nil", o.Name, how)
				}
			})
		}
		if c.Connected() {
			t.Fail("idle-connected:"+o.Name, "%s without AutoConnect connected the client", o.Name)
		}
		if w.p.LogLen() != n {
			t.Fail("idle-request:"+o.Name, "%s on a client that is not connected sent %d requests", o.Name, w.p.LogLen()-n)
		}
		// and it can still be used
		if err := c.Connect(); err != nil {
			t.Fail("idle-then-connect:"+o.Name, "Connect after %s on a client that is not connected: %v", o.Name, err)
			continue
		}
		if err, bad := o.Run(w, c, t.R); err != nil || bad != "" {
			t.Fail("idle-then:"+o.Name, "%s after a connect that followed its failure: %v %s", o.Name, err, bad)
		}
		c.Disconnect()
	}
}

// c08Chaos uses one client from many goroutines while it is connected, disconnected and dropped.
func c08Chaos(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	c := newClient(p)
	c.AutoConnect = r.IntN(3) != 0
	size := []int{4000, 500}[r.IntN(2)]
	c.ConnectionSize = uint16(size)
	if r.IntN(3) == 0 {
		p.Lock()
		p.RefuseLarge = true
		p.Unlock()
	}
	if err := c.Connect(); err != nil {
		t.Fail("connect", "%v", err)
		return
	}
	if r.IntN(2) == 0 {
		rr := rt.NewRand(r.Uint64(), "delay")
		p.Lock()
		p.OnReq = func(q *plc.Req) *plc.Action {
			if q.In || rr.IntN(4) != 0 {
				return nil
			}
			return &plc.Action{Delay: time.Duration(rr.IntN(3000)) * time.Microsecond}
		}
		p.Unlock()
	}
	kinds := opsOf("read", "readmulti", "attr")
	var wg sync.WaitGroup
	G := 2 + r.IntN(5)
	var calls, good atomic.Int64
	for g := 0; g < G; g++ {
		rg := rt.NewRand(r.Uint64(), fmt.Sprint("g", g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 200 && !t.Failed(); i++ {
				o := kinds[rg.IntN(len(kinds))]
				t.Guard("chaos:"+o.Name, func() {
					err, bad := o.Run(w, c, rg)
					calls.Add(1)
					if err == nil {
						good.Add(1)
					} else {
						time.Sleep(time.Duration(rg.IntN(400)) * time.Microsecond)
					}
					if bad != "" {
						t.Fail("chaos-value:"+o.Name, "%s while the client was being reconnected: %s", o.Name, bad)
					}
				})
			}
		}()
	}
	rc := rt.NewRand(r.Uint64(), "chaos")
	stop := make(chan struct{})
	var cw sync.WaitGroup
	chaos := func(rc *rand.Rand) {
		defer cw.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(rc.IntN(2500)) * time.Microsecond):
			}
			t.Guard("chaos", func() {
				switch rc.IntN(5) {
				case 0:
					c.Disconnect()
				case 1, 2, 3:
					if c.Connect() == nil {
						t.Count("chaos_reconnects", 1)
					}
				case 4:
					p.DropAll()
				}
			})
		}
	}
	for i := 0; i < 1+r.IntN(2); i++ {
		cw.Add(1)
		go chaos(rt.NewRand(rc.Uint64(), "c"))
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(stop); cw.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(120 * time.Second):
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		t.Fail("hang:chaos", "calls did not return while the client was being reconnected:\n%s", string(buf[:min(n, 6000)]))
		return
	}
	t.Count("chaos_calls", int(calls.Load()))
	t.Count("chaos_calls_good", int(good.Load()))
	t.Eval(fmt.Sprintf("chaos %d %v %d %d", G, c.AutoConnect, size, p.TCPTotal.Load()))
	p.Lock()
	p.OnReq = nil
	p.Unlock()
	c.Disconnect()
	clientState(t, p, c, size, "chaos and a final Disconnect")
	c.AutoConnect = false
	if err := c.Connect(); err != nil {
		t.Fail("chaos-connect", "Connect after the dust settled: %v", err)
		return
	}
	clientState(t, p, c, size, "chaos and a fresh Connect")
	if err, bad := opNamed("Read-int32").Run(w, c, r); err != nil || bad != "" {
		t.Fail("chaos-read", "a read after the dust settled: %v %s", err, bad)
	}
	c.Disconnect()
	for _, e := range p.WireErrors() {
		if !strings.HasPrefix(e, "TCP stream ended") {
			t.Fail("chaos-wire", "%s", e)
			break
		}
	}
	if !soon(10*time.Second, func() bool { n, _ := goroutinesIn("danomagnum/gologix."); return n == 0 }) {
		_, text := goroutinesIn("danomagnum/gologix.")
		t.Fail("goroutines", "goroutines left in the library after Disconnect:\n%s", text)
	}
}
