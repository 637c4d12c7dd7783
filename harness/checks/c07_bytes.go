package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C07",
		Rule: "each evaluation is one client call (Connect, Disconnect or any operation) during which one or all replies were damaged on their way to the client, with panics, call duration, bytes allocated and the session afterwards observed; " +
			"non-trivial = distinct (call, reply number, kind of damage, place of the damage)",
		Assumptions: []string{"allocation of up to 16 MB plus 256 bytes per byte on the wire counts as proportionate", "a call returning within 60 s of real time with a 0.3 s socket timeout counts as within its timeouts"},
		Cases:       c07Cases,
		Races:       true, MinEvents: []string{"damaged_replies", "calls_with_error", "calls_without_error", "reconnected", "stalled_replies", "connects_damaged", "disconnects_damaged", "endless_replies"},
	})
}

func c07Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for k := 0; k < tiered(tier, 1, 24); k++ {
		for _, o := range append(ops(), op{Name: "Connect"}, op{Name: "Disconnect"}, op{Name: "KeepAlive"}) {
			cs = append(cs, rt.Case{Name: fmt.Sprintf("%s-%d", o.Name, k), Run: func(t *rt.T) { c07Op(t, o, 400) }})
		}
	}
	return cs
}

var c07Words = []uint32{0, 1, 2, 3, 6, 7, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF, 0x02A0, 0xCE, 0xD3, 0xC1, 0xC4}

// relen makes the length fields of a reply frame agree with its size again.
func relen(f []byte) {
	le := binary.LittleEndian
	if len(f) < 24 {
		return
	}
	le.PutUint16(f[2:], uint16(len(f)-24))
	switch cmd := le.Uint16(f); {
	case cmd == 0x70 && len(f) >= 44:
		le.PutUint16(f[42:], uint16(len(f)-44))
	case cmd == 0x6F && len(f) >= 40:
		le.PutUint16(f[38:], uint16(len(f)-40))
	}
}

// damage returns the changed frame, what was done, and whether the client will have to wait for more bytes.
func damage(r *rand.Rand, kind int, f []byte) ([]byte, string, bool) {
	le := binary.LittleEndian
	f = append([]byte{}, f...)
	stalls := func(f []byte) bool { return len(f) < 24 || len(f) < 24+int(le.Uint16(f[2:])) }
	payload := 24 // first byte worth changing
	if len(f) > 46 {
		switch le.Uint16(f) {
		case 0x70:
			payload = 46
		case 0x6F:
			payload = 40
		}
	}
	tail := func() int { // an offset, mostly behind the headers
		if len(f) > payload && r.IntN(4) != 0 {
			n := len(f) - payload
			if n > 24 && r.IntN(2) == 0 {
				n = 24
			}
			return payload + r.IntN(n)
		}
		if len(f) == 0 {
			return 0
		}
		return r.IntN(len(f))
	}
	switch kind {
	case 0: // cut, lengths fixed up
		if len(f) > 24 {
			at := 24 + r.IntN(len(f)-24)
			if r.IntN(2) == 0 {
				at = tail()
			}
			if at < 24 {
				at = 24
			}
			f = f[:at]
			relen(f)
			return f, fmt.Sprintf("cut %d", at), false
		}
	case 1: // cut, only the outer length fixed up
		if len(f) > 24 {
			at := 24 + r.IntN(len(f)-24)
			f = f[:at]
			le.PutUint16(f[2:], uint16(at-24))
			return f, fmt.Sprintf("cutraw %d", at), false
		}
	case 2: // bits
		n := 1 + r.IntN(8)
		at := 0
		for i := 0; i < n && len(f) > 0; i++ {
			at = tail()
			f[at] ^= 1 << r.IntN(8)
		}
		return f, fmt.Sprintf("bits %d", at), stalls(f)
	case 3, 4: // a field takes an extreme value
		if len(f) > 28 {
			w := 1 << r.IntN(3)
			at := tail()
			for at+w > len(f) {
				at--
			}
			v := c07Words[r.IntN(len(c07Words))]
			switch w {
			case 1:
				f[at] = byte(v)
			case 2:
				le.PutUint16(f[at:], uint16(v))
			case 4:
				le.PutUint32(f[at:], v)
			}
			return f, fmt.Sprintf("word%d %d=%x", w, at, v), stalls(f)
		}
	case 5: // something inserted
		at := tail()
		if at < 24 {
			at = len(f)
		}
		n := 1 + r.IntN(40)
		if r.IntN(8) == 0 {
			n = r.IntN(60000 - min(len(f), 50000))
		}
		ins := make([]byte, n)
		if r.IntN(2) == 0 {
			for i := range ins {
				ins[i] = byte(r.Uint32())
			}
		}
		f = append(f[:at:at], append(ins, f[at:]...)...)
		relen(f)
		return f, fmt.Sprintf("insert %d", at), false
	case 6: // something taken out
		at := tail()
		if at >= 24 {
			n := 1 + r.IntN(8)
			if at+n > len(f) {
				n = len(f) - at
			}
			f = append(f[:at:at], f[at+n:]...)
			relen(f)
			return f, fmt.Sprintf("delete %d", at), false
		}
	case 7: // the payload replaced by noise
		n := r.IntN(200)
		if r.IntN(10) == 0 {
			n = r.IntN(65000)
		}
		b := make([]byte, n)
		style := r.IntN(3)
		for i := range b {
			switch style {
			case 0:
				b[i] = byte(r.Uint32())
			case 1:
				b[i] = 0xFF
			}
		}
		at := 24
		if r.IntN(2) == 0 {
			at = min(payload, len(f))
		}
		f = append(f[:at:at], b...)
		relen(f)
		return f, fmt.Sprintf("noise@%d/%d", at, style), false
	case 8: // another command, another context, another session
		switch r.IntN(4) {
		case 0:
			le.PutUint16(f, uint16(c07Words[r.IntN(len(c07Words))]))
			return f, "command", false
		case 1:
			le.PutUint16(f, []uint16{0x63, 0x04, 0x65, 0x66, 0x6F, 0x70, 0x00}[r.IntN(7)])
			return f, "command", false
		case 2:
			le.PutUint32(f[4:], r.Uint32())
			return f, "session", false
		default:
			for i := 12; i < 24; i++ {
				f[i] = byte(r.Uint32())
			}
			return f, "context", false
		}
	case 9: // partial status, other statuses
		at := payload + 2
		if at < len(f) {
			f[at] = []byte{6, 6, 0, 1, 0x1E, 0xFF}[r.IntN(6)]
			if at+1 < len(f) && r.IntN(2) == 0 {
				f[at+1] = []byte{1, 2, 0xFF, 0x7F}[r.IntN(4)]
			}
			return f, fmt.Sprintf("status %x.%x", f[at], f[min(at+1, len(f)-1)]), false
		}
	case 10: // the items
		if len(f) > 46 {
			at := []int{30, 32, 34, 36, 38, 40, 42}[r.IntN(7)]
			le.PutUint16(f[at:], uint16(c07Words[r.IntN(len(c07Words))]))
			return f, fmt.Sprintf("item %d", at), false
		}
	case 11: // announced longer than sent
		le.PutUint16(f[2:], uint16(len(f)-24)+uint16(1+r.IntN(2000)))
		return f, "longer", true
	case 12: // part of the header only
		return f[:r.IntN(24)], "header", true
	case 13:
		return nil, "nothing", true
	}
	return f, "", false
}

// what the two frames have in the reply of the model
type c07Hit struct {
	what  string
	stall bool
	n     int
}

func c07Op(t *rt.T, o op, rounds int) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	size := uint16([]int{0, 500, 4000, 65000}[r.IntN(4)])
	fresh := func() *gologix.Client {
		c := newClient(p)
		c.KeepAliveFrequency = 20 * time.Millisecond
		if size != 0 {
			c.ConnectionSize = size
		}
		return c
	}
	c := fresh()
	if err := c.Connect(); err != nil {
		t.Fail("connect", "cannot connect: %v", err)
		return
	}
	defer func() { c.Disconnect() }()
	var ms runtime.MemStats
	for round := 0; round < rounds && !t.Failed(); round++ {
		// the undisturbed call tells how many replies there are
		total := 3
		if o.Run != nil && round%4 == 0 {
			w.shuffle(r)
		}
		kind := []int{0, 0, 1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 9, 9, 10}[r.IntN(16)]
		if r.IntN(45) == 0 {
			kind = 11 + r.IntN(3)
		}
		closeN := 0
		if r.IntN(40) == 0 {
			closeN = 1 + r.IntN(60)
		}
		if o.Run != nil {
			n := 0
			p.Lock()
			p.OnReq = func(q *plc.Req) *plc.Action {
				if !q.In {
					n++
				}
				return nil
			}
			p.OnCmd = p.OnReq
			p.Unlock()
			// rarely necessary, the number of replies hardly varies
			if round%10 == 0 {
				o.Run(w, c, r)
				total = max(n, 1)
			}
		}
		at := r.IntN(total)
		all := r.IntN(6) == 0
		endless := o.Run != nil && !all && r.IntN(10) == 0
		hits := []c07Hit{}
		bytes, k := 0, 0
		var mu sync.Mutex // the hook runs in the controller's goroutines
		rr := rt.NewRand(r.Uint64(), "damage")
		if o.Name == "Connect" {
			c.Disconnect()
			c = fresh()
		}
		hook := func(q *plc.Req) *plc.Action {
			if q.In {
				return nil
			}
			mu.Lock()
			defer mu.Unlock()
			me := k
			k++
			a := &plc.Action{}
			if closeN > 0 && me == at {
				a.Close, a.CloseN = true, closeN-1
				hits = append(hits, c07Hit{"close", false, me})
				return a
			}
			a.Transform = func(f []byte) []byte {
				mu.Lock()
				defer mu.Unlock()
				out := f
				switch {
				case endless && me >= at:
					if len(f) > 48 && f[0] == 0x70 {
						out = append([]byte{}, f...)
						out[48] = 6
						hits = append(hits, c07Hit{"endless", false, me})
					}
				case me == at || all:
					d, what, stall := damage(rr, kind, f)
					if what != "" {
						out = d
						hits = append(hits, c07Hit{what, stall, me})
					}
				}
				bytes += len(out) + q.ItemLen + 64
				return out
			}
			return a
		}
		p.Lock()
		p.OnReq, p.OnCmd = hook, hook
		p.Unlock()
		c.SocketTimeout = 300 * time.Millisecond
		runtime.ReadMemStats(&ms)
		before := ms.TotalAlloc
		t0 := time.Now()
		var err error
		returned := t.Within(60*time.Second, o.Name, func() {
			switch o.Name {
			case "Connect":
				err = c.Connect()
			case "Disconnect":
				err = c.Disconnect()
			case "KeepAlive":
				done := make(chan struct{})
				c.KeepAliveAutoStart = true
				go func() { defer close(done); c.KeepAlive() }()
				time.Sleep(time.Duration(r.IntN(80)) * time.Millisecond)
				for stopped := false; !stopped; {
					c.KeepAliveCancel(true)
					select {
					case <-done:
						stopped = true
					case <-time.After(10 * time.Millisecond): // perhaps it was cancelled before it began
					}
				}
				c.KeepAliveAutoStart = false
			default:
				err, _ = o.Run(w, c, r)
			}
		})
		took := time.Since(t0)
		runtime.ReadMemStats(&ms)
		alloc := ms.TotalAlloc - before
		p.Lock()
		p.OnReq, p.OnCmd = nil, nil
		p.Unlock()
		mu.Lock()
		nhits, nbytes, reqs := append([]c07Hit{}, hits...), bytes, k
		mu.Unlock()
		if !returned {
			t.Sample(map[string]any{"op": o.Name, "damage": fmt.Sprint(nhits)})
			return
		}
		what := []string{}
		for _, h := range nhits {
			what = append(what, fmt.Sprintf("%d:%s", h.n, h.what))
			t.Count("damaged_replies", 1)
			if h.stall {
				t.Count("stalled_replies", 1)
			}
			if h.what == "endless" {
				t.Count("endless_replies", 1)
			}
		}
		key := strings.Join(what, ",")
		if len(key) > 300 {
			key = key[:300]
		}
		t.Eval(o.Name + " " + key)
		if err != nil {
			t.Count("calls_with_error", 1)
		} else {
			t.Count("calls_without_error", 1)
		}
		switch o.Name {
		case "Connect":
			t.Count("connects_damaged", len(nhits))
		case "Disconnect":
			t.Count("disconnects_damaged", len(nhits))
		}
		if alloc > 16<<20+256*uint64(nbytes) {
			t.Fail("alloc:"+o.Name, "%s allocated %d bytes for %d bytes on the wire (%s)", o.Name, alloc, nbytes, key)
		}
		// a call waits at most twice its timeout per request
		if limit := 15*time.Second + time.Duration(reqs+4)*700*time.Millisecond; took > limit {
			t.Fail("slow:"+o.Name, "%s took %v for %d requests with a socket timeout of 0.3 s (%s)", o.Name, took, reqs, key)
		}
		t.Sample(map[string]any{"op": o.Name, "damage": key, "error": fmt.Sprint(err), "alloc": alloc, "ms": took.Milliseconds()})

		// the client can be used again
		ok := t.Within(60*time.Second, "recover:"+o.Name, func() {
			c.Disconnect()
			c.SocketTimeout = 30 * time.Second
			c.ConnectionSize = 4000
			if size != 0 {
				c.ConnectionSize = size
			}
			if err := c.Connect(); err != nil {
				t.Fail("reconnect:"+o.Name, "after %s with damaged replies (%s) the client cannot connect again: %v", o.Name, key, err)
				return
			}
			v := int32(0x5A5A5A5B)
			if err := c.Read("D1", &v); err != nil {
				t.Fail("unusable:"+o.Name, "after %s with damaged replies (%s) and a reconnect a read fails: %v", o.Name, key, err)
				return
			}
			if v != w.i32("D1", 0) {
				t.Fail("stale:"+o.Name, "after %s with damaged replies (%s) and a reconnect D1 reads %d instead of %d", o.Name, key, v, w.i32("D1", 0))
				return
			}
			t.Count("reconnected", 1)
		})
		if !ok {
			return
		}
	}
}
