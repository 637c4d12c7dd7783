package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"net"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "S05",
		Rule: "each evaluation is one step of a random history of opens, closes, requests and ends of TCP connections by several originators; after it every connection identifier the model knows is asked for the tag that names its provider: open ones have to answer for the provider of their path, closed ones must not; " +
			"production of cyclic connections has to end with them; non-trivial = distinct (step, kind of path, what identifiers clash, open connections, outcome)",
		Assumptions: []string{"a request comes over the TCP connection its connection was opened over", "when one originator opens the same serial number twice, either the second open is refused or a close takes away one of the two"},
		Cases:       s05Cases,
		MinEvents:   []string{"steps", "opens", "closes", "unknown_closes", "tcp_ends", "probes_open", "probes_closed", "near_identifiers", "same_serials", "same_requested_ids", "cyclic_opens", "production_stopped", "productions_seen", "leftovers_checked", "no_interval"},
		Exclusive:   true,
		Shards:      1,
	})
}

func s05Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 120, 4000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("history-%d", i), Run: s05History})
	}
	for i := 0; i < tiered(tier, 20, 600); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("parallel-%d", i), Run: s05Parallel})
	}
	return cs
}

// counting is a provider that counts how often it is asked for data to produce.
type counting struct {
	gologix.MapTagProvider
	reads atomic.Int64
}

func (c *counting) IORead() ([]byte, error) { c.reads.Add(1); return []byte{1, 2, 3, 4}, nil }

func newCounting(id int32) *counting {
	c := &counting{}
	c.Data = map[string]any{"id": id}
	return c
}

// s05World are the providers and what leads to them.
type s05World struct {
	t      *rt.T
	srv    *server
	routes [][]byte
	ids    map[string]int32
	provs  map[string]*counting
}

func s05Make(t *rt.T, r *rand.Rand) *s05World {
	w := &s05World{t: t, ids: map[string]int32{}, provs: map[string]*counting{}}
	router := gologix.NewRouter()
	used := map[string]bool{}
	for i := 0; i < 2+r.IntN(4); i++ {
		route := freeRoute(r, used)
		if i > 0 && r.IntN(4) == 0 {
			route = furtherRoute(r, w.routes[r.IntN(i)], used)
		}
		id := int32(1000 + i)
		w.routes = append(w.routes, route)
		w.ids[string(route)] = id
		w.provs[string(route)] = newCounting(id)
		router.Handle(route, w.provs[string(route)])
	}
	w.srv = startServer(t, router, false, nil)
	if w.srv == nil {
		return nil
	}
	return w
}

// probe asks the connection for its provider.
func (w *s05World) probe(c *sopen, open bool) bool {
	t := w.t
	if open && c.cyclic { // it is not there for requests, but something is produced for it
		n := w.provs[string(c.route)].reads.Load()
		if !soon(8*time.Second, func() bool { return w.provs[string(c.route)].reads.Load() > n }) {
			t.Fail("no-production", "connection %#x to % X is open, its provider is not asked for data for 8 s", c.ot, c.route)
			return false
		}
		t.Count("productions_seen", 1)
		return true
	}
	c.seq++
	rep, err := c.c.roundtrip(0x70, connectedData(c.ot, c.seq, 0x4C, tagPath("id"), []byte{1, 0}))
	if err != nil {
		t.Fail("probe", "a request over connection %#x (open: %v) gets: %v", c.ot, open, err)
		return false
	}
	if open {
		t.Count("probes_open", 1)
		x, err := parseReply(rep)
		want := append([]byte{plc.DINT, 0}, wireElem(w.ids[string(c.route)])...)
		if err != nil || !x.ok() {
			t.Fail("not-served", "connection %#x to % X is open, a request over it gets %v %v", c.ot, c.route, x, err)
			return false
		}
		if !bytes.Equal(x.data, want) {
			t.Fail("wrong-provider", "connection %#x to % X is answered for another provider: % X instead of % X", c.ot, c.route, x.data, want)
			return false
		}
		if x.to != c.to {
			t.Fail("wrong-reply-id", "connection %#x is answered for target to originator id %#x, it was opened as %#x", c.ot, x.to, c.to)
			return false
		}
		return true
	}
	t.Count("probes_closed", 1)
	if rep.status == 0 {
		if x, err := parseReply(rep); err != nil || x.ok() {
			t.Fail("served-closed", "connection %#x is not open, a request over it gets %v %v", c.ot, x, err)
			return false
		}
	}
	return true
}

func s05History(t *rt.T) {
	r := t.R
	w := s05Make(t, r)
	if w == nil {
		return
	}
	type tcp struct {
		c      *sconn
		vendor uint16
		orig   uint32
	}
	var tcps []*tcp
	open := []*sopen{}
	var closed []*sopen
	alive := map[*sconn]bool{}
	dial := func() *tcp {
		c := w.srv.session(t, 0)
		if c == nil {
			return nil
		}
		x := &tcp{c: c, vendor: uint16(1 + r.IntN(2)), orig: uint32(1 + r.IntN(2))}
		tcps = append(tcps, x)
		alive[c] = true
		return x
	}
	for i := 0; i < 1+r.IntN(4); i++ {
		if dial() == nil {
			return
		}
	}
	steps, serials := 15+r.IntN(40), 6
	if r.IntN(12) == 0 { // very many connections
		steps, serials = 150+r.IntN(150), 60000
	}
	for step := steps; step > 0; step-- {
		t.Count("steps", 1)
		what, detail := "", ""
		switch k := r.IntN(12 + serials/7500); {
		case k < 6 || k >= 12 || len(open) == 0:
			x := tcps[r.IntN(len(tcps))]
			route := w.routes[r.IntN(len(w.routes))]
			o := openReq{large: r.IntN(2) == 0, to: r.Uint32() | 1, serial: uint16(r.IntN(serials)), vendor: x.vendor, orig: x.orig, size: 500, trigger: 0xA3, otRPI: 1 + uint32(r.IntN(1000000)), toRPI: 1 + uint32(r.IntN(1000000)),
				path: append(append([]byte{}, route...), msgRouter...)}
			what = "open"
			if r.IntN(5) == 0 {
				// a device of its own
				o.vendor, o.orig = uint16(r.Uint32()), r.Uint32()
			}
			twice := false
			for _, c := range open {
				if c.serial == o.serial && c.vendor == o.vendor && c.orig == o.orig {
					// devices that are the same by what they say, which only happens over several TCP connections
					if twice = twice || c.c == x.c; !twice {
						t.Count("twins", 1)
						detail += "2"
					}
				} else if c.serial == o.serial {
					t.Count("same_serials", 1)
					detail += "S"
				}
			}
			if twice {
				continue
			}
			switch r.IntN(4) {
			case 0:
				o.ot = r.Uint32()
			case 1: // one somebody else has
				if len(open) > 0 {
					o.ot = open[r.IntN(len(open))].ot
					t.Count("same_requested_ids", 1)
					detail += "I"
				}
			}
			if r.IntN(4) == 0 && len(open) > 0 {
				o.to = open[r.IntN(len(open))].to
				detail += "T"
			}
			if r.IntN(4) == 0 {
				o.trigger, o.toRPI = 1, uint32(1000+r.IntN(20000))
				o.path = append(append([]byte{}, route...), 0x20, 4, 0x24, byte(r.IntN(3)))
				t.Count("cyclic_opens", 1)
				detail += "C"
			}
			if r.IntN(8) == 0 {
				// no path, or one nobody is at: a cyclic connection can't be opened there.
				what = "open nowhere"
				o.trigger = 1
				o.path = [][]byte{{}, {17, 3, 0x20, 4, 0x24, 1}, {0x20, 4, 0x24, 1}, append(append([]byte{}, route...), 0x20, 4, 0x24, 1)}[r.IntN(4)]
				if bytes.HasPrefix(o.path, route) && len(route) > 0 {
					// a provider that would have to produce without a pause
					o.toRPI = 0
					t.Count("no_interval", 1)
				}
				rep, err := x.c.direct(o.bytes())
				if err != nil || rep.ok() {
					t.Fail("opened-nowhere", "cyclic forward open with path % X and interval %d us: %v %v", o.path, o.toRPI, rep, err)
					return
				}
				break
			}
			c, rep, err := x.c.open(o, route)
			if err != nil || !rep.ok() {
				t.Fail("open", "forward open (serial %d vendor %d originator %d) of % X: %v %v", o.serial, o.vendor, o.orig, o.path, rep, err)
				return
			}
			for _, d := range open {
				if d.ot == c.ot {
					t.Fail("same-id", "the originator to target id %#x is given out although a connection that is open has it", c.ot)
					return
				}
			}
			t.Count("opens", 1)
			open = append(open, c)
			for i, d := range closed { // an id may be given out again
				if d.ot == c.ot {
					closed = append(closed[:i:i], closed[i+1:]...)
					break
				}
			}
		case k < 9: // close one
			i := r.IntN(len(open))
			c := open[i]
			what = "close"
			path := append(append([]byte{}, c.route...), msgRouter...)
			rep, err := c.c.direct(closeReq(c.serial, c.vendor, c.orig, path))
			if err != nil || !rep.ok() {
				t.Fail("close", "forward close of serial %d vendor %d originator %d: %v %v", c.serial, c.vendor, c.orig, rep, err)
				return
			}
			if len(rep.data) < 8 || plc.LE.Uint16(rep.data) != c.serial || plc.LE.Uint16(rep.data[2:]) != c.vendor || plc.LE.Uint32(rep.data[4:]) != c.orig {
				t.Fail("close-reply", "forward close of serial %d vendor %d originator %d is answered with % X", c.serial, c.vendor, c.orig, rep.data)
				return
			}
			t.Count("closes", 1)
			open = append(open[:i:i], open[i+1:]...)
			closed = append(closed, c)
			if c.cyclic {
				detail = "C"
				others := false
				for _, d := range open {
					others = others || d.cyclic && bytes.Equal(d.route, c.route)
				}
				p := w.provs[string(c.route)]
				if !others && !soon(8*time.Second, func() bool {
					n := p.reads.Load()
					time.Sleep(45 * time.Millisecond)
					return p.reads.Load() == n
				}) {
					t.Fail("produces", "8 s after cyclic connection %#x was closed its provider is still asked for data", c.ot)
					return
				}
			}
		case k < 10: // close what there isn't
			x := tcps[r.IntN(len(tcps))]
			serial, vendor, orig := uint16(r.IntN(8)), uint16(1+r.IntN(3)), uint32(1+r.IntN(3))
			if len(open) > 0 && r.IntN(2) == 0 {
				c := open[r.IntN(len(open))]
				serial, vendor, orig = c.serial, c.vendor, c.orig
				switch r.IntN(3) {
				case 0:
					serial += 100
				case 1:
					vendor += 100
				case 2:
					orig += 100
				}
			}
			known := false
			for _, c := range open {
				known = known || c.serial == serial && c.vendor == vendor && c.orig == orig
			}
			if known {
				continue
			}
			what = "close unknown"
			rep, err := x.c.direct(closeReq(serial, vendor, orig, append(append([]byte{}, w.routes[0]...), msgRouter...)))
			if err != nil || rep.ok() {
				t.Fail("close-unknown", "forward close of serial %d vendor %d originator %d, which is not open: %v %v", serial, vendor, orig, rep, err)
				return
			}
			t.Count("unknown_closes", 1)
		case k < 11 && len(tcps) > 1 && (serials == 6 || r.IntN(6) == 0): // one goes away
			what = "tcp end"
			i := r.IntN(len(tcps))
			x := tcps[i]
			tcps = append(tcps[:i:i], tcps[i+1:]...)
			switch r.IntN(3) {
			case 0:
				x.c.c.(*net.TCPConn).SetLinger(0)
				detail = "reset"
			case 1:
				x.c.send(0x66, nil)
				detail = "unregister"
			}
			if detail != "unregister" {
				x.c.c.Close()
			} else if _, err := x.c.recv(10 * time.Second); err == nil || errors.Is(err, errSilent) {
				t.Fail("unregister", "the session was unregistered, the connection is still open")
				return
			}
			t.Count("tcp_ends", 1)
			alive[x.c] = false
			rest := []*sopen{}
			var gone []*sopen
			for _, c := range open {
				if c.c == x.c {
					gone = append(gone, c)
				} else {
					rest = append(rest, c)
				}
			}
			open = rest
			// their identifiers stop being served, to anybody.
			for _, c := range gone {
				other := *c
				other.c = tcps[r.IntN(len(tcps))].c
				ended := soon(10*time.Second, func() bool {
					f, err := other.c.roundtrip(0x70, connectedData(c.ot, 1, 0x4C, tagPath("id"), []byte{1, 0}))
					if err != nil {
						t.Fail("probe", "a request over connection %#x that ended: %v", c.ot, err)
						return true
					}
					x, err := parseReply(f)
					return f.status != 0 || err == nil && !x.ok()
				})
				if !ended {
					t.Fail("outlives-tcp", "connection %#x is still served 10 s after the TCP connection it was opened over ended", c.ot)
					return
				}
				// nobody has it any more, so this too can't be closed.
				if r.IntN(2) == 0 {
					dup := false
					for _, d := range open {
						dup = dup || d.serial == c.serial && d.vendor == c.vendor && d.orig == c.orig
					}
					if dup {
						continue
					}
					rep, err := other.c.direct(closeReq(c.serial, c.vendor, c.orig, append(append([]byte{}, c.route...), msgRouter...)))
					if err != nil || rep.ok() {
						t.Fail("outlives-tcp", "a connection (serial %d) whose TCP connection ended can be closed: %v %v", c.serial, rep, err)
						return
					}
				}
			}
			detail += fmt.Sprint(len(gone))
		default:
			what = "dial"
			if len(tcps) < 6 && dial() == nil {
				return
			}
		}
		// what every identifier does now.
		for _, i := range r.Perm(len(open))[:min(len(open), 6)] {
			if !w.probe(open[i], true) {
				return
			}
		}
		// identifiers that were open once, and identifiers never given out that differ from one that is open in little.
		var none []*sopen
		for _, i := range r.Perm(len(closed))[:min(len(closed), 3)] {
			none = append(none, closed[i])
		}
		for _, i := range r.Perm(len(open))[:min(len(open), 2)] {
			c := *open[i]
			c.ot ^= []uint32{1 << 31, 0xFFFF0000, 0xFF000000, 1, 0xFF, 0xFFFF, 1 << r.IntN(32), 0x00FFFF00}[r.IntN(8)]
			if !slices.ContainsFunc(open, func(o *sopen) bool { return o.ot == c.ot }) {
				none = append(none, &c)
				t.Count("near_identifiers", 1)
			}
		}
		for _, x := range none {
			c := *x
			if !alive[c.c] {
				c.c = tcps[r.IntN(len(tcps))].c
			}
			if !w.probe(&c, false) {
				return
			}
		}
		t.Eval(fmt.Sprintf("%s %s open %d closed %d tcps %d", what, detail, len(open), min(len(closed), 5), len(tcps)))
	}
	// everything goes.
	for _, c := range open {
		if r.IntN(2) == 0 {
			if rep, err := c.close(); err != nil || !rep.ok() {
				t.Fail("close", "forward close of serial %d vendor %d originator %d at the end: %v %v", c.serial, c.vendor, c.orig, rep, err)
				return
			}
		}
	}
	for _, x := range tcps {
		x.c.c.Close()
	}
	w.quiet(open)
}

// quiet: nothing is produced any more and no connection is kept.
func (w *s05World) quiet(was []*sopen) {
	t := w.t
	stopped := soon(10*time.Second, func() bool {
		var a, b int64
		for _, p := range w.provs {
			a += p.reads.Load()
		}
		time.Sleep(45 * time.Millisecond)
		for _, p := range w.provs {
			b += p.reads.Load()
		}
		return a == b
	})
	if !stopped {
		t.Fail("produces", "10 s after every connection was closed the server still asks for data to produce")
		return
	}
	var total int64
	for _, p := range w.provs {
		total += p.reads.Load()
	}
	if total > 0 {
		t.Count("production_stopped", 1)
	}
	c := w.srv.session(t, 0)
	if c == nil {
		return
	}
	for _, x := range was {
		y := *x
		y.c = c
		if !soon(5*time.Second, func() bool {
			f, err := c.roundtrip(0x70, connectedData(y.ot, 1, 0x4C, tagPath("id"), []byte{1, 0}))
			if err != nil {
				return false
			}
			x, err := parseReply(f)
			return f.status != 0 || err == nil && !x.ok()
		}) {
			t.Fail("outlives-tcp", "connection %#x is still served after everybody left", x.ot)
			return
		}
		t.Count("leftovers_checked", 1)
	}
}

// s05Parallel: originators that open and close at the same time do not get in each other's way.
func s05Parallel(t *rt.T) {
	r := t.R
	w := s05Make(t, r)
	if w == nil {
		return
	}
	var mu sync.Mutex
	inUse := map[uint32]*sopen{}
	var all []*sopen
	var wg sync.WaitGroup
	for g := 0; g < 3+r.IntN(5); g++ {
		c := w.srv.session(t, 0)
		if c == nil {
			return
		}
		gr := rt.NewRand(r.Uint64(), "originator")
		wg.Add(1)
		go func() {
			defer wg.Done()
			var open []*sopen
			for i := 0; i < 40 && !t.Failed(); i++ {
				if len(open) == 0 || gr.IntN(2) == 0 && len(open) < 5 {
					route := w.routes[gr.IntN(len(w.routes))]
					o := openReq{large: gr.IntN(2) == 0, to: gr.Uint32() | 1, serial: uint16(i), vendor: 1, orig: uint32(g), size: 500, trigger: 0xA3, otRPI: 5, toRPI: 5, path: append(append([]byte{}, route...), msgRouter...)}
					if gr.IntN(4) == 0 {
						o.trigger, o.toRPI = 1, 3000
					}
					x, rep, err := c.open(o, route)
					if err != nil || !rep.ok() {
						t.Fail("open", "one of several originators' forward open: %v %v", rep, err)
						return
					}
					mu.Lock()
					if inUse[x.ot] != nil {
						t.Fail("same-id", "two connections open at the same time have the id %#x", x.ot)
					}
					inUse[x.ot] = x
					all = append(all, x)
					mu.Unlock()
					open = append(open, x)
					t.Count("opens", 1)
				} else {
					k := gr.IntN(len(open))
					x := open[k]
					open = append(open[:k:k], open[k+1:]...)
					mu.Lock()
					delete(inUse, x.ot)
					mu.Unlock()
					rep, err := x.close()
					if err != nil || !rep.ok() {
						t.Fail("close", "one of several originators' forward close: %v %v", rep, err)
						return
					}
					t.Count("closes", 1)
				}
				for _, x := range open {
					if !w.probe(x, true) {
						return
					}
				}
				t.Count("steps", 1)
				t.Eval(fmt.Sprintf("parallel %d", len(open)))
			}
		}()
	}
	t.Within(100*time.Second, "originators", wg.Wait)
	if t.Failed() {
		return
	}
	mu.Lock()
	defer mu.Unlock()
	seen := map[*sconn]bool{}
	for _, x := range all {
		if !seen[x.c] {
			x.c.c.Close()
			seen[x.c] = true
		}
	}
	w.quiet(all)
}
