package checks

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C13",
		Rule: "each evaluation is one phase of a client's life with keep-alive (running, cancelled, disconnected, reconnected, failing) in which the polls the controller model receives are counted against the wall clock and the keep-alive goroutines of the process are counted; " +
			"non-trivial = distinct (scenario, frequency, transitions)",
		Assumptions: []string{"a poll is the Get Attribute List of the controller info object for the configured attributes", "a cancelled task may finish the poll it is in", "a first poll the controller refuses ends the keep-alive without ending the session"},
		Cases:       c13Cases,
		MinEvents:   []string{"phases", "polls", "cancels", "disconnects", "poll_faults", "chaos_runs", "changes"},
		Races:       true,
	})
}

const kaFunc = "gologix.(*Client).KeepAlive("

func c13Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 42, 1200); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("phases-%d", i), Run: c13Phases})
	}
	for i := 0; i < tiered(tier, 21, 600); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("faults-%d", i), Run: c13Faults})
	}
	for i := 0; i < tiered(tier, 28, 800); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("chaos-%d", i), Run: c13Chaos})
	}
	for i := 0; i < tiered(tier, 7, 140); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("tags-%d", i), Run: c13Tags})
	}
	return cs
}

// kaWatch counts polls.
type kaWatch struct {
	polls atomic.Int64
	other atomic.Int64
	times struct {
		sync.Mutex
		t []time.Time
	}
	fault func(n int) *plc.Action // for the n-th poll, from 0
}

func watchPolls(p *plc.PLC) *kaWatch {
	w := &kaWatch{}
	p.Lock()
	p.OnReq = func(q *plc.Req) *plc.Action {
		if q.Service == 3 && len(q.Path) > 0 && q.Path[0].Kind == 'C' && q.Path[0].Val == 0xAC {
			n := int(w.polls.Add(1)) - 1
			w.times.Lock()
			w.times.t = append(w.times.t, time.Now())
			f := w.fault
			w.times.Unlock()
			if f != nil {
				return f(n)
			}
		} else {
			w.other.Add(1)
		}
		return nil
	}
	p.Unlock()
	return w
}

func (w *kaWatch) setFault(f func(n int) *plc.Action) {
	w.times.Lock()
	w.fault = f
	w.times.Unlock()
}

// steady watches polling for a while: one task polls at most once per period.
func (w *kaWatch) steady(t *rt.T, freq time.Duration, periods int, what string) {
	n0 := w.polls.Load()
	t0 := time.Now()
	// at least two polls come, however slow the machine is
	if !soon(60*time.Second, func() bool { return w.polls.Load() >= n0+2 }) {
		t.Fail("no-polls", "%s: %d polls in %v at one per %v", what, w.polls.Load()-n0, time.Since(t0), freq)
		return
	}
	if d := time.Duration(periods)*freq - time.Since(t0); d > 0 {
		time.Sleep(d)
	}
	n := w.polls.Load() - n0
	el := time.Since(t0)
	if limit := int64(el/freq) + 3; n > limit {
		t.Fail("too-many-polls", "%s: %d polls in %v at one per %v", what, n, el, freq)
	}
	t.Count("polls", int(n))
	if k, text := goroutinesIn(kaFunc); k != 1 {
		t.Fail("tasks", "%s: %d keep-alive goroutines\n%s", what, k, text)
	}
}

// silent checks that nothing polls any more.
func (w *kaWatch) silent(t *rt.T, freq time.Duration, what string) {
	if !soon(20*time.Second, func() bool { n, _ := goroutinesIn(kaFunc); return n == 0 }) {
		_, text := goroutinesIn(kaFunc)
		t.Fail("task-left", "%s: a keep-alive goroutine remains\n%s", what, text)
		return
	}
	// a request the model had already received may still be on its way
	// through it; polling goes on, such a straggler doesn't
	for try := 0; ; try++ {
		n0 := w.polls.Load()
		time.Sleep(4 * freq)
		n := w.polls.Load()
		if n == n0 {
			return
		}
		if try == 2 {
			t.Fail("polls-after", "%s: %d polls", what, n-n0)
			return
		}
	}
}

func kaClient(p *plc.PLC, r *rand.Rand) (*gologix.Client, time.Duration) {
	c := newClient(p)
	freq := time.Duration(8+r.IntN(25)) * time.Millisecond
	c.KeepAliveFrequency = freq
	c.KeepAliveAutoStart = true
	return c, freq
}

func c13Phases(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	ka := watchPolls(p)
	c, freq := kaClient(p, r)
	defer c.Disconnect()
	prev := "new"
	for i := 0; i < 8 && !t.Failed(); i++ {
		step := r.IntN(6)
		if i == 0 {
			step = 0
		}
		name := ""
		was := c.Connected()
		running, _ := goroutinesIn(kaFunc)
		t.Within(100*time.Second, "phase", func() {
			switch step {
			case 0, 1:
				if was {
					name = "disconnect"
					if err := c.Disconnect(); err != nil {
						t.Fail("disconnect", "%v", err)
					}
					ka.silent(t, freq, "after Disconnect")
					t.Count("disconnects", 1)
				} else {
					name = "connect"
					if err := c.Connect(); err != nil {
						t.Fail("connect", "%v", err)
						return
					}
					ka.steady(t, freq, 8, "after Connect")
				}
			case 2:
				name = "cancel-auto"
				if err := c.KeepAliveCancel(false); err == nil {
					t.Fail("cancel-unforced", "KeepAliveCancel(false) with KeepAliveAutoStart returned nil")
				}
				if was && running == 1 {
					ka.steady(t, freq, 4, "after an unforced cancel")
				}
			case 3:
				name = "cancel"
				for k := 0; k <= r.IntN(2); k++ {
					if err := c.KeepAliveCancel(true); err != nil {
						t.Fail("cancel", "%v", err)
					}
				}
				ka.silent(t, freq, "after KeepAliveCancel(true)")
				t.Count("cancels", 1)
				if c.Connected() != was {
					t.Fail("cancel-state", "KeepAliveCancel changed the connection state")
				}
			case 4, 5:
				name = "start"
				for k := 0; k <= r.IntN(3); k++ {
					go c.KeepAlive()
				}
				time.Sleep(time.Duration(r.IntN(10)) * time.Millisecond)
				if was {
					ka.steady(t, freq, 6, "after starting it by hand")
				} else {
					ka.silent(t, freq, "after starting it without a connection")
				}
			}
		})
		if c.Connected() {
			if err, bad := opNamed("Read-int32").Run(w, c, r); err != nil || bad != "" {
				t.Fail("read", "a read after %s: %v %s", name, err, bad)
			}
		}
		t.Count("phases", 1)
		t.Eval(fmt.Sprintf("%s>%s %v %d", prev, name, was, freq/time.Millisecond/5))
		prev = name
	}
	c.Disconnect()
	ka.silent(t, freq, "at the end")
	for _, e := range p.WireErrors() {
		t.Fail("wire", "%s", e)
		break
	}
	if p.Pipelined.Load() != 0 {
		t.Fail("pipelined", "a poll was sent while another request was outstanding")
	}
}

func c13Faults(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	ka := watchPolls(p)
	for i := 0; i < 4 && !t.Failed(); i++ {
		c, freq := kaClient(p, r)
		c.AutoConnect = r.IntN(2) == 0
		base := ka.polls.Load()
		at := 1 + r.IntN(4)
		var act *plc.Action
		kind := ""
		switch r.IntN(5) {
		case 0:
			kind, act = "status", &plc.Action{Reply: &plc.Reply{Status: byte(1 + r.IntN(5))}}
		case 1:
			kind, act = "closed", &plc.Action{Close: true, CloseN: r.IntN(40)}
		case 2:
			kind, act = "silent", &plc.Action{Transform: func([]byte) []byte { return nil }}
		case 3:
			kind, act = "eip", &plc.Action{EIPStatus: 0x64, Reply: &plc.Reply{Status: 8}}
		default:
			kind, act = "cut", &plc.Action{Transform: func(f []byte) []byte { f = f[:46]; relen(f); return f }}
		}
		var hit atomic.Int64
		c.SocketTimeout = 500 * time.Millisecond
		ka.setFault(func(n int) *plc.Action {
			if n-int(base) == at {
				hit.Add(1)
				return act
			}
			return nil
		})
		if err := c.Connect(); err != nil {
			t.Fail("connect", "%v", err)
			return
		}
		if !soon(60*time.Second, func() bool { return hit.Load() > 0 }) {
			t.Fail("no-polls", "%d polls after a minute at one per %v", ka.polls.Load()-base, freq)
			return
		}
		if !soon(30*time.Second, func() bool { return !c.Connected() }) {
			t.Fail("connected:"+kind, "the client is still connected although poll %d failed (%s)", at, kind)
		}
		ka.silent(t, freq, "after a failed poll ("+kind+")")
		if n := ka.polls.Load() - base; n != int64(at)+1 {
			t.Fail("poll-after-failure:"+kind, "%d polls although poll %d failed (%s)", n, at+1, kind)
		}
		clientState(t, p, c, 0, "a failed poll ("+kind+")")
		t.Count("poll_faults", 1)
		t.Eval(fmt.Sprintf("%s@%d auto=%v", kind, at, c.AutoConnect))
		// and again
		ka.setFault(nil)
		c.SocketTimeout = 30 * time.Second
		if c.AutoConnect {
			if err, bad := opNamed("Read-int32").Run(w, c, r); err != nil || bad != "" {
				t.Fail("read", "a read with AutoConnect after a failed poll: %v %s", err, bad)
				return
			}
		} else if err := c.Connect(); err != nil {
			t.Fail("connect-again", "%v", err)
			return
		}
		ka.steady(t, freq, 5, "after the reconnect that followed a failed poll")
		// the connection fails under a running keep-alive
		p.DropAll()
		if !soon(30*time.Second, func() bool { return !c.Connected() }) {
			t.Fail("connected:drop", "the client is still connected although the controller dropped the connection and polls every %v", freq)
		}
		ka.silent(t, freq, "after the controller dropped the connection")
		clientState(t, p, c, 0, "a dropped connection")
		c.Disconnect()
	}
}

// c13Tags has the keep-alive list the tags when the controller's properties change.
func c13Tags(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	ka := watchPolls(p)
	c, freq := kaClient(p, r)
	poll := r.IntN(2) == 0
	c.KeepAlivePollTags = poll
	if err := c.Connect(); err != nil {
		t.Fail("connect", "%v", err)
		return
	}
	defer c.Disconnect()
	ka.steady(t, freq, 4, "while nothing changes")
	for i := 0; i < 4 && !t.Failed(); i++ {
		name := fmt.Sprintf("New%d", i)
		p.Add(&plc.Tag{Name: name, Type: plc.DINT, Data: make([]byte, 4)})
		before := ka.other.Load()
		p.Lock()
		b := append([]byte{}, p.Attrs["172/1/3"]...)
		b[r.IntN(4)] ^= byte(1 + r.IntN(255))
		p.Attrs["172/1/3"] = b
		p.Unlock()
		n0 := ka.polls.Load()
		soon(60*time.Second, func() bool { return ka.polls.Load() >= n0+3 })
		t.Count("changes", 1)
		t.Eval(fmt.Sprintf("tags poll=%v %d", poll, i))
		if poll && ka.other.Load() == before {
			t.Fail("change-unseen", "the controller's properties changed and the tags were not listed within %d polls", ka.polls.Load()-n0)
		}
		if !poll && ka.other.Load() != before {
			t.Fail("listing", "the keep-alive sent other requests than polls without KeepAlivePollTags")
		}
	}
	c.KeepAliveCancel(true)
	ka.silent(t, freq, "after KeepAliveCancel")
	if poll {
		for i := 0; i < 4; i++ {
			if _, ok := c.KnownTags[fmt.Sprintf("new%d", i)]; !ok {
				t.Fail("tag-unknown", "tag New%d, added before a property change, is not among the known tags", i)
				break
			}
		}
	}
	c.Disconnect()
	for _, e := range p.WireErrors() {
		if !strings.HasPrefix(e, "TCP stream ended") { // DropAll's doing
			t.Fail("wire", "%s", e)
			break
		}
	}
}

// c13Chaos starts, cancels, connects and disconnects from several goroutines.
func c13Chaos(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	ka := watchPolls(p)
	c, freq := kaClient(p, r)
	if r.IntN(2) == 0 {
		freq = time.Duration(1+r.IntN(3)) * time.Millisecond
		c.KeepAliveFrequency = freq
	}
	c.AutoConnect = r.IntN(2) == 0
	var wg sync.WaitGroup
	G := 2 + r.IntN(4)
	for g := 0; g < G; g++ {
		rg := rt.NewRand(r.Uint64(), fmt.Sprint(g))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 40; i++ {
				t.Guard("chaos", func() {
					switch rg.IntN(7) {
					case 0, 1:
						c.Connect()
					case 2:
						c.Disconnect()
					case 3:
						c.KeepAliveCancel(true)
					case 4:
						go t.Guard("chaos-ka", func() { c.KeepAlive() })
					case 5:
						opNamed("Read-int32").Run(w, c, rg)
					case 6:
						if rg.IntN(4) == 0 {
							p.DropAll()
						}
					}
				})
				time.Sleep(time.Duration(rg.IntN(1500)) * time.Microsecond)
			}
		}()
	}
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-time.After(100 * time.Second):
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		t.Fail("hang:chaos", "%s", string(buf[:min(n, 6000)]))
		return
	}
	t.Count("chaos_runs", 1)
	t.Count("polls", int(ka.polls.Load()))
	t.Eval(fmt.Sprintf("chaos %d %v %v %d", G, freq, c.AutoConnect, p.TCPTotal.Load()))
	// a client that is connected now has at most one task
	if n, text := goroutinesIn(kaFunc); n > 1 {
		if !soon(10*time.Second, func() bool { n, _ := goroutinesIn(kaFunc); return n <= 1 }) {
			t.Fail("tasks", "%d keep-alive goroutines on one client\n%s", n, text)
		}
	}
	c.Disconnect()
	ka.silent(t, freq, "after the final Disconnect")
	clientState(t, p, c, 0, "the final Disconnect")
	freq = 10 * time.Millisecond
	c.KeepAliveFrequency = freq
	if err := c.Connect(); err != nil {
		t.Fail("connect-after", "%v", err)
		return
	}
	ka.steady(t, freq, 8, "after the chaos")
	c.Disconnect()
	ka.silent(t, freq, "after the chaos")
	for _, e := range p.WireErrors() {
		if !strings.HasPrefix(e, "TCP stream ended") { // DropAll's doing
			t.Fail("wire", "%s", e)
			break
		}
	}
}
