package checks

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C06",
		Rule: "each evaluation is one client call made while other goroutines use the same client; its result is compared with the controller's constant data, or its interval and values go into a history that porcupine checks for linearizability per tag; " +
			"the controller model reports requests that overlap on the wire and repeated sequence counts, the race detector unsynchronised accesses; non-trivial = distinct (call, number of goroutines, calls overlapping it)",
		Assumptions: []string{"the controller executes each service of a request atomically, in order"},
		Cases:       c06Cases,
		MinEvents:   []string{"calls", "overlapping_calls", "register_reads", "register_writes", "histories_checked", "orders_seen"},
		Races:       true,
	})
}

func c06Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 200, 4000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("mix-%d", i), Run: func(t *rt.T) { c06Mix(t, false) }})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("registers-%d", i), Run: func(t *rt.T) { c06Mix(t, true) }})
	}
	for i := 0; i < tiered(tier, 70, 1200); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("clients-%d", i), Run: c06Clients})
	}
	return cs
}

type regIn struct {
	write bool
	val   int32
}

var regModel = porcupine.Model{
	Init: func() any { return int32(0) },
	Step: func(state, in, out any) (bool, any) {
		i := in.(regIn)
		if i.write {
			return true, i.val
		}
		return out.(int32) == state.(int32), state
	},
	Equal: func(a, b any) bool { return a == b },
	DescribeOperation: func(in, out any) string {
		i := in.(regIn)
		if i.write {
			return fmt.Sprintf("write %d", i.val)
		}
		return fmt.Sprintf("read %d", out)
	},
}

// history collects per-tag operations.
type history struct {
	mu    sync.Mutex
	start time.Time
	ops   map[string][]porcupine.Operation
}

func newHistory() *history {
	return &history{start: time.Now(), ops: map[string][]porcupine.Operation{}}
}
func (h *history) now() int64 { return int64(time.Since(h.start)) }
func (h *history) add(tag string, client int, in regIn, out int32, call, ret int64) {
	h.mu.Lock()
	h.ops[tag] = append(h.ops[tag], porcupine.Operation{ClientId: client, Input: in, Output: out, Call: call, Return: ret})
	h.mu.Unlock()
}

// check runs porcupine over every tag.
func (h *history) check(t *rt.T, sig string) {
	tags := []string{}
	for k := range h.ops {
		tags = append(tags, k)
	}
	sort.Strings(tags)
	for _, k := range tags {
		ops := h.ops[k]
		res := porcupine.CheckOperationsTimeout(regModel, ops, 60*time.Second)
		t.Count("histories_checked", 1)
		t.Count("history_operations", len(ops))
		switch res {
		case porcupine.Illegal:
			t.Fail(sig, "the %d operations on %s are not linearizable: %s", len(ops), k, sketch(ops))
		case porcupine.Unknown:
			t.Count("histories_undecided", 1)
		}
	}
}

// sketch shows reads of values that were overwritten before they began, or never written.
func sketch(ops []porcupine.Operation) string {
	sort.Slice(ops, func(i, j int) bool { return ops[i].Call < ops[j].Call })
	out := []string{}
	for _, o := range ops {
		in := o.Input.(regIn)
		if in.write {
			continue
		}
		v := o.Output.(int32)
		found := v == 0
		for _, x := range ops {
			if y := x.Input.(regIn); y.write && y.val == v {
				found = true
				for _, z := range ops {
					if u := z.Input.(regIn); u.write && z.Call > x.Return && z.Return < o.Call {
						out = append(out, fmt.Sprintf("read %d at [%d,%d] although write %d at [%d,%d] followed write [%d,%d]", v, o.Call, o.Return, u.val, z.Call, z.Return, x.Call, x.Return))
						break
					}
				}
			}
		}
		if !found {
			out = append(out, fmt.Sprintf("read %d, which nobody wrote", v))
		}
		if len(out) > 3 {
			break
		}
	}
	return strings.Join(out, "; ")
}

type c06Regs struct {
	A int32 `gologix:"Reg0"`
	B int32 `gologix:"Reg1"`
	C int32 `gologix:"Reg2"`
}

// regCall performs one random call on the registers and records it.
func regCall(t *rt.T, c *gologix.Client, h *history, g int, r *rand.Rand, next func() int32) (string, error) {
	const K = 4
	k := r.IntN(K)
	name := fmt.Sprintf("Reg%d", k)
	rd := func(call int64, err error, vals map[string]int32) {
		ret := h.now()
		if err != nil {
			return
		}
		for n, v := range vals {
			h.add(n, g, regIn{}, v, call, ret)
			t.Count("register_reads", 1)
		}
	}
	wr := func(call int64, err error, vals map[string]int32) {
		ret := h.now()
		if err != nil {
			return
		}
		for n, v := range vals {
			h.add(n, g, regIn{true, v}, 0, call, ret)
			t.Count("register_writes", 1)
		}
	}
	call := h.now()
	switch r.IntN(8) {
	case 0:
		var v int32
		err := c.Read(name, &v)
		rd(call, err, map[string]int32{name: v})
		return "Read", err
	case 1:
		v, err := c.Read_single(name, gologix.CIPTypeDINT, 1)
		x, _ := v.(int32)
		rd(call, err, map[string]int32{name: x})
		return "Read_single", err
	case 2:
		v, err := c.ReadList([]string{"Reg0", "Reg3", name}, []any{int32(0), int32(0), int32(0)}, []int{1, 1, 1})
		if err == nil && len(v) == 3 {
			a, ok1 := v[0].(int32)
			b, ok2 := v[1].(int32)
			if !ok1 || !ok2 {
				return "ReadList", fmt.Errorf("values %v", v)
			}
			rd(call, err, map[string]int32{"Reg0": a, "Reg3": b})
		}
		return "ReadList", err
	case 3:
		m := map[string]any{"Reg1": int32(0), "Reg2": int32(0)}
		err := c.ReadMap(m)
		if err == nil {
			a, ok1 := m["Reg1"].(int32)
			b, ok2 := m["Reg2"].(int32)
			if !ok1 || !ok2 {
				return "ReadMap", fmt.Errorf("values %v", m)
			}
			rd(call, err, map[string]int32{"Reg1": a, "Reg2": b})
		}
		return "ReadMap", err
	case 4:
		var m c06Regs
		err := c.ReadMulti(&m)
		rd(call, err, map[string]int32{"Reg0": m.A, "Reg1": m.B, "Reg2": m.C})
		return "ReadMulti", err
	case 5:
		v := next()
		err := c.Write(name, v)
		wr(call, err, map[string]int32{name: v})
		return "Write", err
	case 6:
		a, b := next(), next()
		err := c.WriteMap(map[string]any{"Reg0": a, "Reg3": b})
		wr(call, err, map[string]int32{"Reg0": a, "Reg3": b})
		return "WriteMap", err
	default:
		m := c06Regs{next(), next(), next()}
		err := c.WriteMulti(m)
		wr(call, err, map[string]int32{"Reg0": m.A, "Reg1": m.B, "Reg2": m.C})
		return "WriteMulti", err
	}
}

func addRegs(p *plc.PLC) {
	for i := 0; i < 4; i++ {
		p.Add(&plc.Tag{Name: fmt.Sprintf("Reg%d", i), Type: plc.DINT, Data: make([]byte, 4)})
	}
}

// wireOrder hashes the order in which the requests of several goroutines reached the controller.
func wireOrder(p *plc.PLC) uint64 {
	h := uint64(14695981039346656037)
	for _, q := range p.Requests(1 << 20) {
		for _, b := range append([]byte{q.Service}, q.PathRaw...) {
			h = (h ^ uint64(b)) * 1099511628211
		}
	}
	return h
}

func wireClean(t *rt.T, p *plc.PLC) {
	if n := p.Pipelined.Load(); n != 0 {
		t.Fail("overlap", "%d requests were sent while another request of the same connection was unanswered", n)
	}
	p.Lock()
	dup := p.SeqDup
	p.Unlock()
	if dup != 0 {
		t.Fail("sequence", "%d consecutive requests carried the same sequence count", dup)
	}
	for _, e := range p.WireErrors() {
		t.Fail("wire", "%s", e)
		break
	}
	for _, cn := range p.OpenConns() {
		seen := map[uint16]int{}
		for i, s := range cn.Seqs {
			if j, ok := seen[s]; ok && i-j < 20000 {
				t.Fail("sequence", "requests %d and %d of a connection carry the sequence count %d", j, i, s)
				break
			}
			seen[s] = i
		}
	}
}

func c06Mix(t *rt.T, regs bool) {
	w := newOpWorld(t)
	p := w.p
	addRegs(p)
	firmware := byte(20)
	if t.R.IntN(3) == 0 {
		firmware = 32
	}
	p.SetFirmware(firmware)
	G := []int{2, 3, 4, 8, 16}[t.R.IntN(5)]
	N := 40
	if t.Tier == "thorough" {
		N = 90
	}
	if regs {
		N = 400 / G
	}
	if t.R.IntN(3) == 0 {
		p.Lock()
		p.FragBytes = func(total, off int) int { return 400 }
		p.Unlock()
	}
	c := newClient(p)
	c.ConnectionSize = []uint16{4000, 511, 1000, 40000}[t.R.IntN(4)]
	if t.R.IntN(2) == 0 {
		c.KeepAliveAutoStart = true
		c.KeepAliveFrequency = 3 * time.Millisecond
	}
	// discovery goes on at the same time now and then
	discover := !regs && t.R.IntN(2) == 0
	c.KeepAlivePollTags = discover
	if err := c.Connect(); err != nil {
		t.Fail("connect", "%v", err)
		return
	}
	t.Cleanup(func() { c.Disconnect() })
	if firmware == 32 && t.R.IntN(2) == 0 {
		if err := c.ListAllTags(0); err != nil {
			t.Fail("discovery", "%v", err)
			return
		}
	}
	// the controller takes its time now and then, so that callers pile up
	slow := t.R.IntN(3)
	var slowN atomic.Int64
	p.Lock()
	p.OnReq = func(q *plc.Req) *plc.Action {
		if slow > 0 && !q.In && slowN.Add(1)%int64(7*slow) == 0 {
			return &plc.Action{Delay: time.Duration(200*slow) * time.Microsecond}
		}
		return nil
	}
	p.Unlock()
	h := newHistory()
	var val atomic.Int32
	list := opsOf("read", "readfrag", "readmulti", "attr", "udp")
	type call struct{ a, b int64 }
	calls := make([][]call, G)
	names := make([][]string, G)
	var wg sync.WaitGroup
	seeds := make([]uint64, G)
	for g := range seeds {
		seeds[g] = t.R.Uint64()
	}
	for g := 0; g < G; g++ {
		p.Add(&plc.Tag{Name: fmt.Sprintf("Own%d", g), Type: plc.DINT, Data: make([]byte, 4)})
	}
	begin := make(chan struct{})
	for g := 0; g < G; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[g], 1))
			own := int32(0)
			<-begin
			for i := 0; i < N && !t.Failed(); i++ {
				if r.IntN(6) == 0 {
					time.Sleep(time.Duration(r.IntN(300)) * time.Microsecond)
				}
				a := h.now()
				name := ""
				var err error
				var bad string
				k := r.IntN(10)
				switch {
				case regs || k < 3:
					name, err = regCall(t, c, h, g, r, func() int32 { return val.Add(1) })
				case k == 3:
					// a tag nobody else writes
					tag := fmt.Sprintf("Own%d", g)
					if r.IntN(2) == 0 {
						name = "Write-own"
						own = int32(r.Uint32())
						err = c.Write(tag, own)
					} else {
						name = "Read-own"
						v := own + 1
						if err = c.Read(tag, &v); err == nil && v != own {
							bad = fmt.Sprintf("%s reads %d, its only writer wrote %d", tag, v, own)
						}
					}
				case k == 5 && discover && r.IntN(3) == 0:
					name, err, bad = c06Discover(w, c, r)
					if err == nil {
						t.Count("discoveries", 1)
					}
				case k == 4:
					name = "Read-missing"
					v := int32(1)
					if e := c.Read(fmt.Sprintf("NoSuchTag%d", g), &v); e == nil || v != 1 {
						bad = fmt.Sprintf("reading a tag that does not exist gave %d, %v", v, e)
					}
				default:
					o := list[r.IntN(len(list))]
					name = o.Name
					err, bad = o.Run(w, c, r)
				}
				b := h.now()
				calls[g] = append(calls[g], call{a, b})
				names[g] = append(names[g], name)
				t.Count("calls", 1)
				if err != nil {
					t.Fail("error:"+name, "%s by one of %d goroutines: %v", name, G, err)
					return
				}
				if bad != "" {
					t.Fail("value:"+name, "%s by one of %d goroutines: %s", name, G, bad)
					return
				}
			}
		}()
	}
	close(begin)
	if !t.Within(120*time.Second, "calls", wg.Wait) {
		return
	}
	for g := range calls {
		for i, x := range calls[g] {
			over := 0
			for g2 := range calls {
				if g2 == g {
					continue
				}
				for _, y := range calls[g2] {
					if y.a < x.b && x.a < y.b {
						over++
						break
					}
				}
			}
			if over > 0 {
				t.Count("overlapping_calls", 1)
			}
			t.Eval(fmt.Sprintf("%s/%d/%d", names[g][i], G, over))
		}
	}
	if discover {
		if err := c.ListAllTags(0); err != nil {
			t.Fail("discovery", "the last of several: %v", err)
		} else if bad := w.inventory(c); bad != "" {
			t.Fail("discovery", "%s", bad)
		}
	}
	t.Count("orders_seen", 1)
	t.Eval(fmt.Sprintf("order/%x", wireOrder(p)))
	h.check(t, "linearizability")
	wireClean(t, p)
}

// c06Clients runs several clients in one process: they share nothing but the controller.
func c06Clients(t *rt.T) {
	w := newOpWorld(t)
	p := w.p
	addRegs(p)
	G := 2 + t.R.IntN(5)
	h := newHistory()
	var val atomic.Int32
	list := opsOf("read", "readmulti", "attr")
	var wg sync.WaitGroup
	for g := 0; g < G; g++ {
		r := rand.New(rand.NewPCG(t.R.Uint64(), 2))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c := newClient(p)
			c.ConnectionSize = []uint16{4000, 511}[g%2]
			for round := 0; round < 2; round++ {
				if err := c.Connect(); err != nil {
					t.Fail("connect", "client %d: %v", g, err)
					return
				}
				for i := 0; i < 40 && !t.Failed(); i++ {
					var err error
					var bad, name string
					if r.IntN(2) == 0 {
						name, err = regCall(t, c, h, g, r, func() int32 { return val.Add(1) })
					} else {
						o := list[r.IntN(len(list))]
						name = o.Name
						err, bad = o.Run(w, c, r)
					}
					t.Count("calls", 1)
					t.Eval(fmt.Sprintf("client/%s/%d", name, G))
					if err != nil || bad != "" {
						t.Fail("client:"+name, "%s of one of %d clients: %v %s", name, G, err, bad)
						return
					}
				}
				if err := c.Disconnect(); err != nil {
					t.Fail("disconnect", "client %d: %v", g, err)
					return
				}
			}
		}()
	}
	if !t.Within(120*time.Second, "clients", wg.Wait) {
		return
	}
	h.check(t, "linearizability")
	wireClean(t, p)
	if n := len(p.OpenConns()); n != 0 {
		t.Fail("leftover", "%d connections stay open at the controller", n)
	}
}

// c06Discover is a discovery call, the result of which is what it would be without the other callers.
func c06Discover(w *opWorld, c *gologix.Client, r *rand.Rand) (name string, err error, bad string) {
	switch r.IntN(5) {
	case 0:
		return "ListAllTags", c.ListAllTags(0), ""
	case 1:
		return "ListAllPrograms", c.ListAllPrograms(), ""
	case 2:
		k, err := c.ListSubTags(&gologix.KnownProgram{Name: "Main", ID: 0x51}, 0)
		if err == nil && len(k) != 2 {
			bad = fmt.Sprintf("Main has %d tags, not 2", len(k))
		}
		return "ListSubTags", err, bad
	case 3:
		u, err := c.ListMembers(uint32(w.mix.ID))
		if err == nil {
			bad = memberNames(u, w.mix)
		}
		return "ListMembers", err, bad
	}
	for _, o := range opsOf("table") {
		if o.Name == "DataTable" {
			err, bad := o.Run(w, c, r)
			return o.Name, err, bad
		}
	}
	return "none", nil, ""
}
