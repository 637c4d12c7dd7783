package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C09",
		Rule: "each evaluation is one client call during which every frame the controller model received was taken apart (encapsulation length, items, path sizes, element counts, data lengths, handles, sequence counts) and its service compared with what the call stands for; " +
			"non-trivial = distinct (call, connection size, services received, size class of the request)",
		Assumptions: []string{"a call that would need a frame longer than its length fields can express must be refused"},
		Cases:       c09Cases,
		MinEvents:   []string{"frames", "calls", "oversized_calls", "sequences", "random_generic", "wraps"},
	})
}

func c09Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 70, 1200); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("calls-%d", i), Run: c09Calls})
	}
	for i := 0; i < tiered(tier, 7, 200); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("generic-%d", i), Run: c09Generic})
	}
	for i := 0; i < tiered(tier, 1, 12); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("sequence-%d", i), Run: c09Sequence})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("wrap-%d", i), Run: c09Wrap})
	}
	for _, n := range c09Big {
		cs = append(cs, rt.Case{Name: "big-" + n.name, Run: func(t *rt.T) { c09BigCase(t, n.name, n.run) }})
	}
	return cs
}

// c09Allowed says which services an operation may use.
func c09Allowed(o op, q *plc.Req) bool {
	path := plc.PathString(q.Path)
	firmware := q.Service == 0x0E && path == "/C1/I1/A4" && len(q.Data) == 0
	if q.Cmd == plc.CmdRRData {
		return false
	}
	switch o.Kind {
	case "read", "readfrag":
		return firmware || q.Service == 0x4C || q.Service == 0x52
	case "readmulti":
		return firmware || !q.In && q.Service == 0x0A && path == "/C2/I1" || q.Service == 0x4C || q.Service == 0x52
	case "write":
		return firmware || q.Service == 0x4D
	case "writemulti":
		return firmware || !q.In && q.Service == 0x0A && path == "/C2/I1" || q.Service == 0x4D
	case "table":
		return firmware || strings.HasPrefix(path, "/C178/I")
	}
	switch o.Name {
	case "GetAttrSingle":
		return q.Service == 0x0E
	case "GetAttrList":
		return q.Service == 3 && path == "/C1/I1"
	case "GetControllerPropList":
		return q.Service == 3 && path == "/C172/I1"
	case "GenericCIPMessage":
		return true
	case "GetTemplateInstanceAttr":
		return q.Service == 3 && strings.HasPrefix(path, "/C108/I")
	case "ListAllTags", "ListAllPrograms", "ListSubTags", "ListMembers":
		return firmware || q.Service == 0x55 && (strings.HasPrefix(path, "/C107/I") || strings.HasPrefix(path, "/C104/I")) ||
			(q.Service == 3 || q.Service == 0x4C) && strings.HasPrefix(path, "/C108/I")
	case "ListIdentity":
		return q.Cmd == plc.CmdListIdentity
	case "ListServices":
		return q.Cmd == plc.CmdListServices
	}
	return false
}

func c09Clean(t *rt.T, p *plc.PLC, what string) bool {
	if e := p.WireErrors(); len(e) > 0 {
		t.Fail("wire", "%s: %s", what, e[0])
		return false
	}
	p.Lock()
	defer p.Unlock()
	if p.SeqDup != 0 {
		t.Fail("sequence", "%s: a sequence count was repeated", what)
		return false
	}
	if len(p.TooBig) > 0 {
		t.Fail("size", "%s: %s", what, p.TooBig[0])
		return false
	}
	return true
}

func c09Calls(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	size := []uint16{0, 500, 300, 504, 511, 512, 4000, 65535}[r.IntN(8)]
	if r.IntN(3) == 0 {
		p.SetFirmware(32)
	}
	c := dial(t, p, size)
	if c == nil {
		return
	}
	all := ops()
	for i := 0; i < 60 && !t.Failed(); i++ {
		o := all[r.IntN(len(all))]
		if i < len(all) {
			o = all[(i+int(r.Uint32()%1))%len(all)]
		}
		w.shuffle(r)
		seen := map[string]bool{}
		wrong := ""
		n := 0
		h := func(q *plc.Req) *plc.Action {
			n++
			seen[fmt.Sprintf("%x.%x", q.Cmd, q.Service)] = true
			if wrong == "" && !c09Allowed(o, q) {
				wrong = fmt.Sprintf("command %#x service %#x path %s data %x", q.Cmd, q.Service, plc.PathString(q.Path), q.Data)
			}
			return nil
		}
		p.Lock()
		p.OnReq, p.OnCmd = h, h
		p.Unlock()
		err, bad := o.Run(w, c, r)
		p.Lock()
		p.OnReq, p.OnCmd = nil, nil
		if wrong != "" {
			t.Fail("service:"+o.Name, "%s sent %s", o.Name, wrong)
		}
		t.Count("frames", n)
		p.Unlock()
		t.Count("calls", 1)
		t.Eval(fmt.Sprintf("%s %d %v", o.Name, size, rt.SortedKeys(seen)))
		if err != nil || bad != "" {
			t.Fail("call:"+o.Name, "%s on a connection of %d: %v %s", o.Name, size, err, bad)
		}
		if n == 0 {
			t.Fail("nothing:"+o.Name, "%s sent nothing", o.Name)
		}
		c09Clean(t, p, o.Name)
	}
}

// c09Generic sends messages of every size.
func c09Generic(t *rt.T) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	c := dial(t, p, 65535)
	if c == nil {
		return
	}
	for i := 0; i < 150 && !t.Failed(); i++ {
		svc := byte(0x10 + r.IntN(0x60))
		data := make([]byte, []int{r.IntN(4), r.IntN(300), r.IntN(3000), r.IntN(60000)}[r.IntN(4)])
		for k := range data {
			data[k] = byte(r.Uint32())
		}
		class, inst := uint32(0x300+r.IntN(0xFC00)), r.Uint32()>>r.IntN(32)
		path := append(append([]byte{}, gologix.CIPClass(class).Bytes()...), gologix.CIPInstance(inst).Bytes()...)
		back := make([]byte, r.IntN(300))
		for k := range back {
			back[k] = byte(r.Uint32())
		}
		var got *plc.Req
		p.Lock()
		p.OnReq = func(q *plc.Req) *plc.Action {
			got = q
			return &plc.Action{Reply: &plc.Reply{Data: back}}
		}
		p.Unlock()
		it, err := c.GenericCIPMessage(gologix.CIPService(svc), path, data)
		p.Lock()
		p.OnReq = nil
		p.Unlock()
		t.Count("random_generic", 1)
		t.Eval(fmt.Sprintf("generic %d %d %x", len(data)/100, len(path), svc))
		if err != nil {
			t.Fail("generic", "service %#x with %d bytes: %v", svc, len(data), err)
			return
		}
		if got == nil || got.Service != svc || !bytes.Equal(got.PathRaw, path) || !bytes.Equal(got.Data, data) || !got.Connected {
			t.Fail("generic-sent", "service %#x path %x with %d bytes arrived as %+v", svc, path, len(data), got)
			return
		}
		if !bytes.Equal(it.Rest(), back) {
			t.Fail("generic-back", "service %#x: reply of %d bytes differs", svc, len(back))
			return
		}
		c09Clean(t, p, "GenericCIPMessage")
	}
}

// c09Sequence has another client make exactly as many requests as there are sequence counts between two requests.
func c09Sequence(t *rt.T) {
	w := newOpWorld(t)
	w2 := newOpWorld(t)
	w2.p.Lock()
	w2.p.KeepLog = false
	w2.p.Unlock()
	a, b := dial(t, w.p, 0), dial(t, w2.p, 0)
	if a == nil || b == nil {
		return
	}
	var v int32
	for _, others := range []int{65535, 0, 1} {
		a.Read("D1", &v)
		for i := 0; i < others; i++ {
			b.Read("D1", &v)
		}
		x := t.R.Int32()
		w.p.Poke("D1", 0, []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)})
		if err := a.Read("D1", &v); err != nil || v != x {
			t.Fail("stale", "D1 is %d, read %d (%v) after %d requests of another client", x, v, err, others)
		}
		t.Count("sequences", 1)
		t.Eval(fmt.Sprintf("others %d", others))
		if !c09Clean(t, w.p, fmt.Sprintf("two reads with %d requests of another client between them", others)) {
			return
		}
	}
}

// c09Wrap uses every sequence count at least once on one connection.
func c09Wrap(t *rt.T) {
	w := newOpWorld(t)
	p := w.p
	p.Lock()
	p.KeepLog = false
	p.Unlock()
	c := dial(t, p, 0)
	if c == nil {
		return
	}
	var v int32
	for i := 0; i < 66500; i++ {
		if err := c.Read("D1", &v); err != nil {
			t.Fail("read", "read %d on one connection: %v", i, err)
			return
		}
	}
	t.Count("wraps", 1)
	t.Eval("wrap")
	c09Clean(t, p, "66500 reads")
	cs := p.OpenConns()
	if len(cs) == 1 {
		for i := 1; i < len(cs[0].Seqs); i++ {
			if cs[0].Seqs[i] == cs[0].Seqs[i-1] {
				t.Fail("sequence", "requests %d and %d have sequence count %d", i-1, i, cs[0].Seqs[i])
				return
			}
		}
	}
}

func names(n, ln int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("T%0*d", ln-1, i)
	}
	return out
}

// calls that need more than their length fields can say
var c09Big = []struct {
	name string
	run  func(w *opWorld, c *gologix.Client, r *rand.Rand) (err error, mayWork bool)
}{
	{"write-slice", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{16000, 16380, 16384, 16400, 20000, 32768, 65535, 65536, 65537, 70000, 131073}[r.IntN(11)]
		return c.Write("Huge", make([]int32, n)), n <= 16000
	}},
	{"write-bytes", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{64000, 65500, 65519, 65524, 65530, 65535, 65536, 65537, 65550, 131072}[r.IntN(10)]
		return c.Write("HugeB", make([]byte, n)), n <= 64000
	}},
	{"write-strings", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{700, 744, 745, 750, 1000, 66000}[r.IntN(6)]
		return c.Write("HugeS", make([]string, n)), n <= 700
	}},
	{"read-slice", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{65535, 65536, 65537, 70000, 131072}[r.IntN(5)]
		v := make([]int32, n)
		for i := range v {
			v[i] = -7
		}
		err := c.Read("Huge", v)
		if err == nil {
			b := w.p.Peek("Huge")
			for i := range v {
				if v[i] != int32(uint32(b[4*i])|uint32(b[4*i+1])<<8|uint32(b[4*i+2])<<16|uint32(b[4*i+3])<<24) {
					return nil, false
				}
			}
		}
		return err, true
	}},
	{"read-list", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{65536, 65537, 70000, 131073, -1, -65535}[r.IntN(6)]
		_, err := c.ReadList([]string{"D1", "Huge", "D2"}, []any{int32(0), int32(0), int32(0)}, []int{1, n, 1})
		return err, false
	}},
	{"attributes", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{30000, 32750, 32768, 40000, 65536, 65537, 70000}[r.IntN(7)]
		_, err := c.GetAttrList(1, 1, make([]gologix.CIPAttribute, n)...)
		return err, n <= 32750
	}},
	{"generic-data", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{64000, 65500, 65520, 65530, 65536, 70000, 131072}[r.IntN(7)]
		_, err := c.GenericCIPMessage(0x4B, []byte{0x20, 0x67, 0x24, 1}, make([]byte, n))
		return err, n <= 64000
	}},
	{"generic-path", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{500, 510, 512, 514, 600, 1022, 1024, 131072}[r.IntN(8)]
		_, err := c.GenericCIPMessage(0x4B, bytes.Repeat([]byte{0x28, 1}, n/2), []byte{1})
		return err, n <= 510
	}},
	{"long-name", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{254, 255, 256, 257, 300, 500, 509, 600, 65536}[r.IntN(9)]
		var v int32
		return c.Read(strings.Repeat("N", n), &v), false
	}},
	{"deep-name", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{10, 60, 63, 64, 65, 80, 200}[r.IntN(7)]
		var v int32
		return c.Read(strings.Repeat("Na[70000].", n)+"X", &v), false
	}},
	{"write-map", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		n := []int{16000, 16384, 20000, 65537}[r.IntN(4)]
		return c.WriteMap(map[string]any{"D1": int32(5), "Huge": make([]int32, n)}), n <= 16000
	}},
	{"list-from", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool) {
		err := c.ListAllTags([]uint32{0x10000, 0xFFFF, 0x100, 0xFF, 0xFFFFFFFF}[r.IntN(5)])
		return err, true
	}},
}

func c09BigCase(t *rt.T, name string, run func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, bool)) {
	r := t.R
	w := newOpWorld(t)
	p := w.p
	huge := make([]byte, 4*140000)
	for i := range huge {
		huge[i] = byte(1 + r.IntN(255))
	}
	p.Add(&plc.Tag{Name: "Huge", Type: plc.DINT, Dims: []int{140000}, Data: huge})
	p.Add(&plc.Tag{Name: "HugeB", Type: plc.USINT, Dims: []int{140000}, Data: make([]byte, 140000)})
	p.Add(&plc.Tag{Name: "HugeS", Type: plc.STRUCT, UDT: plc.StringUDT, Dims: []int{67000}, Data: make([]byte, 88*67000)})
	p.Generic = func(q *plc.Req) (plc.Reply, bool) {
		if q.Service == 0x4B {
			return plc.Reply{Data: []byte{1}}, true
		}
		return plc.Reply{}, false
	}
	for i := 0; i < tiered(t.Tier, 12, 60) && !t.Failed(); i++ {
		c := newClient(p)
		c.ConnectionSize = 65535
		if err := c.Connect(); err != nil {
			t.Fail("connect", "%v", err)
			return
		}
		c.SocketTimeout = 2 * time.Second // a frame that announces too much would stall
		var err error
		may := false
		if !t.Within(100*time.Second, "big:"+name, func() { err, may = run(w, c, r) }) {
			return
		}
		t.Count("oversized_calls", 1)
		t.Eval(fmt.Sprintf("big %s %v %v", name, err == nil, may))
		if err == nil && !may {
			t.Fail("accepted:"+name, "a call that needs more than its length fields can say returned nil")
		}
		if err != nil && may && name != "read-slice" && name != "list-from" && name != "attributes" {
			t.Fail("refused:"+name, "%v", err)
		}
		if e := p.WireErrors(); len(e) > 0 {
			t.Fail("wire:"+name, "%s (the call returned %v)", e[0], err)
		}
		if name == "read-list" {
			p.Lock()
			p.TooBig = nil // one tag alone may not fit a reply
			p.Unlock()
		}
		if e := p.SizeErrors(); len(e) > 0 {
			t.Fail("size:"+name, "%s (the call returned %v)", e[0], err)
		}
		c.SocketTimeout = 30 * time.Second
		if !c.Connected() {
			t.Fail("lost:"+name, "the call (%v) cost the connection", err)
		} else if err, bad := opNamed("Read-int32").Run(w, c, r); err != nil || bad != "" {
			t.Fail("after:"+name, "a read afterwards: %v %s", err, bad)
		}
		c.Disconnect()
		c09Clean(t, p, name)
	}
}
