package checks

import (
	"fmt"
	"reflect"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C04",
		Rule: "each evaluation is one read that the controller model answers in fragments (or in faulty fragments); a monitor over the request log checks that the i-th follow-up asks for exactly the bytes received so far with the same path and count, and the delivered value is compared with the controller's memory; " +
			"non-trivial = distinct (API, type, element class, cut pattern, number of fragments class) or (fault kind, position)",
		Assumptions: []string{"the controller model (harness/plc) fragments as a Logix controller does"},
		Cases:       c04Cases,
		MinEvents:   []string{"fragmented_reads", "fragments", "faults"},
	})
}

func c04Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 300, 6000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("cuts-%d", i), Run: c04Cuts})
	}
	for i := 0; i < tiered(tier, 160, 3200); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("faults-%d", i), Run: c04Faults})
	}
	cs = append(cs, rt.Case{Name: "by-connection-size", Run: c04Size})
	cs = append(cs, rt.Case{Name: "structures", Run: c04Structs})
	cs = append(cs, rt.Case{Name: "inside-multi", Run: c04Multi})
	return cs
}

// cutter draws a way of cutting.
func cutter(t *rt.T, sz int) (string, func(total, off int) int) {
	r := t.R
	switch r.IntN(7) {
	case 0:
		return "byte", func(total, off int) int { return 1 }
	case 1:
		n := 1 + r.IntN(9)
		return "fixed-small", func(total, off int) int { return n }
	case 2:
		n := sz * (1 + r.IntN(6))
		return "aligned", func(total, off int) int { return n }
	case 3:
		return "all-but-one", func(total, off int) int {
			if off == 0 {
				return total - 1
			}
			return 1
		}
	case 4:
		return "halves", func(total, off int) int { return max(1, (total-off)/2) }
	case 5:
		return "one-then-rest", func(total, off int) int {
			if off == 0 {
				return 1
			}
			return total
		}
	}
	seed := r.Uint64()
	return "random", func(total, off int) int {
		x := rt.NewRand(seed, fmt.Sprint(off))
		return 1 + x.IntN(max(1, min(total, 700)))
	}
}

// fragLog checks the requests of one read: first a read, then fragment reads at the offsets received so far.
func fragLog(t *rt.T, what string, reqs []*plc.Req, received []int) int {
	off := 0
	n := 0
	var first *plc.Req
	for _, r := range reqs {
		if !r.Connected || (r.Service != 0x4C && r.Service != 0x52) {
			continue
		}
		if first == nil {
			first = r
			if r.Service != 0x4C {
				off = 0
			}
			n++
			continue
		}
		if r.Service != 0x52 || len(r.Data) != 6 {
			t.Fail("follow-up-service", "%s: follow-up %d is service %#x with data %x", what, n, r.Service, r.Data)
			return n
		}
		if n-1 < len(received) {
			off += received[n-1]
		}
		if got := int(plc.LE.Uint32(r.Data[2:])); got != off {
			t.Fail("follow-up-offset", "%s: follow-up %d asks for offset %d, %d bytes were received so far", what, n, got, off)
			return n
		}
		if string(r.PathRaw) != string(first.PathRaw) {
			t.Fail("follow-up-path", "%s: follow-up %d asks for %s instead of %s", what, n, plc.PathString(r.Path), plc.PathString(first.Path))
			return n
		}
		if plc.LE.Uint16(r.Data) != plc.LE.Uint16(first.Data) {
			t.Fail("follow-up-count", "%s: follow-up %d asks for %d elements instead of %d", what, n, plc.LE.Uint16(r.Data), plc.LE.Uint16(first.Data))
			return n
		}
		n++
	}
	return n
}

func fragClass(n int) string {
	switch {
	case n <= 2:
		return fmt.Sprint(n)
	case n < 10:
		return "3-9"
	case n < 100:
		return "10-99"
	}
	return "100+"
}

func c04Cuts(t *rt.T) {
	w := newWorld(t)
	r := t.R
	c := dial(t, w.p, []uint16{0, 500, 4000, 65000}[r.IntN(4)])
	if c == nil {
		return
	}
	for i := 0; i < 12 && !t.Failed(); i++ {
		a := atoms[1+r.IntN(len(atoms)-1)] // not BOOL
		n := 1 + r.IntN(60)
		if r.IntN(4) == 0 {
			n = 200 + r.IntN(2000)
		}
		if c.ConnectionSize > 60000 && r.IntN(2) == 0 {
			n = 4000 + r.IntN(20000)
		}
		sz := plc.Size(a.Code)
		pad := r.IntN(4)
		tg := w.p.Add(&plc.Tag{Name: w.name(), Type: a.Code, Dims: []int{n + pad + 2}, Data: randData(r, a.Code, n+pad+2)})
		mem := tg.Data[pad*sz : (pad+n)*sz]
		name := fmt.Sprintf("%s[%d]", tg.Name, pad)
		pat, cut := cutter(t, sz)
		if n > 300 && pat == "byte" {
			pat, cut = "fixed-30", func(int, int) int { return 31 }
		}
		if n >= 4000 && r.IntN(4) > 0 {
			most := []int{1000, 30000, 64000, 65000}[r.IntN(4)]
			pat, cut = fmt.Sprint("large-", most), func(int, int) int { return most - most%sz }
		}
		received := []int{}
		w.p.Lock()
		w.p.FragBytes = func(total, off int) int {
			k := cut(total, off)
			lim := int(c.ConnectionSize) - 20
			if k > lim {
				k = lim
			}
			received = append(received, min(k, total-off))
			return k
		}
		w.p.Unlock()
		from := w.p.LogLen()
		var got, want any
		var err error
		api := "Read"
		switch k := r.IntN(5); {
		case k == 0 && a.Code == plc.DWORD:
			api = "Read[]bool"
			s := make([]bool, n*32)
			t.Guard(api, func() { err = c.Read(name, s) })
			wb := make([]bool, n*32)
			for i := range wb {
				wb[i] = mem[i/8]>>(i%8)&1 == 1
			}
			got, want = s, wb
		case k <= 1:
			api = "Read_single"
			ct := gologix.CIPType(a.Code)
			if r.IntN(2) == 0 {
				ct = gologix.CIPTypeUnknown
			}
			t.Guard(api, func() { got, err = c.Read_single(name, ct, uint16(n)) })
			if n == 1 {
				want = plc.Value(a.Code, mem)
			} else {
				l := make([]any, n)
				for i := range l {
					l[i] = plc.Value(a.Code, mem[i*sz:])
				}
				want = l
			}
		case k == 2 && a.Code != plc.REAL && a.Code != plc.LREAL:
			api = "Read-bit"
			bit := r.IntN(sz * 8)
			var b bool
			t.Guard(api, func() { err = c.Read(fmt.Sprintf("%s.%d", name, bit), &b) })
			got, want = b, mem[bit/8]>>(bit%8)&1 == 1
			n = 1
		default:
			s := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
			junk(r, s)
			err = readInto(t, c, name, s)
			got, want = s.Interface(), goSlice(a.Code, mem).Interface()
		}
		what := fmt.Sprintf("%s(%q) of %d %s cut %s", api, name, n, a.Name, pat)
		w.p.Lock()
		w.p.FragBytes = nil
		rec := received
		w.p.Unlock()
		k := fragLog(t, what, w.p.Requests(from), rec)
		t.Eval(fmt.Sprintf("%s/%s/%s/%s/%s", api, a.Name, class(n), pat, fragClass(k)))
		t.Count("fragments", k)
		if k > 1 {
			t.Count("fragmented_reads", 1)
		}
		if err != nil {
			t.Fail("fragmented-read-error:"+api, "%s failed after %d fragments %v: %v", what, k, rec, err)
			continue
		}
		if !same(got, want) {
			t.Fail("fragmented-read-value:"+api, "%s (fragments %v) returned %s, controller holds %s", what, rec, show(got), show(want))
		}
	}
	c04After(t, w, c)
}

// c04After: an unfragmented read on the same client still works.
func c04After(t *rt.T, w *world, c *gologix.Client) {
	w.p.Lock()
	w.p.FragBytes = nil
	w.p.OnReq = nil
	w.p.Unlock()
	if !c.Connected() {
		if err := c.Connect(); err != nil {
			t.Fail("reconnect", "cannot connect again: %v", err)
			return
		}
	}
	tg := w.addArray(plc.DINT, 20)
	s := make([]int32, 20)
	err := readInto(t, c, tg.Name, reflect.ValueOf(s))
	if err != nil || !same(s, goSlice(plc.DINT, tg.Data).Interface()) {
		t.Fail("read-after", "a plain read afterwards gave %s, %v; the controller holds %s", show(s), err, show(goSlice(plc.DINT, tg.Data).Interface()))
	}
}

var c04FaultKinds = []string{"status", "status-ext", "status-nodata", "close", "short-final", "long-final", "no-progress", "endless", "type-changed", "repeat-fragment", "truncated-item"}

func c04Faults(t *rt.T) {
	w := newWorld(t)
	r := t.R
	c := newClient(w.p)
	c.SocketTimeout = 2 * time.Second
	if err := c.Connect(); err != nil {
		t.Fail("connect", "%v", err)
		return
	}
	t.Cleanup(func() { c.Disconnect() })
	for i := 0; i < 6 && !t.Failed(); i++ {
		kind := c04FaultKinds[r.IntN(len(c04FaultKinds))]
		a := atoms[1+r.IntN(len(atoms)-1)]
		sz := plc.Size(a.Code)
		n := 8 + r.IntN(40)
		tg := w.p.Add(&plc.Tag{Name: w.name(), Type: a.Code, Dims: []int{n}, Data: randData(r, a.Code, n)})
		step := max(1, n*sz/(3+r.IntN(4)))
		at := 1 + r.IntN(2) // which fragment fails (0 is the first reply)
		if kind == "no-progress" || kind == "endless" {
			at = r.IntN(3)
		}
		cnt := 0
		code := []byte{1, 2, 3, 4, 5, 8, 0x0B, 0x0F, 0x13, 0x1E, 0xFF}[r.IntN(11)]
		hdr := []byte{a.Code, 0}
		mem := tg.Data
		w.p.Lock()
		w.p.OnReq = func(q *plc.Req) *plc.Action {
			if q.Service != 0x4C && q.Service != 0x52 {
				return nil
			}
			off := 0
			if q.Service == 0x52 && len(q.Data) == 6 {
				off = int(plc.LE.Uint32(q.Data[2:]))
			}
			k := cnt
			cnt++
			end := min(off+step, len(mem))
			off = min(off, len(mem))
			st := byte(0)
			if end < len(mem) {
				st = 6
			}
			dat := append(append([]byte{}, hdr...), mem[off:end]...)
			if k < at {
				return &plc.Action{Reply: &plc.Reply{Status: st, Data: dat}}
			}
			switch kind {
			case "status":
				return &plc.Action{Reply: &plc.Reply{Status: code, Data: dat}}
			case "status-nodata":
				return &plc.Action{Reply: &plc.Reply{Status: code}}
			case "status-ext":
				return &plc.Action{Reply: &plc.Reply{Status: code, Ext: []uint16{0x2105, 0x1234}[:1+r.IntN(2)]}}
			case "close":
				return &plc.Action{Close: true}
			case "short-final":
				return &plc.Action{Reply: &plc.Reply{Status: 0, Data: dat[:len(dat)-min(len(dat)-2, 1+r.IntN(sz))]}}
			case "long-final":
				d := append(append([]byte{}, hdr...), mem[off:]...)
				return &plc.Action{Reply: &plc.Reply{Status: 0, Data: append(d, make([]byte, 1+r.IntN(9))...)}}
			case "no-progress":
				return &plc.Action{Reply: &plc.Reply{Status: 6, Data: hdr}}
			case "endless":
				return &plc.Action{Reply: &plc.Reply{Status: 6, Data: append(append([]byte{}, hdr...), make([]byte, step)...)}}
			case "type-changed":
				d := append([]byte{}, dat...)
				d[0] = map[bool]byte{true: plc.DINT, false: plc.INT}[a.Code != plc.DINT && a.Code != plc.UDINT]
				if d[0] == a.Code {
					d[0] = plc.SINT
				}
				if k > at {
					d[0] = a.Code
				}
				return &plc.Action{Reply: &plc.Reply{Status: st, Data: d}}
			case "repeat-fragment": // claims completion one step early
				return &plc.Action{Reply: &plc.Reply{Status: 0, Data: append(append([]byte{}, hdr...), mem[:min(step, len(mem)-off-1)]...)}}
			case "truncated-item":
				return &plc.Action{Reply: &plc.Reply{Status: st, Data: dat[:1]}}
			}
			return nil
		}
		w.p.Unlock()
		s := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
		junk(r, s)
		before := reflect.MakeSlice(s.Type(), n, n)
		reflect.Copy(before, s)
		var err error
		var v any
		single := r.IntN(3) == 0
		ok := t.Within(20*time.Second, "fault/"+kind, func() {
			t.Guard("fault/"+kind, func() {
				if single {
					v, err = c.Read_single(tg.Name, gologix.CIPType(a.Code), uint16(n))
				} else {
					err = c.Read(tg.Name, s.Interface())
				}
			})
		})
		t.Eval(fmt.Sprintf("fault/%s/%d/%s/single=%v", kind, at, a.Name, single))
		t.Count("faults", 1)
		if !ok {
			return
		}
		what := fmt.Sprintf("read of %d %s whose fragment %d is faulty (%s, status %#x)", n, a.Name, at, kind, code)
		if err == nil {
			if single {
				t.Fail("faulty-fragment-accepted:"+kind, "%s returned %s (the controller holds %s)", what, show(v), show(goSlice(a.Code, mem).Interface()))
			} else {
				t.Fail("faulty-fragment-accepted:"+kind, "%s filled %s (the controller holds %s)", what, show(s.Interface()), show(goSlice(a.Code, mem).Interface()))
			}
		} else if !single && !same(before.Interface(), s.Interface()) {
			t.Fail("faulty-fragment-wrote:"+kind, "%s failed (%v) but changed the slice from %s to %s", what, err, show(before.Interface()), show(s.Interface()))
		}
		c04After(t, w, c)
	}
}

// c04Size: the controller fragments because the value does not fit the connection.
func c04Size(t *rt.T) {
	for _, size := range []uint16{100, 300, 504, 1000, 4000} {
		w := newWorld(t)
		c := dial(t, w.p, size)
		if c == nil {
			return
		}
		for _, a := range atoms[1:] {
			for _, n := range []int{1, 11, 97, 130, 500, 1600, 5000} {
				sz := plc.Size(a.Code)
				tg := w.p.Add(&plc.Tag{Name: w.name(), Type: a.Code, Dims: []int{n}, Data: randData(t.R, a.Code, n)})
				s := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
				from := w.p.LogLen()
				err := readInto(t, c, tg.Name, s)
				k := 0
				for _, q := range w.p.Requests(from) {
					if q.Service == 0x52 {
						k++
					}
				}
				t.Count("fragments", k)
				if k > 0 {
					t.Count("fragmented_reads", 1)
				}
				t.Eval(fmt.Sprintf("size/%d/%s/%d/%s", size, a.Name, n, fragClass(k)))
				expectRead(t, "by-size", fmt.Sprintf("Read(%q, []%s len %d) of %d bytes on a connection of %d bytes", tg.Name, a.Go, n, n*sz, size), err, s.Interface(), goSlice(a.Code, tg.Data).Interface())
				w.p.Remove(tg.Name)
			}
		}
		for _, e := range append(w.p.WireErrors(), w.p.SizeErrors()...) {
			t.Fail("wire", "%s", e)
		}
	}
}

// c04Structs: structures in fragments are delivered exactly or refused.
func c04Structs(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	u := w.addStructTag(staticStructs[2], 4, 0x4321)
	sa := w.addStringArray(6)
	for _, cut := range []int{1, 3, 4, 17, 40, 86, 88, 100, 200} {
		w.p.Lock()
		w.p.FragBytes = func(total, off int) int { return cut }
		w.p.Unlock()
		s := make([]SNest, 3)
		err := readInto(t, c, u.tag.Name+"[1]", reflect.ValueOf(s))
		t.Eval(fmt.Sprintf("struct/%d/err=%v", cut, err != nil))
		t.Count("fragmented_reads", 1)
		want := []SNest{}
		for i := 1; i < 4; i++ {
			want = append(want, u.val[i].Interface().(SNest))
		}
		if err == nil && !same(s, want) {
			t.Fail("struct-fragments", "[]SNest in fragments of %d returned %s, the controller holds %s", cut, show(s), show(want))
		}
		for _, n := range []int{1, 3} {
			l := make([]string, n)
			err = readInto(t, c, sa.Name, reflect.ValueOf(l))
			t.Eval(fmt.Sprintf("STRING/%d/%d/err=%v", n, cut, err != nil))
			ws := []string{}
			for i := 0; i < n; i++ {
				ws = append(ws, plc.GetString(sa.Data[i*88:]))
			}
			if err == nil && !same(l, ws) {
				t.Fail("string-fragments", "[]string len %d in fragments of %d returned %s, the controller holds %s", n, cut, show(l), show(ws))
			}
		}
		c04After(t, w, c)
	}
}

// c04Multi: a partial reply inside a multi-tag read is completed or refused, never delivered short.
func c04Multi(t *rt.T) {
	for round := 0; round < 40 && !t.Failed(); round++ {
		w := newWorld(t)
		c := dial(t, w.p, 0)
		if c == nil {
			return
		}
		a := w.addArray(plc.DINT, 20)
		b := w.addArray(plc.LREAL, 20)
		d := w.addAtomic(plc.DINT)
		cut := []int{1, 4, 6, 8, 40, 79, 100, 150}[t.R.IntN(8)]
		w.p.Lock()
		w.p.FragBytes = func(total, off int) int {
			if total > 8 {
				return cut
			}
			return 0
		}
		w.p.Unlock()
		wa, wb, wd := goSlice(plc.DINT, a.Data).Interface(), goSlice(plc.LREAL, b.Data).Interface(), plc.Value(plc.DINT, d.Data)
		type outT struct {
			A []int32 `gologix:"x"`
		}
		which := round % 3
		var err error
		var got []any
		switch which {
		case 0:
			var l []any
			t.Guard("ReadList", func() {
				l, err = c.ReadList([]string{a.Name, d.Name, b.Name}, []any{[]int32{}, int32(0), []float64{}}, []int{20, 1, 20})
			})
			got = l
		case 1:
			m := map[string]any{a.Name: make([]int32, 20), b.Name: make([]float64, 20), d.Name: int32(0)}
			t.Guard("ReadMap", func() { err = c.ReadMap(m) })
			got = []any{m[a.Name], m[d.Name], m[b.Name]}
		case 2:
			st := reflect.New(reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: reflect.TypeOf([20]int32{}), Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, a.Name))},
				{Name: "D", Type: tI32, Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, d.Name))},
				{Name: "B", Type: reflect.TypeOf([]float64{}), Tag: reflect.StructTag(fmt.Sprintf(`gologix:"%s"`, b.Name))},
			}))
			st.Elem().Field(0).SetZero()
			st.Elem().Field(2).Set(reflect.MakeSlice(reflect.TypeOf([]float64{}), 20, 20))
			t.Guard("ReadMulti", func() { err = c.ReadMulti(st.Interface()) })
			got = []any{st.Elem().Field(0).Slice(0, 0).Interface(), st.Elem().Field(1).Interface(), st.Elem().Field(2).Interface()}
			x := make([]int32, 20)
			reflect.Copy(reflect.ValueOf(x), st.Elem().Field(0))
			got[0] = x
		}
		api := []string{"ReadList", "ReadMap", "ReadMulti"}[which]
		t.Eval(fmt.Sprintf("multi/%s/%d/err=%v", api, cut, err != nil))
		t.Count("fragmented_reads", 1)
		if err == nil {
			if len(got) != 3 || !sameList(got[0], wa) || !same(got[1], wd) || !sameList(got[2], wb) {
				t.Fail("multi-fragments:"+api, "%s with fragments of %d bytes reported success with %s", api, cut, show(got))
			}
		}
		c04After(t, w, c)
	}
}

// sameList accepts a typed slice, []any or (for one element) the bare value.
func sameList(got, want any) bool {
	if same(got, want) {
		return true
	}
	w := reflect.ValueOf(want)
	g := reflect.ValueOf(got)
	if !g.IsValid() || (w.Kind() != reflect.Slice && w.Kind() != reflect.Array) {
		return false
	}
	if g.Kind() == reflect.Slice || g.Kind() == reflect.Array {
		if g.Len() != w.Len() {
			return false
		}
		for i := 0; i < w.Len(); i++ {
			if !same(g.Index(i).Interface(), w.Index(i).Interface()) {
				return false
			}
		}
		return true
	}
	return w.Len() == 1 && same(got, w.Index(0).Interface())
}
