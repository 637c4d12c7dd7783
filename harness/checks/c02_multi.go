package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C02",
		Rule: "each evaluation is one slot of one ReadMulti, ReadMap, ReadList or ReadTagGroup call whose value is compared with the controller model's memory at the requested place (and untagged fields with their earlier value); " +
			"non-trivial = distinct (API, kind and type of the slot, number-of-tags class, number-of-requests class, order of the replies)",
		Assumptions: []string{"the controller model (harness/plc) answers multiple service packets as a Logix controller does", "multi-element values may be delivered as a typed slice or as []any"},
		Cases:       c02Cases,
		MinEvents:   []string{"slots_ok", "calls_split", "reordered_replies", "short_replies"},
	})
	register(&rt.Check{
		ID: "C03",
		Rule: "each evaluation is one multi-tag read or write whose requests, as received by the controller model, are measured: data items against the size negotiated, replies against the size negotiated, services decoded through the offset table, and the multiset of (place, count) requested compared with the tags asked for; " +
			"non-trivial = distinct (API, connection size, number-of-tags class, name length class, number of requests, how full the fullest item was)",
		Assumptions: []string{"a tag that does not fit the connection on its own (name and value within 100 bytes of the size) is not judged"},
		Cases:       c03Cases,
		MinEvents:   []string{"requests_measured", "calls_split", "services_decoded"},
	})
	register(&rt.Check{
		ID: "C12",
		Rule: "each evaluation is one WriteMap or WriteMulti whose effect on the whole memory of the controller model is compared with the prediction; with a rejected or unanswered tag the call must give an error; " +
			"non-trivial = distinct (API, number-of-tags class, number of requests, kinds of values) or (way one tag fails, position)",
		Assumptions: []string{"the controller model (harness/plc) type-checks and stores writes as a Logix controller does"},
		Cases:       c12Cases,
		MinEvents:   []string{"tags_written", "rejections", "calls_split", "nested_fields"},
	})
}

func c02Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 800, 20000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("random-%d", i), Run: c02Random})
	}
	for i := 0; i < tiered(tier, 150, 2500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("many-%d", i), Run: c02Many})
	}
	for i := 0; i < tiered(tier, 120, 2500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("short-%d", i), Run: c02Short})
	}
	for i := 0; i < tiered(tier, 10, 400); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("wide-%d", i), Run: c02Wide})
	}
	cs = append(cs, rt.Case{Name: "targets", Run: c02Targets})
	return cs
}

// slot is one tag of a multi-tag read.
type slot struct {
	name  string
	place string // "tag/offset/count" expected on the wire
	zero  any    // variable of the right Go type (slices pre-allocated)
	elem  any    // element type for ReadList
	elems int
	want  any
	kind  string
	bytes int
}

// slot draws a tag to read together with its expected value.
func (w *world) slot(limit int) (slot, bool) {
	r := w.r
	if len(w.bools) > 0 && r.IntN(10) == 0 {
		tg := w.bools[r.IntN(len(w.bools))]
		n := 1 + r.IntN(tg.Dims[0])
		if n*4 > limit {
			return slot{}, false
		}
		mem := w.p.Peek(tg.Name)
		want := make([]bool, n*32)
		for i := range want {
			want[i] = mem[i/8]>>(i%8)&1 == 1
		}
		return slot{name: recase(r, tg.Name), place: fmt.Sprintf("%s/0/%d", strings.ToLower(tg.Name), n), zero: make([]bool, n*32), want: want, kind: "[]bool", bytes: n * 4}, true
	}
	pl := w.place()
	mem := w.p.Peek(pl.tag)[pl.off:]
	s := slot{name: recase(r, pl.name), elems: 1, kind: pl.kind + "/" + plc.TypeName(pl.typ)}
	at := fmt.Sprintf("%s/%d/", strings.ToLower(pl.tag), pl.off)
	switch {
	case pl.typ == plc.STRUCT && pl.udt == plc.StringUDT:
		n := 1
		if pl.n > 1 && r.IntN(2) == 0 {
			n = 1 + r.IntN(pl.n)
		}
		if n*88 > limit {
			return s, false
		}
		l := make([]string, n)
		for i := range l {
			l[i] = plc.GetString(mem[88*i:])
		}
		s.bytes, s.elem, s.elems = 88*n, "", n
		if n == 1 && r.IntN(3) > 0 {
			s.zero, s.want = "", l[0]
		} else {
			s.zero, s.want = make([]string, n), l
			s.kind += "[]"
		}
		s.place = at + fmt.Sprint(n)
		return s, true
	case pl.typ == plc.STRUCT:
		if pl.goT == nil || pl.udt.Size > limit {
			return s, false
		}
		u := w.udtValue(pl)
		if !u.IsValid() {
			return s, false
		}
		s.zero = reflect.Zero(pl.goT).Interface()
		s.want, s.bytes, s.place = u.Interface(), pl.udt.Size, at+"1"
		s.elem = s.zero
		return s, true
	case pl.bit >= 0:
		s.zero, s.elem = false, false
		s.want, s.bytes, s.place = mem[0]>>pl.bit&1 == 1, 1, at+"1"
		return s, true
	}
	a := atomOf(pl.typ)
	sz := plc.Size(pl.typ)
	if pl.typ != plc.BOOL && pl.typ != plc.REAL && pl.typ != plc.LREAL && r.IntN(5) == 0 {
		bit := r.IntN(sz * 8)
		s.name += fmt.Sprintf(".%d", bit)
		s.kind = "bit/" + a.Name
		s.zero, s.elem, s.want, s.bytes, s.place = false, false, mem[bit/8]>>(bit%8)&1 == 1, sz, at+"1"
		return s, true
	}
	n := 1
	slice := false
	if pl.typ != plc.BOOL && pl.n > 1 && r.IntN(2) == 0 {
		n = 1 + r.IntN(pl.n)
		if n*sz > limit {
			n = max(1, limit/sz)
		}
		slice = true
	}
	s.bytes, s.elems, s.place = n*sz, n, at+fmt.Sprint(n)
	s.elem = reflect.Zero(a.Go).Interface()
	if slice {
		z := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
		s.zero, s.want = z.Interface(), goSlice(pl.typ, mem[:n*sz]).Interface()
		s.kind += "[]" + class(n)
	} else {
		s.zero, s.want = s.elem, plc.Value(pl.typ, mem)
	}
	return s, sz*n <= limit
}

// udtValue finds the Go value of a structure place in the generated values.
func (w *world) udtValue(pl place) reflect.Value {
	for _, u := range w.udts {
		if u.tag.Name != pl.tag {
			continue
		}
		v := u.val[0]
		rest := pl.name[len(u.tag.Name):]
		for rest != "" {
			if rest[0] == '[' {
				e := strings.IndexByte(rest, ']')
				i, _ := strconv.Atoi(rest[1:e])
				if v.Kind() == reflect.Array {
					v = v.Index(i)
				} else {
					v = u.val[i]
				}
				rest = rest[e+1:]
				continue
			}
			rest = rest[1:]
			e := strings.IndexAny(rest, ".[")
			if e < 0 {
				e = len(rest)
			}
			v = v.FieldByName(rest[:e])
			if !v.IsValid() {
				return v
			}
			rest = rest[e:]
		}
		return v
	}
	return reflect.Value{}
}

// multiWorld adds BOOL arrays to a write world.
func multiWorld(t *rt.T) *world {
	w := newWorld(t)
	writeWorld(w)
	w.addBoolArray(1)
	w.addBoolArray(2 + t.R.IntN(5))
	w.addBoolArray(8 + t.R.IntN(20))
	return w
}

func (w *world) slots(n, limit int) []slot {
	l := []slot{}
	seen := map[string]bool{}
	for len(l) < n {
		s, ok := w.slot(limit)
		if !ok || seen[s.name] || len(s.name)+s.bytes > limit {
			continue
		}
		seen[s.name] = true
		l = append(l, s)
	}
	return l
}

func qclass(n int) string {
	switch {
	case n <= 3:
		return fmt.Sprint(n)
	case n < 10:
		return "4-9"
	case n < 50:
		return "10-49"
	case n < 250:
		return "50-249"
	}
	return "250+"
}

var multiAPIs = []string{"ReadMulti", "ReadMultiArgs", "ReadMultiMap", "ReadMap", "ReadList", "ReadTagGroup"}

// multiRead performs one call and returns the values in order of the slots.
func multiRead(t *rt.T, c *gologix.Client, api string, slots []slot) (got []any, err error, ok bool) {
	got = make([]any, len(slots))
	switch api {
	case "ReadMulti", "ReadMultiArgs":
		fs := []reflect.StructField{}
		args := []any{}
		pos := []int{}
		for i, s := range slots {
			if t.R.IntN(4) == 0 {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Free%d", i), Type: []reflect.Type{tI32, tStr, tF64, reflect.TypeOf([]int32{})}[t.R.IntN(4)]})
			}
			pos = append(pos, len(fs))
			nm := s.name
			if api == "ReadMultiArgs" && len(args) < 12 && t.R.IntN(3) == 0 {
				// replace part of the name by a placeholder
				a := t.R.IntN(len(nm))
				b := a + 1 + t.R.IntN(len(nm)-a)
				var arg any = nm[a:b]
				if v, e := strconv.Atoi(nm[a:b]); e == nil && strconv.Itoa(v) == nm[a:b] {
					arg = v
				}
				nm = nm[:a] + fmt.Sprintf("{%d}", len(args)) + nm[b:]
				args = append(args, arg)
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("T%d", i), Type: reflect.TypeOf(s.zero), Tag: reflect.StructTag(`gologix:` + strconv.Quote(nm))})
		}
		v := reflect.New(reflect.StructOf(fs))
		for i, s := range slots {
			f := v.Elem().Field(pos[i])
			if f.Kind() == reflect.Slice {
				n := reflect.ValueOf(s.zero).Len()
				f.Set(reflect.MakeSlice(f.Type(), n, n))
			}
		}
		junk(t.R, v.Elem())
		free := map[int]any{}
		for i := range fs {
			if strings.HasPrefix(fs[i].Name, "Free") {
				free[i] = reflect.ValueOf(v.Elem().Field(i).Interface()).Interface()
			}
		}
		ok = t.Guard("ReadMulti", func() { err = c.ReadMulti(v.Interface(), args...) })
		for i, f := range free {
			if !same(f, v.Elem().Field(i).Interface()) {
				t.Fail("untagged-changed", "ReadMulti changed the field %s, which has no tag, from %s to %s", fs[i].Name, show(f), show(v.Elem().Field(i).Interface()))
			}
		}
		for i := range slots {
			got[i] = v.Elem().Field(pos[i]).Interface()
		}
	case "ReadMap", "ReadMultiMap":
		m := map[string]any{}
		for _, s := range slots {
			z := reflect.New(reflect.TypeOf(s.zero)).Elem()
			if z.Kind() == reflect.Slice {
				n := reflect.ValueOf(s.zero).Len()
				z.Set(reflect.MakeSlice(z.Type(), n, n))
			}
			junk(t.R, z)
			m[s.name] = z.Interface()
		}
		ok = t.Guard(api, func() {
			if api == "ReadMap" {
				err = c.ReadMap(m)
			} else {
				err = c.ReadMulti(m)
			}
		})
		if len(m) != len(slots) {
			t.Fail("map-keys", "%s of %d tags left %d keys in the map", api, len(slots), len(m))
		}
		for i, s := range slots {
			got[i] = m[s.name]
		}
	case "ReadList":
		names, types, elems := []string{}, []any{}, []int{}
		for _, s := range slots {
			names = append(names, s.name)
			types = append(types, s.elem)
			elems = append(elems, s.elems)
		}
		var l []any
		ok = t.Guard(api, func() { l, err = c.ReadList(names, types, elems) })
		if err == nil && ok && len(l) != len(slots) {
			t.Fail("list-length", "ReadList of %d tags returned %d values", len(slots), len(l))
			return got, err, false
		}
		copy(got, l)
	case "ReadTagGroup":
		defs := []gologix.TagDef{}
		for _, s := range slots {
			e := reflect.TypeOf(s.zero)
			if e.Kind() == reflect.Slice {
				e = e.Elem()
			}
			ct, _ := gologix.GoVarToCIPType(reflect.Zero(e).Interface())
			defs = append(defs, gologix.TagDef{Name: s.name, Type: ct, Elements: s.elems})
		}
		var res *gologix.TagGroupResult
		g := gologix.NewTagGroup(defs...)
		ok = t.Guard(api, func() { res, err = c.ReadTagGroup(g) })
		if err == nil && ok {
			for i, s := range slots {
				v, e := res.Value(s.name)
				if e != nil {
					t.Fail("group-missing", "ReadTagGroup result has no %q: %v", s.name, e)
				}
				got[i] = v
			}
		}
	}
	return got, err, ok
}

// usable tells whether a slot can be asked for through an API.
func usable(api string, s slot) bool {
	switch api {
	case "ReadList":
		return s.elem != nil
	case "ReadTagGroup":
		return s.elem != nil && reflect.TypeOf(s.elem).Kind() != reflect.Struct && !(reflect.TypeOf(s.zero).Kind() == reflect.Slice && s.elems == 1)
	}
	return true
}

// answers counts the outer requests of a stretch of the log.
func outer(reqs []*plc.Req) int {
	n := 0
	for _, r := range reqs {
		if r.Service == 0x0A || r.Service == 0x4C || r.Service == 0x4D || r.Service == 0x52 {
			n++
		}
	}
	return n
}

// editReply rewrites the message router reply inside a connected or unconnected reply frame.
func editReply(frame []byte, f func(reply []byte) []byte) []byte {
	if len(frame) < 40 {
		return frame
	}
	at, lenAt, seq := 40, 38, 0
	if plc.LE.Uint16(frame) == plc.CmdUnitData {
		at, lenAt, seq = 46, 42, 2
	}
	if len(frame) < at {
		return frame
	}
	out := append([]byte(nil), frame[:at]...)
	rep := f(append([]byte(nil), frame[at:]...))
	out = append(out, rep...)
	plc.LE.PutUint16(out[lenAt:], uint16(len(rep)+seq))
	plc.LE.PutUint16(out[2:], uint16(len(out)-24))
	return out
}

// splitMulti takes a multiple service reply apart (header 4 bytes).
func splitMulti(rep []byte) [][]byte {
	if len(rep) < 6 {
		return nil
	}
	n := int(plc.LE.Uint16(rep[4:]))
	b := rep[4:]
	parts := [][]byte{}
	for i := 0; i < n; i++ {
		s := int(plc.LE.Uint16(b[2+2*i:]))
		e := len(b)
		if i+1 < n {
			e = int(plc.LE.Uint16(b[4+2*i:]))
		}
		parts = append(parts, b[s:e])
	}
	return parts
}

// joinMulti builds a multiple service reply with the parts laid out in the given order.
func joinMulti(hdr []byte, parts [][]byte, order []int) []byte {
	out := append([]byte(nil), hdr[:4]...)
	out = plc.LE.AppendUint16(out, uint16(len(parts)))
	offs := make([]int, len(parts))
	o := 2 + 2*len(parts)
	for _, i := range order {
		offs[i] = o
		o += len(parts[i])
	}
	for _, x := range offs {
		out = plc.LE.AppendUint16(out, uint16(x))
	}
	for _, i := range order {
		out = append(out, parts[i]...)
	}
	return out
}

func seqInts(n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = i
	}
	return l
}

func c02Judge(t *rt.T, w *world, c *gologix.Client, api string, slots []slot, order string) {
	use := []slot{}
	for _, s := range slots {
		if usable(api, s) {
			use = append(use, s)
		}
	}
	if len(use) == 0 {
		return
	}
	from := w.p.LogLen()
	got, err, ok := multiRead(t, c, api, use)
	if !ok {
		return
	}
	reqs := outer(w.p.Requests(from))
	if reqs > 1 {
		t.Count("calls_split", 1)
	}
	if err != nil {
		t.Fail("multi-error:"+api, "%s of %d tags (%s ...) failed: %v", api, len(use), use[0].name, err)
		return
	}
	for i, s := range use {
		t.Eval(fmt.Sprintf("%s/%s/%s/%s/%s", api, s.kind, qclass(len(use)), qclass(reqs), order))
		good := same(got[i], s.want)
		if !good && api != "ReadMulti" && api != "ReadMultiArgs" && reflect.TypeOf(s.want).Kind() == reflect.Slice {
			good = sameList(got[i], s.want)
		}
		if !good && api == "ReadList" && reflect.TypeOf(s.want).Kind() == reflect.Slice {
			good = sameList(got[i], s.want)
		}
		if !good {
			t.Fail("slot:"+api+":"+s.kind, "%s of %d tags in %d requests: %q (slot %d) got %s, controller holds %s", api, len(use), reqs, s.name, i, show(got[i]), show(s.want))
			return
		}
		t.Count("slots_ok", 1)
	}
}

func c02Random(t *rt.T) {
	w := multiWorld(t)
	size := []uint16{0, 500, 1000, 4000}[t.R.IntN(4)]
	c := dial(t, w.p, uint16(size))
	if c == nil {
		return
	}
	for i := 0; i < 14 && !t.Failed(); i++ {
		n := 1 + t.R.IntN(12)
		if t.R.IntN(4) == 0 {
			n = 20 + t.R.IntN(40)
		}
		slots := w.slots(n, int(c.ConnectionSize)-110)
		order := "in-order"
		if t.R.IntN(4) == 0 {
			order = "reordered"
			seed := t.R.Uint64()
			w.p.Lock()
			w.p.OnReq = func(r *plc.Req) *plc.Action {
				if r.Service != 0x0A {
					return nil
				}
				return &plc.Action{Transform: func(f []byte) []byte {
					return editReply(f, func(rep []byte) []byte {
						parts := splitMulti(rep)
						if len(parts) < 2 {
							return rep
						}
						t.Count("reordered_replies", 1)
						return joinMulti(rep, parts, rt.NewRand(seed, "order").Perm(len(parts)))
					})
				}}
			}
			w.p.Unlock()
		}
		c02Judge(t, w, c, multiAPIs[t.R.IntN(len(multiAPIs))], slots, order)
		w.p.Lock()
		w.p.OnReq = nil
		w.p.Unlock()
	}
}

// c02Many reads very many tags of one kind.
func c02Many(t *rt.T) {
	lo, hi := 1, 8
	if t.R.IntN(3) == 0 {
		lo, hi = 30, 40
	}
	c02Lots(t, []uint16{200, 500, 1500, 4000}[t.R.IntN(4)], []int{90, 256, 257, 300, 700}[t.R.IntN(5)], lo, hi)
}

// c02Wide: requests and replies whose offsets and lengths need all of their 16 bits.
func c02Wide(t *rt.T) {
	c02Lots(t, []uint16{20000, 33000, 40000, 65000, 65535}[t.R.IntN(5)], 1000+t.R.IntN(900), 36, 40)
}

func c02Lots(t *rt.T, size uint16, n, lo, hi int) {
	w := newWorld(t)
	r := t.R
	a := atoms[r.IntN(len(atoms))]
	c := dial(t, w.p, uint16(size))
	if c == nil {
		return
	}
	tags := []*plc.Tag{}
	for i := 0; i < n; i++ {
		tags = append(tags, w.p.Add(&plc.Tag{Name: uniqueName(r, w.used, lo, hi), Type: a.Code, Data: randElem(r, a.Code)}))
	}
	for _, api := range multiAPIs {
		slots := []slot{}
		for _, i := range r.Perm(n) {
			tg := tags[i]
			z := reflect.Zero(a.Go).Interface()
			slots = append(slots, slot{name: tg.Name, zero: z, elem: z, elems: 1, want: plc.Value(a.Code, tg.Data), kind: "many/" + a.Name, bytes: plc.Size(a.Code)})
		}
		c02Judge(t, w, c, api, slots, "in-order")
		if t.Failed() {
			return
		}
	}
}

// c02Short: replies that do not answer every service must not be taken for success.
func c02Short(t *rt.T) {
	w := multiWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	for i := 0; i < 24 && !t.Failed(); i++ {
		if !c.Connected() {
			if err := c.Connect(); err != nil {
				t.Fail("reconnect", "cannot connect again: %v", err)
				return
			}
		}
		slots := w.slots(2+t.R.IntN(9), int(c.ConnectionSize)-110)
		api := multiAPIs[t.R.IntN(len(multiAPIs))]
		use := []slot{}
		for _, s := range slots {
			if usable(api, s) {
				use = append(use, s)
			}
		}
		if len(use) < 2 {
			continue
		}
		kind := []string{"drop-last", "drop-first", "drop-middle", "extra", "swap-count", "empty", "truncate-value"}[t.R.IntN(7)]
		seed := t.R.Uint64()
		hit := false
		w.p.Lock()
		w.p.OnReq = func(r *plc.Req) *plc.Action {
			if r.Service != 0x0A {
				return nil
			}
			return &plc.Action{Transform: func(f []byte) []byte {
				return editReply(f, func(rep []byte) []byte {
					parts := splitMulti(rep)
					q := rt.NewRand(seed, "cut")
					if len(parts) < 2 {
						return rep
					}
					hit = true
					switch kind {
					case "drop-last":
						parts = parts[:len(parts)-1]
					case "drop-first":
						parts = parts[1:]
					case "drop-middle":
						k := q.IntN(len(parts))
						parts = append(append([][]byte(nil), parts[:k]...), parts[k+1:]...)
					case "extra":
						parts = append(append([][]byte(nil), parts...), parts[q.IntN(len(parts))])
					case "swap-count":
						plc.LE.PutUint16(rep[4:], uint16(q.IntN(len(parts))))
						return rep
					case "empty":
						parts = nil
					case "truncate-value":
						k := q.IntN(len(parts))
						parts[k] = parts[k][:len(parts[k])-1]
					}
					return joinMulti(rep, parts, seqInts(len(parts)))
				})
			}}
		}
		w.p.Unlock()
		got, err, ok := multiRead(t, c, api, use)
		w.p.Lock()
		w.p.OnReq = nil
		h := hit
		w.p.Unlock()
		if !ok || !h {
			continue
		}
		t.Count("short_replies", 1)
		t.Eval(fmt.Sprintf("short/%s/%s", api, kind))
		if err == nil {
			// a delivered value must still be the tag's own
			for i, s := range use {
				if !same(got[i], s.want) && !(reflect.TypeOf(s.want).Kind() == reflect.Slice && sameList(got[i], s.want)) {
					t.Fail("short:"+kind, "%s of %d tags with a %s reply reported success; %q got %s, controller holds %s", api, len(use), kind, s.name, show(got[i]), show(s.want))
					break
				}
			}
		}
	}
	w.p.Lock()
	w.p.OnReq = nil
	w.p.Unlock()
	if !c.Connected() {
		if err := c.Connect(); err != nil {
			t.Fail("reconnect", "cannot connect again: %v", err)
			return
		}
	}
	c02Judge(t, w, c, "ReadMap", w.slots(5, int(c.ConnectionSize)-110), "in-order")
}

func c02Targets(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	w.p.Add(&plc.Tag{Name: "A", Type: plc.DINT, Data: []byte{1, 0, 0, 0}})
	w.p.Add(&plc.Tag{Name: "B", Type: plc.INT, Dims: []int{4}, Data: []byte{1, 0, 2, 0, 3, 0, 4, 0}})
	bad := map[string]any{
		"nil": nil, "int": 5, "struct-value": struct {
			A int32 `gologix:"A"`
		}{}, "nil-ptr": (*struct {
			A int32 `gologix:"A"`
		})(nil), "wrong-type": &struct {
			A float32 `gologix:"A"`
		}{}, "wrong-width": &struct {
			A int16 `gologix:"A"`
		}{}, "unknown": &struct {
			A int32 `gologix:"A"`
			Z int32 `gologix:"Zzz"`
		}{}, "int-field": &struct {
			A int `gologix:"A"`
		}{}, "func-field": &struct {
			A func() `gologix:"A"`
		}{}, "unexported": &struct {
			a int32 `gologix:"A"`
		}{}, "slice-too-long": &struct {
			B []int16 `gologix:"B"`
		}{make([]int16, 5)}, "empty-slice": &struct {
			B []int16 `gologix:"B"`
		}{}, "bad-name": &struct {
			A int32 `gologix:"A[x]"`
		}{}, "ptr-field": &struct {
			A *int32 `gologix:"A"`
		}{}, "string-from-dint": &struct {
			A string `gologix:"A"`
		}{}, "bools-from-int": &struct {
			B []bool `gologix:"B"`
		}{make([]bool, 32)},
		"map-wrong": map[string]int{"A": 1},
		"struct-from-atomic": &struct {
			A SMix `gologix:"A"`
		}{}, "struct-from-array": &struct {
			B SMix `gologix:"B"`
		}{}, "atomic-from-struct": &struct {
			U int32 `gologix:"Plant"`
		}{}, "real-from-struct": &struct {
			U float32 `gologix:"Plant"`
		}{}, "bool-from-struct": &struct {
			U bool `gologix:"Plant"`
		}{}, "string-from-array": &struct {
			B string `gologix:"B"`
		}{}, "atomic-from-string": &struct {
			S int32 `gologix:"Words"`
		}{}, "lint-from-struct-array": &struct {
			U int64 `gologix:"Plants[1]"`
		}{}, "bit-slice": &struct {
			B []bool `gologix:"B[2].3"`
		}{make([]bool, 32)}, "bit-of-struct": &struct {
			B bool `gologix:"Plant.3"`
		}{},
	}
	u := w.addStructTag(staticStructs[0], 3, 0x1234)
	w.p.Add(&plc.Tag{Name: "Plants", Type: plc.STRUCT, UDT: u.tag.UDT, Dims: []int{3}, Data: u.tag.Data})
	w.p.Add(&plc.Tag{Name: "Plant", Type: plc.STRUCT, UDT: u.tag.UDT, Data: u.tag.Data[:u.tag.UDT.Size]})
	word := make([]byte, 88)
	plc.PutString(word, "just some words")
	w.p.Add(&plc.Tag{Name: "Words", Type: plc.STRUCT, UDT: plc.StringUDT, Data: word})
	for _, k := range rt.SortedKeys(bad) {
		var err error
		if t.Guard("ReadMulti/"+k, func() { err = c.ReadMulti(bad[k]) }) && err == nil {
			t.Fail("undeliverable:"+k, "ReadMulti(%T) reported success: %+v", bad[k], bad[k])
		}
		t.Eval("target/" + k)
	}
	for _, m := range []map[string]any{{"A": int32(0), "Zzz": int32(0)}, {"A": "", "B": int16(0)}, {"B": make([]int16, 5)}, {"B": []int16{}},
		{"Plant": int32(0)}, {"Plant": float64(0)}, {"Plants[1]": int16(0)}, {"Plants": make([]int32, 2)}, {"Words": uint32(0)}, {"A": int32(0), "Plant": true}, {"Plant.1": true}} {
		var err error
		if t.Guard("ReadMap/bad", func() { err = c.ReadMap(m) }) && err == nil {
			t.Fail("undeliverable:map", "ReadMap reported success: %v", m)
		}
		t.Eval("target/map")
	}
	for _, l := range []struct {
		n []string
		t []any
		e []int
	}{
		{[]string{"A", "Zzz"}, []any{int32(0), int32(0)}, []int{1, 1}}, {[]string{"B"}, []any{int16(0)}, []int{5}}, {[]string{"A"}, []any{int32(0)}, []int{0}}, {[]string{"A"}, []any{int32(0)}, []int{-1}},
		{[]string{"A", "B"}, []any{int32(0)}, []int{1, 1}}, {[]string{"A", "B"}, []any{int32(0), int16(0)}, []int{1}}, {[]string{"A"}, []any{""}, []int{1}},
		{[]string{"A.3"}, []any{false}, []int{2}}, {[]string{"B[1].3", "A"}, []any{false, int32(0)}, []int{4, 1}}, {[]string{"A", "A.31"}, []any{int32(0), false}, []int{1, 32}},
		{[]string{"Plant"}, []any{int32(0)}, []int{1}}, {[]string{"A", "Plant"}, []any{int32(0), int32(0)}, []int{1, 1}}, {[]string{"Plants[1]"}, []any{int64(0)}, []int{1}}, {[]string{"Plants"}, []any{int16(0)}, []int{2}},
		{[]string{"Words"}, []any{float32(0)}, []int{1}}, {[]string{"Words"}, []any{byte(0)}, []int{1}}, {[]string{"Plant.3"}, []any{false}, []int{1}},
	} {
		var err error
		var g []any
		if t.Guard("ReadList/bad", func() { g, err = c.ReadList(l.n, l.t, l.e) }) && err == nil {
			t.Fail("undeliverable:list", "ReadList(%v, %v, %v) reported success: %v", l.n, l.t, l.e, g)
		}
		t.Eval(fmt.Sprintf("target/list/%d/%d/%v", len(l.n), len(l.t), l.e))
	}
	// nothing to read
	var err error
	t.Guard("ReadMap/empty", func() { err = c.ReadMap(map[string]any{}) })
	t.Guard("ReadList/empty", func() { _, err = c.ReadList(nil, nil, nil) })
	t.Guard("ReadMulti/no-tags", func() { err = c.ReadMulti(&struct{ A, B int }{1, 2}) })
	_ = err
	// strings longer than the predefined ones
	for i, n := range []int{83, 84, 85, 100, 128, 200, 255, 256, 300, 400} {
		used := []int{0, 1, 82, 83, n - 1, n}[(i+t.R.IntN(6))%6]
		if used > n {
			used = n
		}
		size := (4 + n + 3) / 4 * 4
		name := fmt.Sprintf("Str%d", n)
		ud := &plc.UDT{Name: fmt.Sprintf("STRING_%d", n), ID: uint16(0x200 + n), Handle: uint16(0x4000 + n), Size: size, Members: []plc.Member{{Name: "LEN", Type: plc.DINT}, {Name: "DATA", Type: plc.SINT, Len: n, Offset: 4}}}
		for _, used := range []int{used, n} {
			text := ""
			for len(text) < used {
				text += string(rune('a' + (len(text)*5+n)%26))
			}
			b := make([]byte, size)
			plc.LE.PutUint32(b, uint32(used))
			copy(b[4:], text)
			if w.p.Peek(name) == nil {
				w.p.Add(&plc.Tag{Name: name, Type: plc.STRUCT, UDT: ud, Data: b})
			} else {
				w.p.Poke(name, 0, b)
			}
			var one string
			var err error
			if t.Guard("Read/long-string", func() { err = c.Read(name, &one) }) && (err != nil || one != text) {
				t.Fail("long-string:Read", "Read(%s) gave %q, %v; the controller holds %q", name, one, err, text)
			}
			m := map[string]any{"A": int32(0), name: ""}
			if t.Guard("ReadMap/long-string", func() { err = c.ReadMap(m) }) && (err != nil || m[name] != any(text) || m["A"] != any(int32(1))) {
				t.Fail("long-string:ReadMap", "ReadMap with %s gave %v, %v; the controller holds %q", name, m, err, text)
			}
			var l []any
			if t.Guard("ReadList/long-string", func() { l, err = c.ReadList([]string{name, "A"}, []any{"", int32(0)}, []int{1, 1}) }) && (err != nil || len(l) != 2 || l[0] != any(text) || l[1] != any(int32(1))) {
				t.Fail("long-string:ReadList", "ReadList with %s gave %v, %v; the controller holds %q", name, l, err, text)
			}
			t.Count("long_strings", 1)
			t.Eval(fmt.Sprintf("long-string/%d/%d", n, used))
		}
	}
	// embedded and tagged fields next to each other
	type Emb struct {
		A int32 `gologix:"A"`
	}
	x := struct {
		Emb
		B []int16 `gologix:"B[1]"`
		C int16   `gologix:"B[3]"`
		D bool    `gologix:"B[2].1"`
	}{B: make([]int16, 2)}
	if t.Guard("ReadMulti/embedded", func() { err = c.ReadMulti(&x) }) && err == nil {
		if x.A != 1 || x.B[0] != 2 || x.B[1] != 3 || x.C != 4 || !x.D {
			t.Fail("embedded", "ReadMulti of an embedded struct gave %+v", x)
		}
	} else if err != nil {
		t.Fail("embedded-error", "ReadMulti of a struct with an embedded one failed: %v", err)
	}
	t.Eval("target/embedded")
}

func c03Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 700, 12000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("mixed-%d", i), Run: c03Mixed})
	}
	for i := 0; i < tiered(tier, 480, 8000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("uniform-%d", i), Run: c03Uniform})
	}
	cs = append(cs, rt.Case{Name: "fallback", Run: c03Fallback})
	for i := 0; i < tiered(tier, 8, 200); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("edge-%d", i), Run: c03Edge})
	}
	return cs
}

// c03Edge writes values that just fit a request, and ones that just do not.
func c03Edge(t *rt.T) {
	size := []int{120, 200, 300, 504, 511, 1000, 2000, 4000}[t.R.IntN(8)]
	w := newWorld(t)
	c := dial(t, w.p, uint16(size))
	if c == nil {
		return
	}
	size = int(c.ConnectionSize)
	type edge struct {
		tag  *plc.Tag
		step int
		make func(n int) any
	}
	mk := func(code byte) *plc.Tag {
		return w.p.Add(&plc.Tag{Name: w.name(), Type: code, Dims: []int{5000}, Data: make([]byte, 5000*plc.Size(code))})
	}
	edges := []edge{
		{mk(plc.USINT), 1, func(n int) any { return make([]byte, n) }},
		{mk(plc.SINT), 1, func(n int) any { return make([]int8, n) }},
		{mk(plc.INT), 2, func(n int) any { return make([]int16, n) }},
		{mk(plc.DINT), 4, func(n int) any { return make([]int32, n) }},
		{mk(plc.LREAL), 8, func(n int) any { return make([]float64, n) }},
		{w.addStringArray(60), 88, func(n int) any { return make([]string, n) }},
	}
	for _, e := range edges {
		top := size/e.step + 1
		for n := max(1, top-40); n <= top; n++ {
			if e.step == 88 && n > 60 {
				break
			}
			for _, api := range []string{"Write", "WriteMap"} {
				from := w.p.LogLen()
				before := w.p.Snapshot()
				v := e.make(n)
				var err error
				ok := t.Guard(api, func() {
					if api == "Write" {
						err = c.Write(e.tag.Name, v)
					} else {
						err = c.WriteMap(map[string]any{e.tag.Name: v})
					}
				})
				if !ok {
					return
				}
				sent := false
				for _, r := range w.p.Requests(from) {
					if r.Service != 0x0A && r.Service != 0x4D {
						continue
					}
					sent = true
					t.Count("requests_measured", 1)
					if r.ItemLen > size {
						t.Fail("request-size:"+api+"/edge", "%s of a %T of %d elements sent a data item of %d bytes on a connection of %d", api, v, n, r.ItemLen, size)
					}
					t.Count("services_decoded", 1)
				}
				if !sent {
					t.Count("refused_by_client", 1)
					if err == nil {
						t.Fail("nothing-sent:"+api, "%s of a %T of %d elements reported success without sending anything", api, v, n)
					}
					if d := diffMem(w.p.Snapshot(), before); len(d) > 0 {
						t.Fail("refused-changed:"+api, "%s of a %T of %d elements changed memory: %s", api, v, n, d[0])
					}
				}
				t.Eval(fmt.Sprintf("edge/%d/%s/%T/%v", size, api, v, sent))
			}
		}
	}
}

// c03Measure checks the requests of one call against the slots.
func c03Measure(t *rt.T, w *world, api string, reqs []*plc.Req, want []string, size int, nSizeErr, nWireErr int) int {
	n := 0
	fullest := 0
	got := []string{}
	for _, r := range reqs {
		if r.Service == 0x0A || r.Service == 0x4C || r.Service == 0x4D || r.Service == 0x52 {
			n++
			t.Count("requests_measured", 1)
			if !r.Connected {
				t.Fail("unconnected:"+api, "%s sent service %#x outside the connection", api, r.Service)
			}
			if r.ItemLen > size {
				t.Fail("request-size:"+api, "%s sent a data item of %d bytes on a connection of %d", api, r.ItemLen, size)
			}
			fullest = max(fullest, r.ItemLen)
		}
	}
	for _, r := range flat(reqs) {
		t.Count("services_decoded", 1)
		cnt := 0
		if r.Service == 0x4C || r.Service == 0x52 {
			cnt = int(plc.LE.Uint16(r.Data))
		} else if len(r.Data) >= 6 && r.Data[0] == 0xA0 {
			cnt = int(plc.LE.Uint16(r.Data[4:]))
		} else if len(r.Data) >= 4 {
			cnt = int(plc.LE.Uint16(r.Data[2:]))
		}
		nm, off, ok := w.p.Locate(r.Path)
		if !ok {
			t.Fail("foreign:"+api, "%s asked for %s, which is none of the tags", api, plc.PathString(r.Path))
			return n
		}
		got = append(got, fmt.Sprintf("%s/%d/%d", strings.ToLower(nm), off, cnt))
	}
	sort.Strings(got)
	want = append([]string(nil), want...)
	sort.Strings(want)
	if strings.Join(got, "|") != strings.Join(want, "|") {
		miss, extra := bagDiff(want, got), bagDiff(got, want)
		t.Fail("requested-once:"+api, "%s of %d tags: not requested (tag/offset/count) %v, requested beyond what was asked %v", api, len(want), miss, extra)
	}
	if e := w.p.SizeErrors(); len(e) > nSizeErr {
		t.Fail("size:"+api, "%s: %s", api, e[nSizeErr])
	}
	if e := w.p.WireErrors(); len(e) > nWireErr {
		t.Fail("wire:"+api, "%s: %s", api, e[nWireErr])
	}
	if n > 1 {
		t.Count("calls_split", 1)
	}
	t.Eval(fmt.Sprintf("%s/%d/tags%s/reqs%s/full%d%%", api, size, qclass(len(want)), qclass(n), fullest*10/size*10))
	return n
}

// bagDiff lists what a has more than b.
func bagDiff(a, b []string) []string {
	m := map[string]int{}
	for _, x := range b {
		m[x]++
	}
	d := []string{}
	for _, x := range a {
		if m[x] > 0 {
			m[x]--
		} else if len(d) < 6 {
			d = append(d, x)
		}
	}
	return d
}

func c03Mixed(t *rt.T) {
	w := multiWorld(t)
	size := []uint16{200, 300, 504, 511, 800, 1500, 3000, 4000}[t.R.IntN(8)]
	c := dial(t, w.p, uint16(size))
	if c == nil {
		return
	}
	listed := t.R.IntN(3) == 0
	if listed {
		w.p.SetFirmware(32)
		c2 := dial(t, w.p, size)
		if c2 == nil {
			return
		}
		c = c2
		if err := c.ListAllTags(0); err != nil {
			t.Fail("list", "ListAllTags failed: %v", err)
			return
		}
	}
	for i := 0; i < 8 && !t.Failed(); i++ {
		n := 1 + t.R.IntN(60)
		var slots []slot
		if t.R.IntN(3) > 0 {
			slots = w.slots(n, int(size)-100)
			api := multiAPIs[t.R.IntN(len(multiAPIs))]
			use, want := []slot{}, []string{}
			for _, s := range slots {
				if usable(api, s) {
					use = append(use, s)
					want = append(want, s.place)
				}
			}
			if len(use) == 0 {
				continue
			}
			from, ns, nw := w.p.LogLen(), len(w.p.SizeErrors()), len(w.p.WireErrors())
			_, err, ok := multiRead(t, c, api, use)
			if !ok {
				continue
			}
			c03Measure(t, w, api, w.p.Requests(from), want, int(size), ns, nw)
			if err != nil {
				t.Fail("call-failed:"+api, "%s of %d tags on a connection of %d failed: %v", api, len(use), size, err)
			}
			continue
		}
		m, want, _ := w.writeSet(n, int(size)-110)
		if len(m) == 0 {
			continue
		}
		from, ns, nw := w.p.LogLen(), len(w.p.SizeErrors()), len(w.p.WireErrors())
		var err error
		if t.Guard("WriteMap", func() { err = c.WriteMap(m) }) {
			c03Measure(t, w, "WriteMap", w.p.Requests(from), want, int(size), ns, nw)
			if err != nil {
				t.Fail("call-failed:WriteMap", "WriteMap of %d tags on a connection of %d failed: %v", len(m), size, err)
			}
		}
		for _, u := range w.udts { // the written values are the current ones
			u.refresh(w)
		}
	}
}

// refresh forgets generated values that were overwritten in memory.
func (u *udtTag) refresh(w *world) {
	mem := w.p.Peek(u.tag.Name)
	for i := range u.val {
		if string(mem[i*u.tag.UDT.Size:(i+1)*u.tag.UDT.Size]) != string(encodeTag(u.val[i])) {
			w.p.Poke(u.tag.Name, i*u.tag.UDT.Size, encodeTag(u.val[i]))
		}
	}
}

// writeSet draws values for places that do not overlap.
func (w *world) writeSet(n, limit int) (m map[string]any, wire []string, effects []func(mem map[string]string)) {
	m = map[string]any{}
	type span struct{ a, b int }
	taken := map[string][]span{}
	for try := 0; try < n*4 && len(m) < n; try++ {
		pl := w.place()
		if !writable(pl.typ) || (pl.typ == plc.STRUCT && pl.udt != plc.StringUDT && pl.goT == nil) {
			continue
		}
		v, enc := w.goValue(pl, limit)
		if len(enc)+len(pl.name) > limit {
			continue
		}
		e := span{pl.off, pl.off + len(enc)}
		free := true
		for _, s := range taken[pl.tag] {
			if e.a < s.b && s.a < e.b {
				free = false
			}
		}
		if !free {
			continue
		}
		taken[pl.tag] = append(taken[pl.tag], e)
		name := recase(w.r, pl.name)
		m[name] = v
		cnt := 1
		if rv := reflect.ValueOf(v); rv.Kind() == reflect.Slice {
			cnt = rv.Len()
		}
		wire = append(wire, fmt.Sprintf("%s/%d/%d", strings.ToLower(pl.tag), pl.off, cnt))
		effects = append(effects, func(mem map[string]string) { applyAt(mem, pl, enc) })
	}
	return m, wire, effects
}

// c03Uniform: many tags of one size, so that requests fill up to the last byte.
func c03Uniform(t *rt.T) {
	w := newWorld(t)
	r := t.R
	size := 120 + r.IntN(600)
	switch r.IntN(12) {
	case 0, 1, 2:
		size = 1000 + r.IntN(3001)
	case 3:
		size = 4001 + r.IntN(61535)
	}
	c := dial(t, w.p, uint16(size))
	if c == nil {
		return
	}
	nameLen := 1 + r.IntN(40)
	a := atoms[r.IntN(len(atoms))]
	str := r.IntN(5) == 0
	elems := 1
	if !str && a.Code != plc.BOOL && r.IntN(2) == 0 {
		elems = 1 + r.IntN(max(1, (size-100-nameLen)/plc.Size(a.Code)))
		elems = max(elems, 1)
	}
	if str && size < 250 {
		str = false
		elems = 1
	}
	n := 3 + r.IntN(150)
	if size > 4000 && elems*plc.Size(a.Code) < 100 {
		n = 300 + r.IntN(1200)
	}
	slots := []slot{}
	m := map[string]any{}
	want := []string{}
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf("%s%d", strings.Repeat("n", max(0, nameLen-len(fmt.Sprint(i)))), i)
		if nm[0] < 'a' {
			nm = "n" + nm
		}
		s := slot{name: nm, elems: elems, kind: "uniform"}
		if str {
			b := make([]byte, 88)
			plc.PutString(b, randString(r, 82))
			w.p.Add(&plc.Tag{Name: nm, Type: plc.STRUCT, UDT: plc.StringUDT, Data: b})
			s.zero, s.elem, s.elems = "", "", 1
			m[nm] = randString(r, 82)
		} else {
			d := randData(r, a.Code, elems)
			tg := &plc.Tag{Name: nm, Type: a.Code, Data: d}
			if elems > 1 {
				tg.Dims = []int{elems}
			}
			w.p.Add(tg)
			s.elem = reflect.Zero(a.Go).Interface()
			s.zero = s.elem
			m[nm] = plc.Value(a.Code, d)
			if elems > 1 {
				s.zero = reflect.MakeSlice(reflect.SliceOf(a.Go), elems, elems).Interface()
				m[nm] = goSlice(a.Code, d).Interface()
			}
		}
		slots = append(slots, s)
		want = append(want, fmt.Sprintf("%s/0/%d", strings.ToLower(nm), s.elems))
	}
	for _, api := range []string{"ReadMap", "ReadList", "ReadMulti", "WriteMap"} {
		from, ns, nw := w.p.LogLen(), len(w.p.SizeErrors()), len(w.p.WireErrors())
		var err error
		ok := true
		if api == "WriteMap" {
			if !str && !writable(a.Code) {
				continue
			}
			ok = t.Guard("WriteMap", func() { err = c.WriteMap(m) })
		} else {
			_, err, ok = multiRead(t, c, api, slots)
		}
		if !ok {
			return
		}
		c03Measure(t, w, api, w.p.Requests(from), want, size, ns, nw)
		if err != nil {
			t.Fail("call-failed:"+api, "%s of %d tags on a connection of %d failed: %v", api, n, size, err)
		}
	}
}

// c03Fallback: the controller grants less than asked for.
func c03Fallback(t *rt.T) {
	for _, refuse := range []string{"large", "size"} {
		w := multiWorld(t)
		w.p.Lock()
		w.p.RefuseLarge = true
		w.p.Unlock()
		_ = refuse
		c := dial(t, w.p, 4000)
		if c == nil {
			return
		}
		granted := 0
		for _, cn := range w.p.OpenConns() {
			granted = cn.Size
		}
		for i := 0; i < 30 && !t.Failed(); i++ {
			slots := w.slots(1+t.R.IntN(50), granted-110)
			want := []string{}
			for _, s := range slots {
				want = append(want, s.place)
			}
			from, ns, nw := w.p.LogLen(), len(w.p.SizeErrors()), len(w.p.WireErrors())
			_, err, ok := multiRead(t, c, "ReadMap", slots)
			if !ok {
				return
			}
			c03Measure(t, w, "ReadMap", w.p.Requests(from), want, granted, ns, nw)
			if err != nil {
				t.Fail("fallback-failed", "ReadMap of %d tags on the granted connection of %d failed: %v", len(slots), granted, err)
			}
			m, wire, _ := w.writeSet(1+t.R.IntN(30), granted-110)
			from, ns, nw = w.p.LogLen(), len(w.p.SizeErrors()), len(w.p.WireErrors())
			if t.Guard("WriteMap", func() { err = c.WriteMap(m) }) {
				c03Measure(t, w, "WriteMap", w.p.Requests(from), wire, granted, ns, nw)
				if err != nil {
					t.Fail("fallback-failed", "WriteMap of %d tags on the granted connection of %d failed: %v", len(m), granted, err)
				}
			}
			for _, u := range w.udts {
				u.refresh(w)
			}
		}
	}
}

func c12Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 400, 9000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("map-%d", i), Run: c12Map})
	}
	for i := 0; i < tiered(tier, 400, 9000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("struct-%d", i), Run: c12Struct})
	}
	for i := 0; i < tiered(tier, 16, 800); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("wide-%d", i), Run: c12Wide})
	}
	for i := 0; i < tiered(tier, 400, 9000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("rejected-%d", i), Run: c12Rejected})
	}
	cs = append(cs, rt.Case{Name: "unrepresentable", Run: c12Bad})
	return cs
}

func c12Map(t *rt.T) {
	w := newWorld(t)
	writeWorld(w)
	size := []uint16{0, 250, 500, 1000, 4000}[t.R.IntN(5)]
	c := dial(t, w.p, uint16(size))
	if c == nil {
		return
	}
	for i := 0; i < 12 && !t.Failed(); i++ {
		n := 1 + t.R.IntN(10)
		if t.R.IntN(3) == 0 {
			n = 30 + t.R.IntN(40)
		}
		m, _, eff := w.writeSet(n, int(c.ConnectionSize)-110)
		c12Judge(t, w, c, "WriteMap", len(m), eff, func() error { return c.WriteMap(m) })
	}
}

// c12Wide: requests whose offsets and lengths need all of their 16 bits.
func c12Wide(t *rt.T) {
	w := newWorld(t)
	r := t.R
	c := dial(t, w.p, []uint16{20000, 33000, 40000, 65000, 65535}[r.IntN(5)])
	if c == nil {
		return
	}
	m, eff := map[string]any{}, []func(map[string]string){}
	for i, n := 0, 800+r.IntN(900); i < n; i++ {
		a := atoms[1+r.IntN(len(atoms)-1)]
		if !writable(a.Code) {
			continue
		}
		elems := 1
		if r.IntN(40) == 0 {
			elems = 2 + r.IntN(2000)
		}
		tg := w.p.Add(&plc.Tag{Name: uniqueName(r, w.used, 30, 40), Type: a.Code, Data: make([]byte, elems*plc.Size(a.Code))})
		if elems > 1 {
			tg.Dims = []int{elems}
		}
		enc := randData(r, a.Code, elems)
		m[tg.Name] = plc.Value(a.Code, enc)
		if elems > 1 {
			m[tg.Name] = goSlice(a.Code, enc).Interface()
		}
		eff = append(eff, func(mem map[string]string) { mem[strings.ToLower(tg.Name)] = string(enc) })
	}
	c12Judge(t, w, c, "WriteMap", len(m), eff, func() error { return c.WriteMap(m) })
}

func c12Judge(t *rt.T, w *world, c *gologix.Client, api string, n int, eff []func(map[string]string), call func() error) {
	if n == 0 {
		return
	}
	before := w.p.Snapshot()
	from, nw := w.p.LogLen(), len(w.p.WireErrors())
	var err error
	if !t.Guard(api, func() { err = call() }) {
		return
	}
	reqs := outer(w.p.Requests(from))
	if reqs > 1 {
		t.Count("calls_split", 1)
	}
	t.Eval(fmt.Sprintf("%s/%s/%s", api, qclass(n), qclass(reqs)))
	if err != nil {
		t.Fail("write-error:"+api, "%s of %d tags failed: %v", api, n, err)
		return
	}
	for _, f := range eff {
		f(before)
	}
	if d := diffMem(w.p.Snapshot(), before); len(d) > 0 {
		t.Fail("memory:"+api, "after %s of %d tags in %d requests: %s", api, n, reqs, strings.Join(d[:min(3, len(d))], "; "))
	}
	if e := w.p.WireErrors(); len(e) > nw {
		t.Fail("wire:"+api, "%s: %s", api, e[nw])
	}
	t.Count("tags_written", n)
}

// hasBoolArray tells whether a structure cannot be written member by member.
func hasBoolArray(typ reflect.Type) bool {
	switch typ.Kind() {
	case reflect.Array:
		return typ.Elem().Kind() == reflect.Bool || hasBoolArray(typ.Elem())
	case reflect.Struct:
		if predefined(typ) {
			return false
		}
		for i := 0; i < typ.NumField(); i++ {
			if hasBoolArray(typ.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func fieldsIn(typ reflect.Type) int {
	if typ.Kind() != reflect.Struct || predefined(typ) {
		return 1
	}
	n := 0
	for i := 0; i < typ.NumField(); i++ {
		n += fieldsIn(typ.Field(i).Type)
	}
	return n
}

func c12Struct(t *rt.T) {
	w := newWorld(t)
	writeWorld(w)
	r := t.R
	for i := 0; i < 6; i++ {
		st := randStruct(r, 2)
		if !hasBoolArray(st) {
			w.structTag(st, 1+r.IntN([]int{3, 3, 3, 24}[r.IntN(4)]))
		}
	}
	c := dial(t, w.p, []uint16{0, 400, 1000, 4000}[r.IntN(4)])
	if c == nil {
		return
	}
	for i := 0; i < 8 && !t.Failed(); i++ {
		m, _, eff := w.writeSet(1+r.IntN(10), int(c.ConnectionSize)-110)
		fs := []reflect.StructField{}
		vals := []any{}
		used := map[string]bool{}
		keep := []func(map[string]string){}
		k := 0
		// the effects are in the order of drawing, not of the map: redo them per name
		_ = eff
		byName := map[string]func(map[string]string){}
		for nm, v := range m {
			rv := reflect.ValueOf(v)
			if rv.Kind() == reflect.Struct && !predefined(rv.Type()) {
				continue // nested structures are drawn below
			}
			byName[nm] = nil
			used[strings.ToLower(strings.FieldsFunc(nm, func(x rune) bool { return x == '.' || x == '[' })[0])] = true
		}
		n := len(byName)
		names := rt.SortedKeys(byName)
		set := map[string]any{}
		for _, nm := range names {
			v := m[nm]
			if rv := reflect.ValueOf(v); rv.Kind() == reflect.Slice && rv.Type().Elem() != tBool && r.IntN(3) == 0 {
				arr := reflect.New(reflect.ArrayOf(rv.Len(), rv.Type().Elem())).Elem()
				reflect.Copy(arr, rv)
				v = arr.Interface()
			}
			set[nm] = v
			if r.IntN(4) == 0 {
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Free%d", k), Type: tI32})
				vals = append(vals, int32(77))
			}
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("T%d", k), Type: reflect.TypeOf(v), Tag: reflect.StructTag(`gologix:` + strconv.Quote(nm))})
			vals = append(vals, v)
			k++
		}
		before := map[string]bool{}
		for _, nm := range names {
			before[nm] = true
		}
		j := 0
		_ = j
		keep = effectsFor(w, m, names)
		// nested structures, member by member
		for _, u := range w.udts {
			if r.IntN(2) == 0 || hasBoolArray(u.typ) || predefined(u.typ) || used[strings.ToLower(u.tag.Name)] {
				continue
			}
			used[strings.ToLower(u.tag.Name)] = true
			if len(u.val) == 1 || r.IntN(2) == 0 {
				i := r.IntN(len(u.val))
				nm := u.tag.Name
				if len(u.val) > 1 {
					nm += fmt.Sprintf("[%d]", i)
				}
				v := reflect.New(u.typ).Elem()
				randFill(r, v)
				clearUnused(v)
				fs = append(fs, reflect.StructField{Name: fmt.Sprintf("N%d", len(fs)), Type: u.typ, Tag: reflect.StructTag(`gologix:` + strconv.Quote(nm))})
				vals = append(vals, v.Interface())
				pl := place{tag: u.tag.Name, off: i * u.tag.UDT.Size, bit: -1}
				enc := encodeTag(v)
				keep = append(keep, func(mem map[string]string) { applyAt(mem, pl, enc) })
				n += fieldsIn(u.typ)
				t.Count("nested_fields", fieldsIn(u.typ))
				continue
			}
			arr := reflect.New(reflect.ArrayOf(len(u.val), u.typ)).Elem()
			randFill(r, arr)
			clearUnused(arr)
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("N%d", len(fs)), Type: arr.Type(), Tag: reflect.StructTag(`gologix:` + strconv.Quote(u.tag.Name))})
			vals = append(vals, arr.Interface())
			for i := 0; i < arr.Len(); i++ {
				pl := place{tag: u.tag.Name, off: i * u.tag.UDT.Size, bit: -1}
				enc := encodeTag(arr.Index(i))
				keep = append(keep, func(mem map[string]string) { applyAt(mem, pl, enc) })
			}
			n += fieldsIn(u.typ) * arr.Len()
			t.Count("nested_fields", fieldsIn(u.typ)*arr.Len())
		}
		if len(fs) == 0 {
			continue
		}
		v := reflect.New(reflect.StructOf(fs)).Elem()
		for i := range vals {
			v.Field(i).Set(reflect.ValueOf(vals[i]))
		}
		c12Judge(t, w, c, "WriteMulti", n, keep, func() error { return c.WriteMulti(v.Interface()) })
	}
}

// effectsFor re-derives what writing the named values does.
func effectsFor(w *world, m map[string]any, names []string) []func(map[string]string) {
	out := []func(map[string]string){}
	for _, nm := range names {
		v := m[nm]
		pl, ok := w.find(nm)
		if !ok {
			panic("harness: place " + nm)
		}
		enc := goBytes(v)
		out = append(out, func(mem map[string]string) { applyAt(mem, pl, enc) })
	}
	return out
}

// goBytes encodes a Go value as the controller stores it.
func goBytes(v any) []byte {
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		b := make([]byte, 88)
		plc.PutString(b, rv.String())
		return b
	case reflect.Slice, reflect.Array:
		b := []byte{}
		for i := 0; i < rv.Len(); i++ {
			b = append(b, goBytes(rv.Index(i).Interface())...)
		}
		return b
	case reflect.Struct:
		return encodeTag(rv)
	}
	return putAtom(nil, rv)
}

// find locates a written name by the model's own rules.
func (w *world) find(name string) (place, bool) {
	segs := []plc.Seg{}
	rest := name
	if strings.HasPrefix(strings.ToLower(rest), "program:") {
		e := strings.IndexByte(rest, '.')
		segs = append(segs, symSeg(rest[:e]))
		rest = rest[e+1:]
	}
	for rest != "" {
		if rest[0] == '.' {
			rest = rest[1:]
		}
		e := strings.IndexAny(rest, ".[")
		if e < 0 {
			e = len(rest)
		}
		segs = append(segs, symSeg(rest[:e]))
		rest = rest[e:]
		if rest != "" && rest[0] == '[' {
			e = strings.IndexByte(rest, ']')
			for _, x := range strings.Split(rest[1:e], ",") {
				v, _ := strconv.Atoi(x)
				segs = append(segs, elSeg(uint32(v)))
			}
			rest = rest[e+1:]
		}
	}
	tag, off, bit, ok := w.p.LocateBit(segs)
	return place{name: name, tag: tag, off: off, bit: bit}, ok
}

// c12Rejected: one of the tags fails.
func c12Rejected(t *rt.T) {
	w := newWorld(t)
	writeWorld(w)
	r := t.R
	c := dial(t, w.p, []uint16{0, 300, 1000, 4000}[r.IntN(4)])
	if c == nil {
		return
	}
	ro := w.p.Add(&plc.Tag{Name: w.name(), Type: plc.DINT, ReadOnly: true, Data: []byte{9, 9, 9, 9}})
	for i := 0; i < 10 && !t.Failed(); i++ {
		if !c.Connected() {
			if err := c.Connect(); err != nil {
				t.Fail("reconnect", "cannot connect again: %v", err)
				return
			}
		}
		n := 1 + r.IntN(8)
		if r.IntN(3) == 0 {
			n = 25 + r.IntN(30)
		}
		m, _, _ := w.writeSet(n, int(c.ConnectionSize)-110)
		names := rt.SortedKeys(m)
		if len(names) == 0 {
			continue
		}
		kind := []string{"unknown", "read-only", "wrong-type", "status", "drop-reply", "outer-status", "close"}[r.IntN(7)]
		victim := r.IntN(len(names))
		var hit bool
		switch kind {
		case "unknown":
			m["NoSuch"+w.name()] = int32(1)
			hit = true
		case "read-only":
			m[ro.Name] = int32(1)
			hit = true
		case "wrong-type":
			m[w.p.Add(&plc.Tag{Name: w.name(), Type: plc.REAL}).Name] = int16(3)
			hit = true
		case "status", "drop-reply", "outer-status", "close":
			st := byte(1 + r.IntN(0x2F))
			if st == 6 {
				st = 0x10
			}
			ext := []uint16(nil)
			if r.IntN(2) == 0 {
				ext = []uint16{uint16(r.Uint32())}
				if r.IntN(3) == 0 {
					ext = append(ext, 5)
				}
			}
			seen := 0
			w.p.Lock()
			w.p.OnReq = func(q *plc.Req) *plc.Action {
				if q.Service == 0x4D {
					seen++
					if seen == victim+1 && kind == "status" {
						hit = true
						return &plc.Action{Reply: &plc.Reply{Status: st, Ext: ext}}
					}
					return nil
				}
				if q.Service != 0x0A {
					return nil
				}
				if seen > victim || hit {
					return nil
				}
				switch kind {
				case "drop-reply":
					return &plc.Action{Transform: func(f []byte) []byte {
						return editReply(f, func(rep []byte) []byte {
							parts := splitMulti(rep)
							if len(parts) == 0 {
								return rep
							}
							hit = true
							k := victim % len(parts)
							parts = append(append([][]byte(nil), parts[:k]...), parts[k+1:]...)
							return joinMulti(rep, parts, seqInts(len(parts)))
						})
					}}
				case "outer-status":
					hit = true
					return &plc.Action{Reply: &plc.Reply{Status: st, Ext: ext}}
				case "close":
					hit = true
					return &plc.Action{Close: true}
				}
				return nil
			}
			w.p.Unlock()
		}
		before := w.p.Snapshot()
		full := w.p.Snapshot()
		for k, f := range effectsFor(w, m, names) {
			_ = k
			f(full)
		}
		var err error
		ok := t.Guard("WriteMap/"+kind, func() { err = c.WriteMap(m) })
		w.p.Lock()
		w.p.OnReq = nil
		h := hit
		w.p.Unlock()
		if !ok || !h {
			continue
		}
		t.Count("rejections", 1)
		t.Eval(fmt.Sprintf("%s/%s/at%s", kind, qclass(len(m)), qclass(victim)))
		if err == nil {
			t.Fail("rejected:"+kind, "WriteMap of %d tags reported success although one of them was not accepted (%s)", len(m), kind)
		}
		after := w.p.Snapshot()
		for k := range after {
			if len(after[k]) != len(before[k]) {
				continue
			}
			for i := range after[k] {
				if after[k][i] != before[k][i] && after[k][i] != full[k][i] {
					// a byte of packed BOOLs may hold a mix
					if (after[k][i]^before[k][i])&^(full[k][i]^before[k][i]) == 0 {
						continue
					}
					t.Fail("foreign-byte:"+kind, "failed WriteMap left %s byte %d as %#x (was %#x, to be %#x)", k, i, after[k][i], before[k][i], full[k][i])
					return
				}
			}
		}
	}
}

func c12Bad(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	a := w.p.Add(&plc.Tag{Name: "A", Type: plc.DINT})
	s := w.addString()
	for name, v := range map[string]any{"nil": nil, "int": 5, "func": func() {}, "any-slice": []any{1}, "long-string": strings.Repeat("y", 83), "long-string-utf8": strings.Repeat("é", 42), "long-string-wide": strings.Repeat("語", 82), "empty-slice": []int32{}, "map": map[string]int{}, "nil-ptr": (*int32)(nil)} {
		tg := a.Name
		if strings.HasPrefix(name, "long-string") {
			tg = s.Name
		}
		before := w.p.Snapshot()
		var err error
		t.Guard("WriteMap/"+name, func() { err = c.WriteMap(map[string]any{tg: v}) })
		t.Eval("unrepresentable/" + name)
		if err == nil {
			t.Fail("unrepresentable:"+name, "WriteMap of %T reported success", v)
		}
		if d := diffMem(w.p.Snapshot(), before); len(d) > 0 {
			t.Fail("unrepresentable-changed:"+name, "failed WriteMap of %T changed memory: %s", v, d[0])
		}
	}
	for name, v := range map[string]any{"nil": nil, "int": 5, "map": map[string]any{"A": int32(5)}, "unexported": struct {
		a int32 `gologix:"A"`
	}{5}, "int-field": struct {
		A int `gologix:"A"`
	}{5}, "twice": struct {
		A int32 `gologix:"A"`
		B int32 `gologix:"A"`
	}{5, 6}, "twice-other-type": struct {
		A int16 `gologix:"A"`
		B int32 `gologix:"A"`
	}{5, 6}, "twice-float": struct {
		X int32   `gologix:"A"`
		Y float32 `gologix:"A"`
		Z int32   `gologix:"A"`
	}{5, 6, 7}, "nested-unexported": struct {
		A struct{ x int32 } `gologix:"A"`
	}{}} {
		before := w.p.Snapshot()
		var err error
		t.Guard("WriteMulti/"+name, func() { err = c.WriteMulti(v) })
		t.Eval("unrepresentable/multi/" + name)
		if err == nil {
			t.Fail("unrepresentable:multi/"+name, "WriteMulti(%T) reported success", v)
		}
		if d := diffMem(w.p.Snapshot(), before); len(d) > 0 {
			t.Fail("unrepresentable-changed:multi/"+name, "failed WriteMulti changed memory: %s", d[0])
		}
	}
	var err error
	t.Guard("WriteMap/empty", func() { err = c.WriteMap(map[string]any{}) })
	t.Guard("WriteMap/nil", func() { err = c.WriteMap(nil) })
	_ = err
}
