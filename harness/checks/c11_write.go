package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C11",
		Rule: "each evaluation is one Write whose effect on the whole memory of the controller model is compared with the prediction (exactly the Logix encoding of the value at the named place, every other byte as before, or an error and no change), together with the type code and element count of the request and a read back; " +
			"non-trivial = distinct (Go type, place kind, element-count class, start class) or distinct value that must be rejected",
		Assumptions: []string{"the controller model (harness/plc) type-checks and stores writes as a Logix controller does"},
		Cases:       c11Cases,
		MinEvents:   []string{"writes_ok", "writes_rejected", "bytes_unchanged"},
	})
}

func c11Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 600, 20000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("random-%d", i), Run: c11Random})
	}
	cs = append(cs, rt.Case{Name: "all-types", Run: c11AllTypes})
	cs = append(cs, rt.Case{Name: "strings", Run: c11Strings})
	for i := 0; i < tiered(tier, 15, 200); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("unrepresentable-%d", i), Run: c11Bad})
	}
	cs = append(cs, rt.Case{Name: "sizes", Run: c11Sizes})
	return cs
}

// place is somewhere a value can be written.
type place struct {
	name string // address
	tag  string // tag it lies in
	off  int
	typ  byte
	udt  *plc.UDT
	goT  reflect.Type // struct type
	n    int          // elements from here
	bit  int          // -1, or the bit of a packed BOOL member
	kind string
}

func (w *world) structTag(typ reflect.Type, n int) *udtTag {
	u := w.addStructTag(typ, n, 0)
	ids := uint16(0x100 + w.r.IntN(0xA00))
	w.p.Lock()
	u.tag.UDT = udtOf(typ, "U"+u.tag.Name, &ids)
	w.p.Unlock()
	return u
}

// writeWorld fills a world for write tests.
func writeWorld(w *world) {
	r := w.r
	for i := 0; i < 12; i++ {
		w.addAtomic(atoms[r.IntN(len(atoms))].Code)
	}
	for i := 0; i < 8; i++ {
		w.addArray(atoms[r.IntN(len(atoms))].Code, randDims(r)...)
	}
	for i := 0; i < 3; i++ {
		w.addString()
		w.addStringArray(1 + r.IntN(7))
	}
	for i := 0; i < 3; i++ {
		w.structTag(randStruct(r, 2), 1)
		w.structTag(randStruct(r, 2), 2+r.IntN(4))
	}
	for _, st := range staticStructs {
		w.structTag(st, 1)
		w.structTag(st, 3)
	}
	w.structTag(tTimer, 1)
	w.structTag(tCounter, 2)
	w.structTag(tControl, 1)
	// program scope
	for i := 0; i < 3; i++ {
		w.p.Add(&plc.Tag{Name: "Program:Main." + w.name(), Type: plc.DINT, Dims: []int{5}, Data: randData(r, plc.DINT, 5)})
	}
}

// places picks a random place.
func (w *world) place() place {
	r := w.r
	switch r.IntN(9) {
	case 0, 1:
		tg := w.atomic[r.IntN(len(w.atomic))]
		return place{name: tg.Name, tag: tg.Name, typ: tg.Type, n: 1, bit: -1, kind: "scalar"}
	case 2, 3:
		tg := w.arrays[r.IntN(len(w.arrays))]
		lin := r.IntN(tg.Elems())
		nm := tg.Name
		if lin > 0 || r.IntN(2) == 0 {
			nm += indexText(tg.Dims, lin)
		}
		return place{name: nm, tag: tg.Name, off: lin * plc.Size(tg.Type), typ: tg.Type, n: tg.Elems() - lin, bit: -1, kind: fmt.Sprintf("array%d", len(tg.Dims))}
	case 4:
		tg := w.strs[r.IntN(len(w.strs))]
		return place{name: tg.Name, tag: tg.Name, typ: plc.STRUCT, udt: tg.UDT, n: 1, bit: -1, kind: "STRING"}
	case 5:
		tg := w.strArr[r.IntN(len(w.strArr))]
		i := r.IntN(tg.Dims[0])
		return place{name: fmt.Sprintf("%s[%d]", tg.Name, i), tag: tg.Name, off: 88 * i, typ: plc.STRUCT, udt: tg.UDT, n: tg.Dims[0] - i, bit: -1, kind: "STRING-array"}
	}
	u := w.udts[r.IntN(len(w.udts))]
	pl := place{name: u.tag.Name, tag: u.tag.Name, typ: plc.STRUCT, udt: u.tag.UDT, goT: u.typ, n: len(u.val), bit: -1, kind: "UDT"}
	if len(u.val) > 1 {
		i := r.IntN(len(u.val))
		pl.name += fmt.Sprintf("[%d]", i)
		pl.off = i * u.tag.UDT.Size
		pl.n = len(u.val) - i
		pl.kind = "UDT-elem"
	}
	// down into members
	for pl.typ == plc.STRUCT && pl.udt != plc.StringUDT && r.IntN(3) > 0 {
		m := pl.udt.Members[r.IntN(len(pl.udt.Members))]
		if predefined(pl.goT) {
			pl.goT = nil
		} else {
			f, _ := pl.goT.FieldByName(m.Name)
			pl.goT = f.Type
			if m.Type == plc.DWORD && f.Type.Kind() == reflect.Array && f.Type.Elem() == tBool {
				pl.goT = nil
			}
		}
		pl.name += "." + m.Name
		pl.off += m.Offset
		pl.typ, pl.udt, pl.n, pl.bit, pl.kind = m.Type, m.UDT, 1, -1, "member"
		if m.Type == plc.BOOL {
			pl.bit = m.Bit
		}
		if m.Len > 0 {
			i := r.IntN(m.Len)
			pl.name += fmt.Sprintf("[%d]", i)
			pl.n = m.Len - i
			sz := 0
			if m.Type == plc.STRUCT {
				sz = m.UDT.Size
				pl.goT = pl.goT.Elem()
			} else {
				sz = plc.Size(m.Type)
			}
			pl.off += i * sz
			pl.kind = "member-elem"
		}
	}
	return pl
}

// goValue draws a value the place can hold, with the bytes it must leave there.
func (w *world) goValue(pl place, limit int) (any, []byte) {
	r := w.r
	if pl.typ == plc.STRUCT && pl.udt == plc.StringUDT {
		n := 1 + r.IntN(pl.n)
		if n*88 > limit {
			n = 1
		}
		b := make([]byte, 88*n)
		l := make([]string, n)
		for i := range l {
			l[i] = randString(r, 82)
			plc.PutString(b[88*i:], l[i])
		}
		if n == 1 && r.IntN(3) > 0 {
			return l[0], b
		}
		return l, b
	}
	if pl.typ == plc.STRUCT {
		v := reflect.New(pl.goT).Elem()
		randFill(r, v)
		clearUnused(v)
		return v.Interface(), encodeTag(v)
	}
	a := atomOf(pl.typ)
	if pl.n > 1 && pl.typ != plc.BOOL && r.IntN(3) > 0 {
		n := 1 + r.IntN(pl.n)
		if n*plc.Size(pl.typ) > limit {
			n = max(1, limit/plc.Size(pl.typ))
		}
		b := randData(r, pl.typ, n)
		return goSlice(pl.typ, b).Interface(), b
	}
	b := randElem(r, pl.typ)
	_ = a
	return plc.Value(pl.typ, b), b
}

// writable tells whether the natural Go type of a CIP type is also written as that type.
func writable(typ byte) bool {
	switch typ {
	case plc.STRUCT:
		return true
	}
	c := writeCode[atomOf(typ).Go]
	return c == typ || c == plc.BYTE && typ == plc.USINT || c == plc.LWORD && typ == plc.ULINT || c == plc.UDINT && typ == plc.DWORD || c == plc.UINT && typ == plc.WORD
}

func applyAt(mem map[string]string, pl place, enc []byte) {
	b := []byte(mem[strings.ToLower(pl.tag)])
	if pl.bit >= 0 {
		b[pl.off] &^= 1 << pl.bit
		if enc[0] != 0 {
			b[pl.off] |= 1 << pl.bit
		}
	} else {
		copy(b[pl.off:], enc)
	}
	mem[strings.ToLower(pl.tag)] = string(b)
}

// diffMem names the tags that differ.
func diffMem(got, want map[string]string) []string {
	d := []string{}
	for k, v := range want {
		if got[k] != v {
			i := 0
			for i < len(v) && i < len(got[k]) && v[i] == got[k][i] {
				i++
			}
			d = append(d, fmt.Sprintf("%s at byte %d: holds %x, must hold %x", k, i, clip(got[k], i), clip(v, i)))
		}
	}
	sort.Strings(d)
	return d
}

func clip(s string, i int) string {
	e := min(len(s), i+24)
	return s[min(i, len(s)):e]
}

func memBytes(m map[string]string) int {
	n := 0
	for _, v := range m {
		n += len(v)
	}
	return n
}

// c11Write performs one write and judges it.
func c11Write(t *rt.T, w *world, c *gologix.Client, pl place, v any, enc []byte, sig string) {
	before := w.p.Snapshot()
	from := w.p.LogLen()
	wire := len(w.p.WireErrors())
	var err error
	name := recase(t.R, pl.name)
	if !t.Guard("Write", func() { err = c.Write(name, v) }) {
		return
	}
	after := w.p.Snapshot()
	if err != nil {
		t.Fail("write-error:"+sig, "Write(%q, %s) failed: %v", name, show(v), err)
		if d := diffMem(after, before); len(d) > 0 {
			t.Fail("failed-write-changed:"+sig, "failed Write(%q) changed memory: %s", name, d[0])
		}
		return
	}
	t.Count("writes_ok", 1)
	t.Count("bytes_unchanged", memBytes(before)-len(enc))
	applyAt(before, pl, enc)
	if d := diffMem(after, before); len(d) > 0 {
		t.Fail("write-value:"+sig, "after Write(%q, %s): %s", name, show(v), strings.Join(d, "; "))
		return
	}
	if e := w.p.WireErrors(); len(e) > wire {
		t.Fail("write-wire:"+sig, "Write(%q, %T): %s", name, v, e[wire])
	}
	rs := flat(w.p.Requests(from))
	if len(rs) != 1 || rs[0].Service != 0x4D {
		t.Fail("write-requests:"+sig, "Write(%q, %T) sent %d tag requests", name, v, len(rs))
		return
	}
	d := rs[0].Data
	if pl.typ != plc.STRUCT {
		gt := reflect.TypeOf(v)
		if gt.Kind() == reflect.Slice {
			gt = gt.Elem()
		}
		if d[0] != writeCode[gt] {
			t.Fail("write-type:"+sig, "Write(%q, %T) sent type %#x", name, v, d[0])
		}
	}
}

// readBack reads the value again by its own Go type.
func readBack(t *rt.T, c *gologix.Client, name string, v any, sig string) {
	want := reflect.ValueOf(v)
	var got reflect.Value
	var err error
	if want.Kind() == reflect.Slice {
		got = reflect.MakeSlice(want.Type(), want.Len(), want.Len())
		if want.Type().Elem() == tBool {
			return
		}
		err = readInto(t, c, name, got)
	} else {
		p := reflect.New(want.Type())
		err = readInto(t, c, name, p)
		got = p.Elem()
	}
	if err != nil {
		t.Fail("readback-error:"+sig, "Read(%q) after a successful Write of %s failed: %v", name, show(v), err)
	} else if !same(got.Interface(), v) {
		t.Fail("readback-value:"+sig, "wrote %s to %q, read back %s", show(v), name, show(got.Interface()))
	}
}

func c11Random(t *rt.T) {
	w := newWorld(t)
	writeWorld(w)
	size := []uint16{0, 500, 1000, 4000}[t.R.IntN(4)]
	c := dial(t, w.p, size)
	if c == nil {
		return
	}
	for i := 0; i < 60 && !t.Failed(); i++ {
		pl := w.place()
		if !writable(pl.typ) || (pl.typ == plc.STRUCT && pl.udt != plc.StringUDT && (pl.goT == nil || pl.udt.Size+80 > int(c.ConnectionSize))) {
			continue
		}
		v, enc := w.goValue(pl, int(c.ConnectionSize)-120)
		if len(enc) > int(c.ConnectionSize)-120 {
			continue
		}
		sig := pl.kind + "/" + plc.TypeName(pl.typ)
		if reflect.TypeOf(v).Kind() == reflect.Slice {
			sig += "/slice"
		}
		c11Write(t, w, c, pl, v, enc, sig)
		t.Eval(fmt.Sprintf("%s/%T/%s", sig, v, class(len(enc)/max(1, elemSize(pl)))))
		if !t.Failed() && pl.bit < 0 {
			readBack(t, c, pl.name, v, sig)
		}
		if i%7 == 0 {
			c11Reject(t, w, c)
		}
	}
}

func elemSize(pl place) int {
	if pl.typ == plc.STRUCT {
		return pl.udt.Size
	}
	return plc.Size(pl.typ)
}

// c11Reject writes something the place cannot hold.
func c11Reject(t *rt.T, w *world, c *gologix.Client) {
	r := t.R
	pl := w.place()
	if pl.typ == plc.STRUCT && pl.udt != plc.StringUDT && pl.goT == nil {
		return
	}
	var v any
	what := ""
	switch r.IntN(6) {
	case 0: // another atomic type
		b := atoms[r.IntN(len(atoms))]
		if pl.typ == writeCode[b.Go] || pl.typ != plc.STRUCT && atomOf(pl.typ).Go == b.Go {
			return
		}
		v = plc.Value(b.Code, randElem(r, b.Code))
		what = "type"
	case 1: // too many elements
		if pl.typ == plc.STRUCT || pl.bit >= 0 || !writable(pl.typ) {
			return
		}
		v = goSlice(pl.typ, randData(r, pl.typ, pl.n+1+r.IntN(3))).Interface()
		what = "past-end"
	case 2: // long string
		v = strings.Repeat("L", 83+r.IntN(100))
		what = "long-string"
	case 3: // another structure
		if pl.goT == tTimer {
			return
		}
		v = lgxtypes.TIMER{PRE: 5}
		what = "structure"
	case 4: // unknown tag
		pl.name = "NoSuch" + pl.name
		v = int32(4)
		what = "unknown"
	case 5: // read-only tag
		tg := w.p.Add(&plc.Tag{Name: w.name(), Type: plc.DINT, ReadOnly: true, Data: []byte{1, 2, 3, 4}})
		pl.name = tg.Name
		v = int32(99)
		what = "read-only"
	}
	c11MustFail(t, w, c, pl.name, v, what)
}

func c11MustFail(t *rt.T, w *world, c *gologix.Client, name string, v any, what string) {
	before := w.p.Snapshot()
	var err error
	if !t.Guard("Write/"+what, func() { err = c.Write(name, v) }) {
		return
	}
	t.Eval(fmt.Sprintf("reject/%s/%T", what, v))
	t.Count("writes_rejected", 1)
	d := diffMem(w.p.Snapshot(), before)
	if err == nil {
		t.Fail("accepted:"+what, "Write(%q, %s) reported success; memory changes: %v", name, show(v), d)
	} else if len(d) > 0 {
		t.Fail("failed-write-changed:"+what, "failed Write(%q, %s) changed memory: %s", name, show(v), d[0])
	}
}

func c11AllTypes(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	for _, a := range atoms {
		if !writable(a.Code) {
			continue
		}
		sz := plc.Size(a.Code)
		tg := w.p.Add(&plc.Tag{Name: w.name(), Type: a.Code})
		w.addAtomic(plc.LINT)
		pl := place{name: tg.Name, tag: tg.Name, typ: a.Code, n: 1, bit: -1, kind: "scalar"}
		for _, pat := range []byte{0, 0xFF, 0x80, 0x7F, 1, 0xAA, 0x55} {
			b := make([]byte, sz)
			for i := range b {
				b[i] = pat
			}
			if a.Code == plc.BOOL {
				b[0] &= 1
			}
			v := plc.Value(a.Code, b)
			if f, ok := v.(float32); ok && f != f {
				continue
			}
			if f, ok := v.(float64); ok && f != f {
				continue
			}
			c11Write(t, w, c, pl, v, b, "scalar/"+a.Name)
			t.Eval(fmt.Sprintf("boundary/%s/%d", a.Name, pat))
			readBack(t, c, tg.Name, v, "scalar/"+a.Name)
		}
		if a.Code == plc.BOOL {
			continue
		}
		at := w.p.Add(&plc.Tag{Name: w.name(), Type: a.Code, Dims: []int{120}, Data: randData(t.R, a.Code, 120)})
		for _, n := range []int{1, 2, 3, 50, 100} {
			for _, start := range []int{0, 1, 7, 20} {
				b := randData(t.R, a.Code, n)
				pl := place{name: fmt.Sprintf("%s[%d]", at.Name, start), tag: at.Name, off: start * sz, typ: a.Code, n: 120 - start, bit: -1}
				v := goSlice(a.Code, b).Interface()
				c11Write(t, w, c, pl, v, b, "slice/"+a.Name)
				t.Eval(fmt.Sprintf("slice/%s/%d/%d", a.Name, n, start))
				readBack(t, c, pl.name, v, "slice/"+a.Name)
			}
		}
	}
}

func c11Strings(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	one := w.addString()
	arr := w.p.Add(&plc.Tag{Name: "SArr", Type: plc.STRUCT, UDT: plc.StringUDT, Dims: []int{20}})
	for n := 0; n <= 82; n++ {
		s := ""
		for len(s) < n {
			s += string(rune('!' + (len(s)*5+n)%90))
		}
		enc := make([]byte, 88)
		plc.PutString(enc, s)
		c11Write(t, w, c, place{name: one.Name, tag: one.Name, typ: plc.STRUCT, udt: plc.StringUDT, n: 1, bit: -1}, s, enc, "STRING")
		readBack(t, c, one.Name, s, "STRING")
		i := n % 20
		pl := place{name: fmt.Sprintf("SArr[%d]", i), tag: arr.Name, off: 88 * i, typ: plc.STRUCT, udt: plc.StringUDT, bit: -1}
		c11Write(t, w, c, pl, s, enc, "STRING-elem")
		readBack(t, c, pl.name, s, "STRING-elem")
		t.Eval(fmt.Sprintf("STRING/len/%d", n))
	}
	for n := 1; n <= 20; n++ {
		l := []string{}
		enc := []byte{}
		for k := 0; k < n; k++ {
			s := randString(t.R, 82)
			l = append(l, s)
			b := make([]byte, 88)
			plc.PutString(b, s)
			enc = append(enc, b...)
		}
		pl := place{name: "SArr[0]", tag: arr.Name, typ: plc.STRUCT, udt: plc.StringUDT, bit: -1}
		c11Write(t, w, c, pl, l, enc, "STRING-slice")
		readBack(t, c, pl.name, l, "STRING-slice")
		t.Eval(fmt.Sprintf("STRING/slice/%d", n))
	}
	for n := 83; n < 300; n += 13 {
		c11MustFail(t, w, c, one.Name, strings.Repeat("x", n), "long-string")
		c11MustFail(t, w, c, "SArr[3]", []string{"ok", strings.Repeat("x", n)}, "long-string")
	}
	// the length counts bytes, not letters
	for _, ch := range []string{"é", "ß", "€", "日", "🙂"} {
		fit := 82 / len(ch)
		text := strings.Repeat(ch, fit)
		enc := make([]byte, 88)
		plc.PutString(enc, text)
		c11Write(t, w, c, place{name: one.Name, tag: one.Name, typ: plc.STRUCT, udt: plc.StringUDT, n: 1, bit: -1}, text, enc, "STRING-utf8")
		readBack(t, c, one.Name, text, "STRING-utf8")
		for _, n := range []int{fit + 1, fit + 2, 50, 82} {
			if n*len(ch) > 82 {
				c11MustFail(t, w, c, one.Name, strings.Repeat(ch, n), "long-utf8")
				c11MustFail(t, w, c, "SArr[3]", []string{"ok", strings.Repeat(ch, n)}, "long-utf8")
			}
		}
		t.Eval("STRING/utf8/" + ch)
	}
}

func c11Bad(t *rt.T) {
	w := newWorld(t)
	writeWorld(w)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	d := w.p.Add(&plc.Tag{Name: "ADint", Type: plc.DINT, Data: []byte{1, 2, 3, 4}})
	a := w.p.Add(&plc.Tag{Name: "AArr", Type: plc.DINT, Dims: []int{10}, Data: randData(t.R, plc.DINT, 10)})
	type named int32
	type withFunc struct{ F func() }
	type withPtr struct{ P *int32 }
	type withInt struct{ I int }
	x := int32(5)
	vals := map[string]any{"nil": nil, "int": 5, "uint": uint(5), "func": func() {}, "chan": make(chan int), "map": map[string]int{"a": 1}, "complex": complex(1, 2),
		"nil-slice": []int32(nil), "empty-slice": []int32{}, "int-slice": []int{1, 2}, "any-slice": []any{int32(1)}, "slice-slice": [][]int32{{1}},
		"nil-ptr": (*int32)(nil), "nil-struct-ptr": (*SMix)(nil), "func-struct": withFunc{}, "ptr-struct": withPtr{}, "int-struct": withInt{5}, "empty-struct": struct{}{},
		"struct-slice": []SMix{{}, {}}, "error": fmt.Errorf("x")}
	for _, k := range rt.SortedKeys(vals) {
		c11MustFail(t, w, c, d.Name, vals[k], k)
		c11MustFail(t, w, c, a.Name, vals[k], k)
	}
	// values whose meaning is not fixed: an error, or exactly this value
	for k, v := range map[string]any{"ptr": &x, "named": named(5), "array": [1]int32{5}} {
		before := w.p.Snapshot()
		var err error
		t.Guard("Write/"+k, func() { err = c.Write(d.Name, v) })
		t.Eval("unclear/" + k)
		if err == nil {
			applyAt(before, place{tag: d.Name, bit: -1}, []byte{5, 0, 0, 0})
		}
		if df := diffMem(w.p.Snapshot(), before); len(df) > 0 {
			t.Fail("unclear:"+k, "Write(%q, %T) (err %v): %s", d.Name, v, err, df[0])
		}
	}
	// single bits cannot be written without touching the others
	for bit := 0; bit < 32; bit += 5 {
		for _, v := range []any{true, false} {
			before := w.p.Snapshot()
			var err error
			t.Guard("Write/bit", func() { err = c.Write(fmt.Sprintf("ADint.%d", bit), v) })
			t.Eval(fmt.Sprintf("bit/%d", bit))
			if err == nil {
				b := []byte(before["adint"])
				b[bit/8] &^= 1 << (bit % 8)
				if v.(bool) {
					b[bit/8] |= 1 << (bit % 8)
				}
				before["adint"] = string(b)
			}
			if df := diffMem(w.p.Snapshot(), before); len(df) > 0 {
				t.Fail("bit-write", "Write(ADint.%d, %v) (err %v): %s", bit, v, err, df[0])
			}
		}
	}
	for i := 0; i < 60; i++ {
		c11Reject(t, w, c)
	}
	// and the client still works
	for i := 0; i < 10 && !t.Failed(); i++ {
		pl := place{name: d.Name, tag: d.Name, typ: plc.DINT, n: 1, bit: -1}
		c11Write(t, w, c, pl, int32(i), plc.LE.AppendUint32(nil, uint32(i)), "after-rejects")
		t.Eval("after-rejects")
	}
}

// c11Sizes writes arrays around the size of the connection.
func c11Sizes(t *rt.T) {
	for _, size := range []uint16{200, 511, 1000, 4000, 33000, 65000} {
		w := newWorld(t)
		c := dial(t, w.p, size)
		if c == nil {
			return
		}
		for _, code := range []byte{plc.SINT, plc.INT, plc.DINT, plc.LINT} {
			sz := plc.Size(code)
			tg := w.p.Add(&plc.Tag{Name: "Big" + plc.TypeName(code), Type: code, Dims: []int{70000}})
			for n := max(1, int(size)/sz-40/sz-2); n < int(size)/sz+3; n++ {
				b := randData(t.R, code, n)
				v := goSlice(code, b).Interface()
				before := w.p.Snapshot()
				var err error
				t.Guard("Write", func() { err = c.Write(tg.Name, v) })
				t.Eval(fmt.Sprintf("size/%d/%s/%d", size, plc.TypeName(code), n))
				if err == nil {
					t.Count("writes_ok", 1)
					applyAt(before, place{tag: tg.Name, bit: -1}, b)
				} else {
					t.Count("writes_rejected", 1)
				}
				if d := diffMem(w.p.Snapshot(), before); len(d) > 0 {
					t.Fail("size", "Write of %d %s on a connection of %d (err %v): %s", n, plc.TypeName(code), size, err, d[0])
				}
				if err != nil && n*sz+40 < int(size) {
					t.Fail("size-rejected", "Write of %d %s (%d bytes) on a connection of %d failed: %v", n, plc.TypeName(code), n*sz, size, err)
				}
			}
		}
		if e := w.p.SizeErrors(); len(e) > 0 {
			t.Fail("oversize", "%s", e[0])
		}
		if e := w.p.WireErrors(); len(e) > 0 {
			t.Fail("wire", "%s", e[0])
		}
	}
}
