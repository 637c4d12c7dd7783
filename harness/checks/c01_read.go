package checks

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

// world is a controller with random tags of every kind.
type world struct {
	p      *plc.PLC
	r      *rand.Rand
	used   map[string]bool
	atomic []*plc.Tag // scalars
	arrays []*plc.Tag
	strs   []*plc.Tag
	strArr []*plc.Tag
	udts   []*udtTag
	bools  []*plc.Tag // BOOL arrays (DWORD storage)
}

type udtTag struct {
	tag *plc.Tag
	typ reflect.Type
	val []reflect.Value
}

func tiered(tier string, quick, thorough int) int {
	if tier == "thorough" {
		return thorough
	}
	return quick
}

func newWorld(t *rt.T) *world {
	w := &world{p: newPLC(t), r: t.R, used: map[string]bool{}}
	return w
}

func (w *world) name() string { return uniqueName(w.r, w.used, 1, 24) }

func (w *world) addAtomic(code byte) *plc.Tag {
	tg := w.p.Add(&plc.Tag{Name: w.name(), Type: code, Data: randElem(w.r, code)})
	w.atomic = append(w.atomic, tg)
	return tg
}

func (w *world) addArray(code byte, dims ...int) *plc.Tag {
	n := 1
	for _, d := range dims {
		n *= d
	}
	tg := w.p.Add(&plc.Tag{Name: w.name(), Type: code, Dims: dims, Data: randData(w.r, code, n)})
	w.arrays = append(w.arrays, tg)
	return tg
}

func (w *world) addString() *plc.Tag {
	b := make([]byte, 88)
	plc.PutString(b, randString(w.r, 82))
	tg := w.p.Add(&plc.Tag{Name: w.name(), Type: plc.STRUCT, UDT: plc.StringUDT, Data: b})
	w.strs = append(w.strs, tg)
	return tg
}

func (w *world) addStringArray(n int) *plc.Tag {
	b := make([]byte, 88*n)
	for i := 0; i < n; i++ {
		plc.PutString(b[88*i:], randString(w.r, 82))
	}
	tg := w.p.Add(&plc.Tag{Name: w.name(), Type: plc.STRUCT, UDT: plc.StringUDT, Dims: []int{n}, Data: b})
	w.strArr = append(w.strArr, tg)
	return tg
}

func (w *world) addBoolArray(words int) *plc.Tag {
	tg := w.p.Add(&plc.Tag{Name: w.name(), Type: plc.DWORD, Dims: []int{words}, Data: randData(w.r, plc.DWORD, words)})
	w.bools = append(w.bools, tg)
	return tg
}

// addStructTag adds n structures of a Go struct type.
func (w *world) addStructTag(typ reflect.Type, n int, handle uint16) *udtTag {
	u := &udtTag{typ: typ}
	size := len(encodeTag(reflect.New(typ).Elem()))
	udt := &plc.UDT{Name: "U" + w.name(), ID: uint16(0x100 + w.r.IntN(0xD00)), Handle: handle, Size: size}
	data := []byte{}
	for i := 0; i < n; i++ {
		v := reflect.New(typ).Elem()
		randFill(w.r, v)
		clearUnused(v)
		u.val = append(u.val, v)
		data = append(data, encodeTag(v)...)
	}
	tg := &plc.Tag{Name: w.name(), Type: plc.STRUCT, UDT: udt, Data: data}
	if n > 1 {
		tg.Dims = []int{n}
	}
	u.tag = w.p.Add(tg)
	w.udts = append(w.udts, u)
	return u
}

// clearUnused resets the TIMER members that are not stored.
func clearUnused(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == tTimer {
			for _, n := range []string{"FS", "LS", "OV", "ER"} {
				if f := v.FieldByName(n); f.IsValid() {
					f.SetBool(false)
				}
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			clearUnused(v.Field(i))
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			clearUnused(v.Index(i))
		}
	}
}

// indexText renders a linear index for given dims.
func indexText(dims []int, lin int) string {
	idx := make([]int, len(dims))
	for k := len(dims) - 1; k >= 0; k-- {
		idx[k] = lin % dims[k]
		lin /= dims[k]
	}
	s := []string{}
	for _, x := range idx {
		s = append(s, fmt.Sprint(x))
	}
	return "[" + strings.Join(s, ",") + "]"
}

func randDims(r *rand.Rand) []int {
	switch r.IntN(6) {
	case 0:
		return []int{1 + r.IntN(4), 1 + r.IntN(12)}
	case 1:
		return []int{1 + r.IntN(4), 1 + r.IntN(5), 1 + r.IntN(6)}
	case 2:
		return []int{250 + r.IntN(80)}
	}
	return []int{1 + r.IntN(40)}
}

var bitTypes = []byte{plc.SINT, plc.USINT, plc.BYTE, plc.INT, plc.UINT, plc.WORD, plc.DINT, plc.UDINT, plc.DWORD, plc.LINT, plc.LWORD, plc.ULINT}

// static types for ReadPacked and Read of structs
type SMix struct {
	A int32
	B bool
	C bool
	D int16
	E float32
	F [3]int16
	G int64
}
type SFlags struct {
	B0, B1, B2, B3, B4, B5, B6, B7, B8, B9 bool
	N                                      int32
	Arr                                    [32]bool
	X                                      int8
}
type SNest struct {
	In  SMix
	Tab [3]SInner
	Z   int32
}
type SInner struct {
	P int32
	Q bool
	R bool
	S int16
}

var staticStructs = []reflect.Type{reflect.TypeOf(SMix{}), reflect.TypeOf(SFlags{}), reflect.TypeOf(SNest{}), reflect.TypeOf(SInner{})}

func readPackedStatic(c *gologix.Client, name string, typ reflect.Type) (any, error) {
	switch typ {
	case staticStructs[0]:
		return gologix.ReadPacked[SMix](c, name)
	case staticStructs[1]:
		return gologix.ReadPacked[SFlags](c, name)
	case staticStructs[2]:
		return gologix.ReadPacked[SNest](c, name)
	}
	return gologix.ReadPacked[SInner](c, name)
}

func init() {
	register(&rt.Check{
		ID: "C01",
		Rule: "each evaluation is one Read/Read_single/ReadPacked call whose result is compared, bit by bit, with the memory of the controller model (or must be an error when the Go type cannot hold the tag's type); " +
			"non-trivial = distinct (API, CIP type, Go target, element-count class, start-index class, fragmentation or not)",
		Assumptions: []string{"the controller model (harness/plc) answers as a Logix controller does", "BOOL arrays are addressed from their first word"},
		Cases:       c01Cases,
		MinEvents:   []string{"reads_ok", "reads_rejected"},
	})
}

func class(n int) string {
	switch {
	case n == 0:
		return "0"
	case n == 1:
		return "1"
	case n < 5:
		return "2-4"
	case n < 256:
		return "5-255"
	}
	return "256+"
}

func c01Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	n := tiered(tier, 900, 30000)
	for i := 0; i < n; i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("random-%d", i), Run: func(t *rt.T) { c01Random(t) }})
	}
	cs = append(cs, rt.Case{Name: "all-types", Run: c01AllTypes})
	for _, size := range []uint16{100, 200, 511, 1000, 4000, 20000, 33000, 50000, 65000, 65535} {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("size-%d", size), Run: func(t *rt.T) { c01Sizes(t, size) }})
	}
	cs = append(cs, rt.Case{Name: "all-bits", Run: c01AllBits})
	cs = append(cs, rt.Case{Name: "string-lengths", Run: c01Strings})
	cs = append(cs, rt.Case{Name: "targets", Run: c01Targets})
	cs = append(cs, rt.Case{Name: "too-long", Run: c01TooLong})
	cs = append(cs, rt.Case{Name: "changing-values", Run: c01Changing})
	return cs
}

func fillWorld(w *world) {
	r := w.r
	for i := 0; i < 12; i++ {
		w.addAtomic(atoms[r.IntN(len(atoms))].Code)
	}
	for i := 0; i < 8; i++ {
		w.addArray(atoms[r.IntN(len(atoms))].Code, randDims(r)...)
	}
	for i := 0; i < 3; i++ {
		w.addString()
		w.addStringArray(1 + r.IntN(7))
	}
	w.addBoolArray(1)
	w.addBoolArray(2 + r.IntN(6))
	w.addBoolArray(8 + r.IntN(40))
	for i := 0; i < 3; i++ {
		w.addStructTag(randStruct(r, 2), 1, uint16(r.Uint32()))
		w.addStructTag(randStruct(r, 2), 2+r.IntN(4), uint16(r.Uint32()))
	}
	for _, st := range staticStructs {
		w.addStructTag(st, 1, uint16(r.Uint32()))
		w.addStructTag(st, 3, uint16(r.Uint32()))
	}
}

// expectRead compares one delivered value.
func expectRead(t *rt.T, sig, what string, err error, got, want any) {
	if err != nil {
		t.Fail("read-error:"+sig, "%s failed: %v (controller holds %s)", what, err, show(want))
		return
	}
	t.Count("reads_ok", 1)
	if !same(got, want) {
		t.Fail("read-value:"+sig, "%s returned %s, controller holds %s", what, show(got), show(want))
	}
}

// readScalar reads an atomic element by its natural Go type.
func readInto(t *rt.T, c *gologix.Client, name string, target reflect.Value) (err error) {
	t.Guard("Read", func() { err = c.Read(name, target.Interface()) })
	return err
}

func c01Random(t *rt.T) {
	w := newWorld(t)
	fillWorld(w)
	size := []uint16{0, 500, 1000, 4000}[t.R.IntN(4)]
	c := dial(t, w.p, size)
	if c == nil {
		return
	}
	for i := 0; i < 60 && !t.Failed(); i++ {
		c01One(t, w, c)
	}
	for _, e := range w.p.WireErrors() {
		t.Count("wire_errors_seen", 1)
		_ = e
	}
}

func (w *world) maxElems(sz int, c *gologix.Client) int {
	return (int(c.ConnectionSize) - 20) / sz
}

func c01One(t *rt.T, w *world, c *gologix.Client) {
	r := t.R
	switch r.IntN(13) {
	case 0, 1: // scalar
		tg := w.atomic[r.IntN(len(w.atomic))]
		a := atomOf(tg.Type)
		v := reflect.New(a.Go)
		junk(r, v.Elem())
		name := recase(r, tg.Name)
		err := readInto(t, c, name, v)
		t.Eval("Read/" + a.Name + "/scalar")
		expectRead(t, "scalar/"+a.Name, fmt.Sprintf("Read(%q, *%s) of %s", name, a.Go, a.Name), err, v.Elem().Interface(), plc.Value(tg.Type, w.p.Peek(tg.Name)))
	case 2, 3: // slice of an array
		tg := w.arrays[r.IntN(len(w.arrays))]
		a := atomOf(tg.Type)
		if tg.Type == plc.BOOL {
			return
		}
		tot := tg.Elems()
		start := r.IntN(tot)
		if r.IntN(3) == 0 {
			start = 0
		}
		n := 1 + r.IntN(tot-start)
		if len(tg.Dims) > 1 && start+n > tot {
			n = tot - start
		}
		name := recase(r, tg.Name)
		if start > 0 || r.IntN(2) == 0 {
			name += indexText(tg.Dims, start)
		}
		s := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
		junk(r, s)
		err := readInto(t, c, name, s)
		sz := plc.Size(tg.Type)
		t.Eval(fmt.Sprintf("Read/%s/slice/%s/%s/%d", a.Name, class(n), class(start), len(tg.Dims)))
		expectRead(t, fmt.Sprintf("slice/%s/n=%s", a.Name, class(n)), fmt.Sprintf("Read(%q, []%s len %d) of %s%v", name, a.Go, n, a.Name, tg.Dims), err, s.Interface(),
			goSlice(tg.Type, w.p.Peek(tg.Name)[start*sz:(start+n)*sz]).Interface())
	case 4: // array element as scalar
		tg := w.arrays[r.IntN(len(w.arrays))]
		a := atomOf(tg.Type)
		lin := r.IntN(tg.Elems())
		name := recase(r, tg.Name) + indexText(tg.Dims, lin)
		v := reflect.New(a.Go)
		junk(r, v.Elem())
		err := readInto(t, c, name, v)
		t.Eval(fmt.Sprintf("Read/%s/elem/%s/%d", a.Name, class(lin), len(tg.Dims)))
		expectRead(t, "elem/"+a.Name, fmt.Sprintf("Read(%q, *%s)", name, a.Go), err, v.Elem().Interface(), plc.Value(tg.Type, w.p.Peek(tg.Name)[lin*plc.Size(tg.Type):]))
	case 5: // bit of a scalar or element
		var tg *plc.Tag
		name := ""
		off := 0
		for {
			if r.IntN(2) == 0 {
				tg = w.atomic[r.IntN(len(w.atomic))]
				name = tg.Name
			} else {
				tg = w.arrays[r.IntN(len(w.arrays))]
				lin := r.IntN(tg.Elems())
				name = tg.Name + indexText(tg.Dims, lin)
				off = lin * plc.Size(tg.Type)
			}
			if tg.Type != plc.BOOL && tg.Type != plc.REAL && tg.Type != plc.LREAL {
				break
			}
			off = 0
		}
		c01Bit(t, w, c, tg, recase(r, name), off, r.IntN(plc.Size(tg.Type)*8))
	case 6: // STRING
		tg := w.strs[r.IntN(len(w.strs))]
		s := "junk"
		var err error
		t.Guard("Read", func() { err = c.Read(recase(r, tg.Name), &s) })
		t.Eval("Read/STRING/scalar/" + class(len(s)))
		expectRead(t, "STRING", fmt.Sprintf("Read(%q, *string)", tg.Name), err, s, plc.GetString(w.p.Peek(tg.Name)))
	case 7: // STRING array
		tg := w.strArr[r.IntN(len(w.strArr))]
		start := r.IntN(tg.Dims[0])
		n := 1 + r.IntN(tg.Dims[0]-start)
		if n*88+20 > int(c.ConnectionSize) {
			n = 1
		}
		s := make([]string, n)
		var err error
		name := tg.Name + fmt.Sprintf("[%d]", start)
		t.Guard("Read", func() { err = c.Read(name, s) })
		want := []string{}
		for i := 0; i < n; i++ {
			want = append(want, plc.GetString(w.p.Peek(tg.Name)[(start+i)*88:]))
		}
		t.Eval(fmt.Sprintf("Read/STRING/slice/%s/%s", class(n), class(start)))
		expectRead(t, "STRING-slice/n="+class(n), fmt.Sprintf("Read(%q, []string len %d)", name, n), err, s, want)
	case 8: // BOOL array
		tg := w.bools[r.IntN(len(w.bools))]
		words := 1 + r.IntN(tg.Dims[0])
		s := make([]bool, words*32)
		var err error
		t.Guard("Read", func() { err = c.Read(tg.Name, s) })
		want := make([]bool, words*32)
		b := w.p.Peek(tg.Name)
		for i := range want {
			want[i] = b[i/8]>>(i%8)&1 == 1
		}
		t.Eval("Read/BOOL/array/" + class(words))
		if tg.Type == plc.DWORD {
			expectRead(t, "BOOL-array/words="+class(words), fmt.Sprintf("Read(%q, []bool len %d)", tg.Name, len(s)), err, s, want)
		}
	case 9: // UDT
		u := w.udts[r.IntN(len(w.udts))]
		if 30+u.tag.ElemSize() > int(c.ConnectionSize) {
			return
		}
		i := r.IntN(len(u.val))
		name := u.tag.Name
		if len(u.val) > 1 {
			name += fmt.Sprintf("[%d]", i)
		}
		v := reflect.New(u.typ)
		junk(r, v.Elem())
		clearUnused(v.Elem())
		err := readInto(t, c, name, v)
		t.Eval("Read/UDT/" + fmt.Sprint(u.typ.NumField()))
		expectRead(t, "UDT", fmt.Sprintf("Read(%q, *struct %v)", name, u.typ), err, v.Elem().Interface(), u.val[i].Interface())
	case 10: // slice of UDT
		u := w.udts[r.IntN(len(w.udts))]
		start := r.IntN(len(u.val))
		n := 1 + r.IntN(len(u.val)-start)
		if 30+u.tag.ElemSize()*n > int(c.ConnectionSize) {
			return
		}
		name := u.tag.Name
		if len(u.val) > 1 {
			name += fmt.Sprintf("[%d]", start)
		}
		s := reflect.MakeSlice(reflect.SliceOf(u.typ), n, n)
		err := readInto(t, c, name, s)
		want := reflect.MakeSlice(reflect.SliceOf(u.typ), 0, n)
		for i := 0; i < n; i++ {
			want = reflect.Append(want, u.val[start+i])
		}
		t.Eval("Read/UDT-slice/" + class(n))
		expectRead(t, "UDT-slice/n="+class(n), fmt.Sprintf("Read(%q, []struct len %d of %v)", name, n, u.typ), err, s.Interface(), want.Interface())
	case 11: // Read_single
		c01Single(t, w, c)
	case 12: // wrong Go type
		tg := w.atomic[r.IntN(len(w.atomic))]
		a := atomOf(tg.Type)
		b := atoms[r.IntN(len(atoms))]
		if b.Go == a.Go {
			return
		}
		v := reflect.New(b.Go)
		junk(r, v.Elem())
		before := reflect.ValueOf(v.Elem().Interface()).Interface()
		err := readInto(t, c, tg.Name, v)
		t.Eval("mismatch/" + a.Name + "/" + b.Go.String())
		if err == nil {
			if !same(before, v.Elem().Interface()) || true {
				t.Fail("mismatch-accepted/"+a.Name+"/"+b.Go.String(), "Read(%q, *%s) of a %s holding %s reported success with %s", tg.Name, b.Go, a.Name, show(plc.Value(tg.Type, w.p.Peek(tg.Name))), show(v.Elem().Interface()))
			}
		} else {
			t.Count("reads_rejected", 1)
			if !same(before, v.Elem().Interface()) {
				t.Fail("failed-read-wrote/"+a.Name, "failed Read(%q, *%s) changed the variable from %s to %s", tg.Name, b.Go, show(before), show(v.Elem().Interface()))
			}
		}
	}
}

func c01Bit(t *rt.T, w *world, c *gologix.Client, tg *plc.Tag, name string, off, bit int) {
	v := t.R.IntN(2) == 0
	var err error
	full := fmt.Sprintf("%s.%d", name, bit)
	t.Guard("Read", func() { err = c.Read(full, &v) })
	b := w.p.Peek(tg.Name)[off:]
	want := b[bit/8]>>(bit%8)&1 == 1
	t.Eval(fmt.Sprintf("bit/%s/%d", plc.TypeName(tg.Type), bit))
	expectRead(t, fmt.Sprintf("bit/%s/%s", plc.TypeName(tg.Type), map[bool]string{true: "hi", false: "lo"}[bit >= 32]), fmt.Sprintf("Read(%q, *bool) of a %s holding %x", full, plc.TypeName(tg.Type), b[:plc.Size(tg.Type)]), err, v, want)
}

func c01Single(t *rt.T, w *world, c *gologix.Client) {
	r := t.R
	switch r.IntN(4) {
	case 0, 1:
		tg := w.arrays[r.IntN(len(w.arrays))]
		a := atomOf(tg.Type)
		tot := tg.Elems()
		start := r.IntN(tot)
		n := 1 + r.IntN(tot-start)
		sz := plc.Size(tg.Type)
		ct := gologix.CIPType(tg.Type)
		if r.IntN(3) == 0 {
			ct = gologix.CIPTypeUnknown
		}
		name := tg.Name + indexText(tg.Dims, start)
		var got any
		var err error
		t.Guard("Read_single", func() { got, err = c.Read_single(name, ct, uint16(n)) })
		mem := w.p.Peek(tg.Name)[start*sz:]
		var want any
		if n == 1 {
			want = plc.Value(tg.Type, mem)
		} else {
			l := make([]any, n)
			for i := range l {
				l[i] = plc.Value(tg.Type, mem[i*sz:])
			}
			want = l
		}
		t.Eval(fmt.Sprintf("Read_single/%s/%s/%s/unknown=%v", a.Name, class(n), class(start), ct == 0))
		expectRead(t, "single/"+a.Name+"/n="+class(n), fmt.Sprintf("Read_single(%q, %v, %d)", name, ct, n), err, got, want)
	case 2:
		tg := w.atomic[r.IntN(len(w.atomic))]
		a := atomOf(tg.Type)
		ct := gologix.CIPType(tg.Type)
		if r.IntN(2) == 0 {
			ct = gologix.CIPTypeUnknown
		}
		var got any
		var err error
		t.Guard("Read_single", func() { got, err = c.Read_single(tg.Name, ct, 1) })
		t.Eval(fmt.Sprintf("Read_single/%s/scalar/unknown=%v", a.Name, ct == 0))
		expectRead(t, "single-scalar/"+a.Name, fmt.Sprintf("Read_single(%q, %v, 1)", tg.Name, ct), err, got, plc.Value(tg.Type, w.p.Peek(tg.Name)))
	case 3:
		us := []*udtTag{}
		for _, u := range w.udts {
			for _, s := range staticStructs {
				if s == u.typ && len(u.val) == 1 {
					us = append(us, u)
				}
			}
		}
		u := us[r.IntN(len(us))]
		if 30+u.tag.ElemSize() > int(c.ConnectionSize) {
			return
		}
		var got any
		var err error
		t.Guard("ReadPacked", func() { got, err = readPackedStatic(c, u.tag.Name, u.typ) })
		t.Eval("ReadPacked/" + u.typ.Name())
		expectRead(t, "ReadPacked", fmt.Sprintf("ReadPacked[%s](%q)", u.typ, u.tag.Name), err, got, u.val[0].Interface())
	}
}

// c01AllTypes walks every type at every boundary value, scalar and array, directly.
func c01AllTypes(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	for _, a := range atoms {
		sz := plc.Size(a.Code)
		for _, pat := range [][]byte{{0}, {0xFF}, {0x80}, {0x7F}, {0x01}, {0xAA}} {
			b := make([]byte, sz)
			for i := range b {
				b[i] = pat[0]
			}
			if a.Code == plc.BOOL {
				b[0] &= 1
			}
			tg := w.p.Add(&plc.Tag{Name: w.name(), Type: a.Code, Data: b})
			v := reflect.New(a.Go)
			err := readInto(t, c, tg.Name, v)
			t.Eval("Read/" + a.Name + "/boundary/" + fmt.Sprint(pat[0]))
			expectRead(t, "scalar/"+a.Name, fmt.Sprintf("Read(%q) of %s %x", tg.Name, a.Name, b), err, v.Elem().Interface(), plc.Value(a.Code, b))
		}
		if a.Code == plc.BOOL {
			continue
		}
		for _, n := range []int{1, 2, 3, 7, 100} {
			tg := w.addArray(a.Code, 110)
			for _, start := range []int{0, 1, 5, 9} {
				s := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
				name := fmt.Sprintf("%s[%d]", tg.Name, start)
				err := readInto(t, c, name, s)
				t.Eval(fmt.Sprintf("Read/%s/slice/%s/%s", a.Name, class(n), class(start)))
				expectRead(t, fmt.Sprintf("slice/%s/n=%s", a.Name, class(n)), fmt.Sprintf("Read(%q, []%s len %d)", name, a.Go, n), err, s.Interface(), goSlice(a.Code, tg.Data[start*sz:(start+n)*sz]).Interface())
			}
		}
	}
}

// c01Sizes reads slices whose reply is just within, exactly at and just beyond
// what the connection carries.
func c01Sizes(t *rt.T, size uint16) {
	w := newWorld(t)
	c := dial(t, w.p, size)
	if c == nil {
		return
	}
	for _, code := range []byte{plc.SINT, plc.UINT, plc.REAL, plc.LINT} {
		a, sz := atomOf(code), plc.Size(code)
		tg := w.addArray(code, int(size)/sz+20)
		for n := max(1, (int(size)-24)/sz-2); n <= min(int(size)/sz+3, 65535); n++ {
			s := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
			name := tg.Name + "[1]"
			err := readInto(t, c, name, s)
			t.Eval(fmt.Sprintf("Read/%s/size=%d/%d", a.Name, size, n*sz-int(size)))
			expectRead(t, fmt.Sprintf("size/%s", a.Name), fmt.Sprintf("Read(%q, []%s len %d) on a connection of %d", name, a.Go, n, size), err, s.Interface(), goSlice(code, tg.Data[sz:(n+1)*sz]).Interface())
		}
	}
}

func c01AllBits(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	for _, code := range bitTypes {
		for k := 0; k < 3; k++ {
			d := randElem(t.R, code)
			if k == 0 {
				for i := range d {
					d[i] = 0xA5
				}
			}
			tg := w.p.Add(&plc.Tag{Name: w.name(), Type: code, Data: d})
			for bit := 0; bit < plc.Size(code)*8; bit++ {
				c01Bit(t, w, c, tg, tg.Name, 0, bit)
			}
			// a bit beyond the value cannot be delivered
			for _, bit := range []int{plc.Size(code) * 8, 64, 99} {
				v := true
				var err error
				t.Guard("Read", func() { err = c.Read(fmt.Sprintf("%s.%d", tg.Name, bit), &v) })
				t.Eval(fmt.Sprintf("bit-out-of-range/%s/%d", plc.TypeName(code), bit))
				if err == nil {
					t.Fail("bit-out-of-range/"+plc.TypeName(code), "Read(%q, *bool) of a %s succeeded with %v", fmt.Sprintf("%s.%d", tg.Name, bit), plc.TypeName(code), v)
				} else {
					t.Count("reads_rejected", 1)
				}
			}
		}
	}
}

func c01Strings(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	arr := w.p.Add(&plc.Tag{Name: "StrArr", Type: plc.STRUCT, UDT: plc.StringUDT, Dims: []int{83}})
	one := w.p.Add(&plc.Tag{Name: "OneStr", Type: plc.STRUCT, UDT: plc.StringUDT})
	_ = one
	for n := 0; n <= 82; n++ {
		s := ""
		for len(s) < n {
			s += string(rune('A' + (len(s)*7+n)%26))
		}
		plc.PutString(arr.Data[n*88:], s)
	}
	// stale bytes after the current length must not be delivered
	for n := 82; n >= 0; n-- {
		s := ""
		for len(s) < n {
			s += "s"
		}
		b := w.p.Peek("OneStr")
		plc.LE.PutUint32(b, uint32(n))
		copy(b[4:], s)
		w.p.Poke("OneStr", 0, b)
		var got string
		var err error
		t.Guard("Read", func() { err = c.Read("OneStr", &got) })
		t.Eval(fmt.Sprintf("STRING/len/%d", n))
		expectRead(t, "STRING", fmt.Sprintf("Read(OneStr) of length %d", n), err, got, s)
		var got2 string
		t.Guard("Read", func() { err = c.Read(fmt.Sprintf("StrArr[%d]", n), &got2) })
		expectRead(t, "STRING-elem", fmt.Sprintf("Read(StrArr[%d])", n), err, got2, plc.GetString(arr.Data[n*88:]))
	}
	for _, n := range []int{1, 2, 5, 20, 40} {
		l := make([]string, n)
		var err error
		t.Guard("Read", func() { err = c.Read("StrArr[3]", l) })
		want := []string{}
		for i := 0; i < n; i++ {
			want = append(want, plc.GetString(arr.Data[(3+i)*88:]))
		}
		t.Eval(fmt.Sprintf("STRING/slice/%d", n))
		expectRead(t, "STRING-slice/n="+class(n), fmt.Sprintf("Read(StrArr[3], []string len %d)", n), err, l, want)
	}
}

// c01Targets: targets that cannot take the value must give an error, not a panic or silence.
func c01Targets(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	w.p.Add(&plc.Tag{Name: "ADint", Type: plc.DINT, Data: []byte{1, 2, 3, 4}})
	w.p.Add(&plc.Tag{Name: "AArr", Type: plc.DINT, Dims: []int{10}, Data: randData(t.R, plc.DINT, 10)})
	u := w.addStructTag(staticStructs[0], 1, 0x1234)
	var i int
	var u64 uint
	var bs []byte = make([]byte, 4)
	var st SMix
	var ifc any
	var m map[string]int
	type named int32
	var nm named
	cases := []struct {
		name   string
		tag    string
		target any
	}{
		{"nil", "ADint", nil}, {"int-value", "ADint", 5}, {"string-value", "ADint", "x"}, {"*int", "ADint", &i}, {"*uint", "ADint", &u64},
		{"struct-value", u.tag.Name, st}, {"*map", "ADint", &m}, {"map", "ADint", map[string]int{}}, {"*named", "ADint", &nm},
		{"struct-from-atomic", "ADint", &st}, {"[]struct-from-atomic", "AArr", make([]SMix, 2)},
		{"atomic-from-struct", u.tag.Name, &i}, {"*int32-from-struct", u.tag.Name, new(int32)}, {"*string-from-struct", "ADint", new(string)},
		{"[]int32-from-struct", u.tag.Name, make([]int32, 1)}, {"nil-ptr-struct", u.tag.Name, (*SMix)(nil)}, {"*[]byte-from-atomic", "ADint", &bs},
		{"[]string-from-atomic", "AArr", make([]string, 2)}, {"bool-slice-33", "AArr", make([]bool, 33)},
		{"too-many", "AArr", make([]int32, 11)}, {"past-end", "AArr[5]", make([]int32, 6)}, {"beyond", "AArr[10]", new(int32)},
		{"unknown", "NoSuchTag", new(int32)}, {"empty-slice", "AArr", []int32{}}, {"empty-bool", "AArr", []bool{}}, {"empty-struct-slice", u.tag.Name, []SMix{}},
	}
	for _, cs := range cases {
		var err error
		ok := t.Guard("Read/"+cs.name, func() { err = c.Read(cs.tag, cs.target) })
		t.Eval("target/" + cs.name)
		if !ok {
			continue
		}
		if err == nil && !strings.HasPrefix(cs.name, "empty") {
			t.Fail("undeliverable-accepted/"+cs.name, "Read(%q, %T) reported success", cs.tag, cs.target)
		}
		if err != nil {
			t.Count("reads_rejected", 1)
		}
	}
	// a bit is one value
	for _, b := range []string{"ADint.3", "AArr[2].0", "AArr[9].31"} {
		for _, n := range []uint16{0, 2, 3, 32, 65535} {
			for _, typ := range []gologix.CIPType{gologix.CIPTypeBOOL, gologix.CIPTypeDINT, gologix.CIPTypeUnknown} {
				var v any
				var err error
				if t.Guard("Read_single/bits", func() { v, err = c.Read_single(b, typ, n) }) && err == nil {
					t.Fail("bits-accepted", "Read_single(%q, %v, %d) reported success: %v", b, typ, n, v)
				}
				t.Count("reads_rejected", 1)
				t.Eval(fmt.Sprintf("target/bits/%v/%d", typ, n))
			}
		}
	}
	// *any delivers the tag's natural value
	for _, tg := range []string{"ADint"} {
		var err error
		t.Guard("Read/*any", func() { err = c.Read(tg, &ifc) })
		t.Eval("target/*any")
		expectRead(t, "any", "Read(ADint, *any)", err, ifc, int32(0x04030201))
	}
	if _, err := c.Read_single("AArr", gologix.CIPTypeDINT, 0); err == nil {
		t.Eval("elements-0")
	}
	// after all of these the client still works
	var d int32
	err := c.Read("ADint", &d)
	expectRead(t, "after-errors", "Read(ADint) after rejected reads", err, d, int32(0x04030201))
}

// c01TooLong asks for more elements than a request can name: the low half of the number is not what was asked for.
func c01TooLong(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	tags := map[byte]*plc.Tag{}
	for _, a := range atoms {
		tags[a.Code] = w.p.Add(&plc.Tag{Name: w.name(), Type: a.Code, Dims: []int{66000}, Data: make([]byte, 66000*plc.Size(a.Code))})
	}
	st := w.p.Add(&plc.Tag{Name: w.name(), Type: plc.STRUCT, UDT: plc.StringUDT, Dims: []int{66000}, Data: make([]byte, 88*66000)})
	for _, n := range []int{65536, 65537, 65540, 65568, 65536 + 320, 131072 + 3} {
		targets := map[*plc.Tag][]any{
			tags[plc.SINT]: {make([]int8, n)}, tags[plc.USINT]: {make([]byte, n)}, tags[plc.INT]: {make([]int16, n)}, tags[plc.UINT]: {make([]uint16, n)},
			tags[plc.DINT]: {make([]int32, n)}, tags[plc.UDINT]: {make([]uint32, n)}, tags[plc.LINT]: {make([]int64, n)}, tags[plc.LWORD]: {make([]uint64, n)},
			tags[plc.REAL]: {make([]float32, n)}, tags[plc.LREAL]: {make([]float64, n)}, tags[plc.DWORD]: {make([]uint32, n), make([]bool, 32*n)}, st: {make([]string, n)},
		}
		for tg, dsts := range targets {
			for _, dst := range dsts {
				var err error
				if t.Guard("Read/too-long", func() { err = c.Read(tg.Name, dst) }) && err == nil {
					t.Fail("too-long-accepted", "Read of %d elements into a %T reported success", n, dst)
				}
				t.Count("reads_rejected", 1)
				t.Eval(fmt.Sprintf("too-long/%T/%d", dst, n))
			}
		}
	}
}

// c01Changing reads the same tags again and again while the memory changes: nothing stale may come back.
func c01Changing(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	w.p.Add(&plc.Tag{Name: "V", Type: plc.DINT})
	w.p.Add(&plc.Tag{Name: "A", Type: plc.INT, Dims: []int{50}})
	for i := 0; i < 300 && !t.Failed(); i++ {
		b := plc.LE.AppendUint32(nil, uint32(i*7919))
		w.p.Poke("V", 0, b)
		w.p.Poke("A", (i%50)*2, b[:2])
		var v int32
		err := c.Read("V", &v)
		expectRead(t, "changing", "Read(V)", err, v, int32(i*7919))
		var bit bool
		err = c.Read(fmt.Sprintf("v.%d", i%32), &bit)
		expectRead(t, "changing-bit", fmt.Sprintf("Read(v.%d)", i%32), err, bit, uint32(i*7919)>>(i%32)&1 == 1)
		var e int16
		err = c.Read(fmt.Sprintf("A[%d]", i%50), &e)
		expectRead(t, "changing-elem", "Read(A[i])", err, e, int16(uint16(i*7919)))
		t.Eval("changing")
	}
	if w.p.SeqDup > 0 {
		t.Fail("sequence-reused", "%d consecutive requests carried the same sequence count", w.p.SeqDup)
	}
}
