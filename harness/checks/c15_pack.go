package checks

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"testing/iotest"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C15",
		Rule: "each evaluation is one struct value packed and compared byte for byte with an independent layout model, unpacked again from whole, dribbling, padded and truncated input, or one value without a layout that must be refused; " +
			"non-trivial = distinct struct type and set of alignment gaps",
		Assumptions: []string{"layouts are compared where structures start and end on their own alignment; elsewhere only the round trip and the byte counts are judged"},
		Cases:       c15Cases,
		MinEvents:   []string{"packed", "unpacked", "truncations", "roundtrips", "refused", "paddings"},
	})
}

func c15Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 120, 3000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("layout-%d", i), Run: c15Layout})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("any-%d", i), Run: c15Any})
	}
	cs = append(cs, rt.Case{Name: "static", Run: c15Static})
	cs = append(cs, rt.Case{Name: "named", Run: c15Named})
	cs = append(cs, rt.Case{Name: "unsupported", Run: c15Unsupported})
	cs = append(cs, rt.Case{Name: "writers", Run: c15Writers})
	cs = append(cs, rt.Case{Name: "own", Run: c15Own})
	cs = append(cs, rt.Case{Name: "pairs", Run: c15Pairs})
	return cs
}

// unstable has a value that TIMER does not store.
func newValue(r *rand.Rand, typ reflect.Type) reflect.Value {
	v := reflect.New(typ)
	randFill(r, v.Elem())
	clearUnused(v.Elem())
	return v
}

// readers of one buffer that deliver it differently.
func readersOf(b []byte) map[string]io.Reader {
	return map[string]io.Reader{
		"buffer":  bytes.NewBuffer(append([]byte{}, b...)),
		"onebyte": iotest.OneByteReader(bytes.NewReader(b)),
		"half":    iotest.HalfReader(bytes.NewReader(b)),
		"dataerr": iotest.DataErrReader(bytes.NewReader(b)),
	}
}

func packOf(t *rt.T, x any) ([]byte, int, error) {
	var b bytes.Buffer
	var n int
	var err error
	t.Guard("pack", func() { n, err = gologix.Pack(&b, x) })
	return b.Bytes(), n, err
}

// judgePack compares Pack and Unpack of one value. want is the exact layout, or nil
// when only the round trip is judged.
func judgePack(t *rt.T, v reflect.Value, want []byte, sig string) {
	r := t.R
	typ := v.Type().Elem()
	b, n, err := packOf(t, v.Elem().Interface())
	if err != nil {
		t.Fail(sig+":pack-error", "Pack(%v): %v", typ, err)
		return
	}
	t.Count("packed", 1)
	if n != len(b) {
		t.Fail(sig+":pack-count", "Pack(%v) wrote %d bytes and reports %d", typ, len(b), n)
	}
	if want != nil && !bytes.Equal(b, want) {
		t.Fail(sig+":layout", "Pack(%v)\n value %s\n gives % x\n the layout is % x", typ, show(v.Elem().Interface()), b, want)
		return
	}
	if b2, n2, err := packOf(t, v.Interface()); err != nil || n2 != n || !bytes.Equal(b, b2) {
		t.Fail(sig+":pointer", "Pack(*%v) gives % x, %d, %v; the value gives % x", typ, b2, n2, err, b)
	}
	model := encodeStruct(v.Elem())
	tail := []byte{0xDE, 0xAD, 0xBE, 0xEF, 0xF0, 0x0D, 0xFE, 0xED, 0xFF, 0xFF, 0xFF}
	for k, rd := range readersOf(append(append([]byte{}, b...), tail...)) {
		got := reflect.New(typ)
		junk(r, got.Elem())
		var n int
		var err error
		t.Guard("unpack", func() { n, err = gologix.Unpack(rd, got.Interface()) })
		if err != nil {
			t.Fail(sig+":unpack-error", "Unpack(%v) from %s % x: %v", typ, k, b, err)
			continue
		}
		t.Count("unpacked", 1)
		if n != len(b) {
			t.Fail(sig+":unpack-count", "Unpack(%v) from %s of % x reports %d bytes of %d", typ, k, b, n, len(b))
		}
		clearUnused(got.Elem())
		if g := encodeStruct(got.Elem()); !bytes.Equal(g, model) {
			t.Fail(sig+":roundtrip", "Unpack(%v) from %s of % x gives %s, packed was %s", typ, k, b, show(got.Elem().Interface()), show(v.Elem().Interface()))
		}
		rest, _ := io.ReadAll(rd)
		if !bytes.Equal(rest, tail) {
			t.Fail(sig+":consumed", "Unpack(%v) from %s left %d bytes of %d behind it", typ, k, len(rest), len(tail))
		}
	}
	t.Count("roundtrips", 1)
	// truncated
	step := 1
	if len(b) > 16 {
		step = 1 + len(b)/8
	}
	for k := 0; k < len(b); k += 1 + r.IntN(step) {
		got := reflect.New(typ)
		var n int
		var err error
		t.Guard("unpack-short", func() {
			n, err = gologix.Unpack(iotest.OneByteReader(bytes.NewReader(b[:k])), got.Interface())
		})
		t.Count("truncations", 1)
		if err == nil {
			t.Fail(sig+":short", "Unpack(%v) of %d of %d bytes succeeds (n=%d)", typ, k, len(b), n)
			break
		}
		if n > k {
			t.Fail(sig+":short-count", "Unpack(%v) of %d of %d bytes reports %d read", typ, k, len(b), n)
		}
	}
	if len(b) > 0 {
		var err error
		t.Guard("unpack-short", func() { _, err = gologix.Unpack(bytes.NewReader(b[:len(b)-1]), reflect.New(typ).Interface()) })
		if err == nil {
			t.Fail(sig+":short", "Unpack(%v) of %d of %d bytes succeeds", typ, len(b)-1, len(b))
		}
	}
	// a source that fails on the way
	if len(b) > 1 {
		k := r.IntN(len(b))
		var err error
		t.Guard("unpack-fail", func() {
			_, err = gologix.Unpack(io.MultiReader(bytes.NewReader(b[:k]), iotest.ErrReader(errBroken)), reflect.New(typ).Interface())
		})
		if err == nil {
			t.Fail(sig+":reader-error", "Unpack(%v) from a source that fails after %d of %d bytes succeeds", typ, k, len(b))
		}
	}
	// writers that fail
	for i := 0; i < 3 && len(b) > 0; i++ {
		k := r.IntN(len(b))
		w := &shortWriter{left: k}
		var err error
		t.Guard("pack-writer", func() { _, err = gologix.Pack(w, v.Elem().Interface()) })
		if err == nil {
			t.Fail(sig+":writer-error", "Pack(%v) into a writer that fails after %d of %d bytes succeeds", typ, k, len(b))
		}
		if !bytes.HasPrefix(b, w.got) {
			t.Fail(sig+":writer-prefix", "Pack(%v) into a failing writer wrote % x, not a beginning of % x", typ, w.got, b)
		}
	}
	// slices of the structure, as a controller sends them: every element padded
	un := structAlign(typ)
	elems := 1 + r.IntN(4)
	sl := reflect.MakeSlice(reflect.SliceOf(typ), elems, elems)
	var wire []byte
	models := [][]byte{}
	for i := 0; i < elems; i++ {
		e := newValue(r, typ)
		eb, _, err := packOf(t, e.Interface())
		if err != nil {
			return
		}
		wire = append(wire, eb...)
		for len(wire)%un != 0 {
			wire = append(wire, 0xA5)
			t.Count("paddings", 1)
		}
		models = append(models, encodeStruct(e.Elem()))
	}
	for _, p := range []any{sl.Interface()} {
		n, err := 0, error(nil)
		t.Guard("unpack-slice", func() { n, err = gologix.Unpack(bytes.NewReader(wire), p) })
		if err != nil {
			t.Fail(sig+":slice", "Unpack([]%v) of %d elements: %v", typ, elems, err)
			break
		}
		if n != len(wire) {
			t.Fail(sig+":slice-count", "Unpack([]%v) of %d elements reports %d bytes of %d", typ, elems, n, len(wire))
		}
		for i := range models {
			clearUnused(sl.Index(i))
			if g := encodeStruct(sl.Index(i)); !bytes.Equal(g, models[i]) {
				t.Fail(sig+":slice-value", "Unpack([]%v) of % x: element %d of %d differs", typ, wire, i, elems)
				break
			}
		}
	}
}

var errBroken = errors.New("broken on purpose")

type shortWriter struct {
	left int
	got  []byte
}

func (w *shortWriter) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.got = append(w.got, b[:n]...)
		w.left = 0
		return n, errBroken
	}
	w.left -= len(b)
	w.got = append(w.got, b...)
	return len(b), nil
}

func c15Layout(t *rt.T) {
	for i := 0; i < 60; i++ {
		typ := randStruct(t.R, t.R.IntN(3))
		v := newValue(t.R, typ)
		judgePack(t, v, encodeStruct(v.Elem()), "struct")
		// every bit of every member set, and none
		ones(v.Elem())
		clearUnused(v.Elem())
		judgePack(t, v, encodeStruct(v.Elem()), "ones")
		t.Eval(fmt.Sprintf("%v", typ))
	}
}

// wildStruct is any mix of fields that has a layout.
func wildStruct(r *rand.Rand, depth int) reflect.Type {
	nums := []reflect.Type{tI8, tU8, tI16, tU16, tI32, tU32, tI64, tU64, tF32, tF64}
	fs := []reflect.StructField{}
	add := func(t reflect.Type, tag reflect.StructTag) {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: t, Tag: tag})
	}
	for n := 1 + r.IntN(9); n > 0; n-- {
		switch r.IntN(10) {
		case 0, 1:
			add(tBool, "")
		case 2:
			add(tBool, `pack:"nopack"`)
		case 3:
			add(reflect.ArrayOf(1+r.IntN(40), tBool), "")
		case 4:
			add(reflect.ArrayOf(1+r.IntN(5), nums[r.IntN(len(nums))]), "")
		case 5, 6:
			if depth > 0 {
				st := wildStruct(r, depth-1)
				if r.IntN(2) == 0 {
					st = reflect.ArrayOf(1+r.IntN(4), st)
				}
				add(st, "")
			}
		case 7:
			add([]reflect.Type{tTimer, tCounter, tControl, tLString, reflect.ArrayOf(2, tLString), reflect.ArrayOf(3, tTimer)}[r.IntN(6)], "")
		case 8:
			add(reflect.ArrayOf(1+r.IntN(3), reflect.ArrayOf(1+r.IntN(3), nums[r.IntN(len(nums))])), "")
		default:
			add(nums[r.IntN(len(nums))], "")
		}
	}
	if len(fs) == 0 {
		add(tI32, "")
	}
	return reflect.StructOf(fs)
}

func c15Any(t *rt.T) {
	for i := 0; i < 40; i++ {
		typ := wildStruct(t.R, t.R.IntN(3))
		v := newValue(t.R, typ)
		// the model of wild structures is only used to compare values
		judgePack(t, v, nil, "any")
		t.Eval(fmt.Sprintf("%v", typ))
	}
}

// aligned says that a struct starts and ends every part on its own alignment.
func aligned(typ reflect.Type) bool {
	if predefined(typ) || typ == tLString {
		return true
	}
	for i := 0; i < typ.NumField(); i++ {
		ft := typ.Field(i).Type
		if ft.Kind() == reflect.Array {
			ft = ft.Elem()
			if ft.Kind() == reflect.Struct && len(encodeStruct(reflect.New(ft).Elem()))%structAlign(ft) != 0 {
				return false
			}
			if ft.Kind() == reflect.Bool {
				return false
			}
		}
		if ft.Kind() == reflect.Struct {
			if alignOf(ft) < 4 || !aligned(ft) || len(encodeStruct(reflect.New(ft).Elem()))%structAlign(ft) != 0 {
				return false
			}
		}
	}
	return true
}

func c15Named(t *rt.T) {
	for _, typ := range genTypes {
		for k := 0; k < tiered(t.Tier, 1, 10); k++ {
			v := newValue(t.R, typ)
			var want []byte
			if aligned(typ) {
				want = encodeStruct(v.Elem())
			}
			judgePack(t, v, want, "named")
		}
		t.Eval("named " + typ.Name())
	}
}

type pBits9 struct {
	A0, A1, A2, A3, A4, A5, A6, A7 bool
	B0                             bool
	N                              int16
}
type pNo struct {
	A bool
	B bool `pack:"nopack"`
	C bool
	D int8
	E bool `pack:"nopack"`
	F bool `pack:"nopack"`
	G int32
}
type pWide struct {
	A int8
	B int64
	C int8
	D float64
	E int16
	F uint64
}
type pStr struct {
	A int32
	S lgxtypes.STRING
	B int32
	T lgxtypes.TIMER
	X [3]lgxtypes.STRING
	C int16
	K lgxtypes.COUNTER
	L lgxtypes.CONTROL
}
type pTail struct {
	A    int32
	Done bool
}

// Layouts written down by hand, independent of the layout model.
func c15Static(t *rt.T) {
	for _, x := range []struct {
		v    any
		want string
	}{
		{&pBits9{A0: true, A7: true, B0: true, N: -2}, "\x81\x01\xFE\xFF"},
		{&pBits9{A3: true, N: 1}, "\x08\x00\x01\x00"},
		{&pNo{A: true, B: true, C: true, D: 5, E: true, F: false, G: 1}, "\x01\x01\x01\x05\x01\x00\x00\x00\x01\x00\x00\x00"},
		{&pWide{A: 1, B: 2, C: 3, D: 1, E: 4, F: 5}, "\x01\x00\x00\x00\x00\x00\x00\x00" + "\x02\x00\x00\x00\x00\x00\x00\x00" + "\x03\x00\x00\x00\x00\x00\x00\x00" +
			"\x00\x00\x00\x00\x00\x00\xF0\x3F" + "\x04\x00\x00\x00\x00\x00\x00\x00" + "\x05\x00\x00\x00\x00\x00\x00\x00"},
		{&pTail{A: 258, Done: true}, "\x02\x01\x00\x00\x01"},
		{&lgxtypes.TIMER{PRE: 1, ACC: 2, DN: true}, "\x00\x00\x00\x20\x01\x00\x00\x00\x02\x00\x00\x00"},
	} {
		v := reflect.ValueOf(x.v)
		judgePack(t, v, []byte(x.want), "static")
		if m := encodeStruct(v.Elem()); string(m) != x.want {
			t.Fail("model", "the layout model gives % x for %T", m, x.v)
		}
		t.Eval(fmt.Sprintf("static %T", x.v))
	}
	for i := 0; i < 40; i++ {
		for _, typ := range append([]reflect.Type{reflect.TypeOf(pBits9{}), reflect.TypeOf(pNo{}), reflect.TypeOf(pWide{}), reflect.TypeOf(pStr{}), reflect.TypeOf(pTail{}), tTimer, tCounter, tControl, tLString}, staticStructs...) {
			v := newValue(t.R, typ)
			judgePack(t, v, encodeStruct(v.Elem()), "static")
		}
	}
}

// every ordered pair (and triple with a BOOL) of field kinds, so that each alignment gap occurs.
func c15Pairs(t *rt.T) {
	kinds := []reflect.Type{tBool, tI8, tU8, tI16, tU16, tI32, tU32, tI64, tU64, tF32, tF64, reflect.ArrayOf(3, tI8), reflect.ArrayOf(3, tI16), reflect.ArrayOf(2, tI64), reflect.ArrayOf(32, tBool)}
	f := func(ts ...reflect.Type) {
		fs := []reflect.StructField{}
		for i, x := range ts {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: x})
		}
		typ := reflect.StructOf(fs)
		v := newValue(t.R, typ)
		judgePack(t, v, encodeStruct(v.Elem()), "pair")
		t.Eval(fmt.Sprintf("%v", typ))
	}
	for _, a := range kinds {
		f(a)
		for _, b := range kinds {
			if a.Kind() == reflect.Array && a.Elem() == tBool && b == tBool || b.Kind() == reflect.Array && b.Elem() == tBool && a != tI32 {
				continue
			}
			f(a, b)
			f(tBool, a, b)
			f(tI8, a, b)
			f(a, b, tI64)
		}
	}
	// runs of BOOLs of every length
	for n := 1; n <= 66; n++ {
		ts := []reflect.Type{}
		for i := 0; i < n; i++ {
			ts = append(ts, tBool)
		}
		f(ts...)
		f(append(append([]reflect.Type{tI16}, ts...), tI32)...)
	}
}

// c15Unsupported: what has no layout is refused by both, without a crash.
func c15Unsupported(t *rt.T) {
	type inner struct {
		A int32
		b int32
	}
	type rec struct {
		A int32
		P *int32
	}
	x := int32(1)
	for _, v := range []any{
		&struct{ S string }{"x"},
		&struct{ S []int32 }{[]int32{1}},
		&struct {
			A int32
			S []byte
		}{1, []byte{1}},
		&struct{ M map[string]int }{map[string]int{"a": 1}},
		&struct {
			A int8
			P *int32
		}{1, &x},
		&struct{ I any }{int32(1)},
		&struct{ I int }{1},
		&struct{ U uint }{1},
		&struct{ A [3]int }{},
		&struct{ A [3]string }{},
		&struct{ C chan int }{},
		&struct{ F func() }{},
		&inner{A: 1, b: 2},
		&struct {
			N inner
			C int32
		}{},
		&struct{ N [2]inner }{},
		&rec{1, &x},
	} {
		b, n, err := packOf(t, reflect.ValueOf(v).Elem().Interface())
		if err == nil {
			t.Fail("accepted", "Pack(%T) writes % x (%d) without an error", v, b, n)
		}
		for _, in := range [][]byte{make([]byte, 200), bytes.Repeat([]byte{0xFF}, 200), {}} {
			var err error
			t.Guard("unpack-unsupported", func() { _, err = gologix.Unpack(bytes.NewReader(in), v) })
			if err == nil {
				t.Fail("accepted", "Unpack into %T succeeds", v)
			}
		}
		t.Count("refused", 1)
		t.Eval(fmt.Sprintf("unsupported %T", v))
	}
	var np *pTail
	for _, v := range []any{nil, np, 5, int32(5), "text", 1.5, []int32{1}, map[string]int{}, [3]int32{}, struct{}{}} {
		_, isStruct := v.(struct{})
		_, _, err := packOf(t, v)
		if err == nil && !isStruct {
			t.Fail("accepted", "Pack(%T) succeeds", v)
		}
		t.Guard("unpack-unsupported", func() { _, err = gologix.Unpack(bytes.NewReader(make([]byte, 100)), v) })
		if err == nil && !isStruct {
			t.Fail("accepted", "Unpack into %T succeeds", v)
		}
		t.Count("refused", 1)
		t.Eval(fmt.Sprintf("unsupported %T", v))
	}
	// by value there is nowhere to put the result
	var err error
	t.Guard("unpack-value", func() { _, err = gologix.Unpack(bytes.NewReader(make([]byte, 100)), pTail{}) })
	if err == nil {
		t.Fail("accepted", "Unpack into a struct value succeeds")
	}
}

// c15Writers: random bytes never crash Unpack, and what they hold comes back from Pack.
func c15Writers(t *rt.T) {
	for i := 0; i < tiered(t.Tier, 300, 5000); i++ {
		typ := randStruct(t.R, t.R.IntN(3))
		n := len(encodeStruct(reflect.New(typ).Elem()))
		in := make([]byte, n+t.R.IntN(3))
		for k := range in {
			in[k] = byte(t.R.IntN(256))
			if floats(typ) {
				in[k] &^= 0x40 // no NaN: their payload may change in Go
			}
		}
		v := reflect.New(typ)
		var err error
		t.Guard("unpack-random", func() { _, err = gologix.Unpack(bytes.NewReader(in), v.Interface()) })
		if err != nil {
			t.Fail("random", "Unpack(%v) of % x: %v", typ, in, err)
			continue
		}
		// keep the bytes that carry a value
		o := reflect.New(typ)
		ones(o.Elem())
		mask := encodeStruct(o.Elem())
		got, _, err := packOf(t, v.Interface())
		if err != nil || len(got) != n {
			t.Fail("random", "Pack(%v) after Unpack of % x: % x, %v", typ, in, got, err)
			continue
		}
		for k := range got {
			if got[k] != in[k]&mask[k] {
				t.Fail("random-bytes", "Unpack and Pack of %v turn % x into % x (byte %d, mask %02x)", typ, in[:n], got, k, mask[k])
				break
			}
		}
		t.Count("roundtrips", 1)
		t.Eval(fmt.Sprintf("random %v", typ))
	}
}

type ownPack struct {
	A uint32
}

func (o ownPack) Pack(w io.Writer) (int, error) {
	err := binary.Write(w, binary.BigEndian, o.A)
	return 4, err
}
func (o *ownPack) Unpack(r io.Reader) (int, error) {
	err := binary.Read(r, binary.BigEndian, &o.A)
	return 4, err
}

// c15Own: types with their own Pack and Unpack are used wherever they occur.
func c15Own(t *rt.T) {
	type mix struct {
		A int8
		O ownPack
		B bool
		C bool
		P [2]ownPack
		D int16
	}
	for i := 0; i < 50; i++ {
		v := &mix{A: int8(t.R.IntN(256)), O: ownPack{t.R.Uint32()}, B: t.R.IntN(2) == 0, C: t.R.IntN(2) == 0, P: [2]ownPack{{t.R.Uint32()}, {t.R.Uint32()}}, D: int16(t.R.IntN(65536))}
		want := []byte{byte(v.A), 0, 0, 0}
		want = binary.BigEndian.AppendUint32(want, v.O.A)
		want = append(want, byte(flag(v.B, 0)|flag(v.C, 1)), 0, 0, 0)
		want = binary.BigEndian.AppendUint32(want, v.P[0].A)
		want = binary.BigEndian.AppendUint32(want, v.P[1].A)
		want = plc.LE.AppendUint16(want, uint16(v.D))
		b, n, err := packOf(t, v)
		if err != nil || n != len(want) || !bytes.Equal(b, want) {
			t.Fail("own", "Pack with own packers gives % x (%d, %v), want % x", b, n, err, want)
		}
		for k, rd := range readersOf(want) {
			got := mix{}
			t.Guard("unpack-own", func() { n, err = gologix.Unpack(rd, &got) })
			if err != nil || n != len(want) || got != *v {
				t.Fail("own", "Unpack with own packers from %s gives %+v (%d, %v), want %+v", k, got, n, err, *v)
			}
		}
		for k := range want {
			t.Guard("unpack-own", func() { _, err = gologix.Unpack(bytes.NewReader(want[:k]), &mix{}) })
			if err == nil {
				t.Fail("own-short", "Unpack with own packers of %d of %d bytes succeeds", k, len(want))
			}
		}
		t.Count("packed", 1)
		t.Eval("own")
	}
}

func floats(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Float32, reflect.Float64:
		return true
	case reflect.Array:
		return floats(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if floats(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}
