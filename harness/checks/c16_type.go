package checks

import (
	"fmt"
	"math/rand/v2"
	"reflect"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C16",
		Rule: "each evaluation is one struct type whose abbreviation and handle are compared with an independent implementation, for zero and random values, and in written requests; " +
			"non-trivial = distinct definition",
		Assumptions: []string{"structures with BOOL arrays are left out (their abbreviation is not defined)", "a CRC is computed on the abbreviation with the library's published parameters (0x8005 reflected, initial 0)"},
		Cases:       c16Cases,
		MinEvents:   []string{"types", "values", "announced", "written", "refused"},
	})
}

func c16Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{{Name: "named", Run: c16Named}, {Name: "announced", Run: c16Announced}, {Name: "refused", Run: c16Refused}}
	for i := 0; i < tiered(tier, 1500, 20000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("random-%d", i), Run: c16Random})
	}
	for i := 0; i < tiered(tier, 150, 1000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("written-%d", i), Run: c16Written})
	}
	return cs
}

func hasBools(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Array:
		return t.Elem().Kind() == reflect.Bool || hasBools(t.Elem())
	case reflect.Struct:
		if predefined(t) {
			return false
		}
		for i := 0; i < t.NumField(); i++ {
			if hasBools(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

func announced(t reflect.Type) uint16 {
	switch t {
	case tTimer:
		return 0x0F83
	case tCounter:
		return 0x0F82
	case tControl:
		return 0x0F81
	case tLString:
		return 0x0FCE
	}
	return crcLogix(typeAbbr(t))
}

func c16One(t *rt.T, typ reflect.Type, sig string) {
	want := typeAbbr(typ)
	crc := announced(typ)
	for k := 0; k < 3; k++ {
		v := reflect.New(typ).Elem()
		if k == 1 {
			randFill(t.R, v)
		}
		if k == 2 {
			ones(v)
		}
		var s string
		var c uint16
		var err error
		t.Guard("typeencode", func() { s, c, err = gologix.TypeEncode(v.Interface()) })
		t.Count("values", 1)
		if err != nil {
			t.Fail(sig+":error", "TypeEncode(%v): %v", typ, err)
			return
		}
		if s != want {
			t.Fail(sig+":definition", "TypeEncode(%v) is %q, the definition is %q (value %d)", typ, s, want, k)
			return
		}
		if c != crc {
			t.Fail(sig+":handle", "TypeEncode(%v) has handle %#04x for %q, want %#04x", typ, c, s, crc)
			return
		}
	}
	t.Count("types", 1)
	t.Eval(want)
}

func c16Named(t *rt.T) {
	for _, typ := range genTypes {
		if !hasBools(typ) {
			c16One(t, typ, "named")
		}
	}
	for _, typ := range []reflect.Type{tTimer, tCounter, tControl, tLString, reflect.TypeOf(pBits9{}), reflect.TypeOf(pWide{}), reflect.TypeOf(pStr{}), reflect.TypeOf(pTail{})} {
		c16One(t, typ, "named")
	}
	// handles worked out by hand from the published definition
	type MyUDT struct {
		Field1 int32
		Flag1  bool
		Flag2  bool
		Field2 int32
	}
	s, _, err := gologix.TypeEncode(MyUDT{})
	if err != nil || s != "MyUDT,DINT,SINT,DINT" {
		t.Fail("hand", "TypeEncode(MyUDT) is %q, %v", s, err)
	}
}

func c16Random(t *rt.T) {
	for i := 0; i < 60; i++ {
		typ := wildStruct(t.R, t.R.IntN(3))
		if hasBools(typ) || multiDim(typ) {
			continue
		}
		c16One(t, typ, "random")
	}
	// big arrays and long BOOL runs
	fs := []reflect.StructField{}
	for i := t.R.IntN(70); i >= 0; i-- {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("B%d", i), Type: tBool})
	}
	fs = append(fs, reflect.StructField{Name: "X", Type: reflect.ArrayOf(1+t.R.IntN(2000), tI16)})
	for i := t.R.IntN(20); i >= 0; i-- {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("C%d", i), Type: tBool})
	}
	c16One(t, reflect.StructOf(fs), "random")
}

func multiDim(t reflect.Type) bool {
	if t.Kind() == reflect.Array {
		return t.Elem().Kind() == reflect.Array || multiDim(t.Elem())
	}
	if t.Kind() == reflect.Struct {
		for i := 0; i < t.NumField(); i++ {
			if multiDim(t.Field(i).Type) {
				return true
			}
		}
	}
	return false
}

type annVal struct{ A, B int32 }

func (a annVal) TypeAbbr() (string, uint16) { return "Announced,DINT,DINT[7]", 0x1234 }

type annNest struct {
	X int16
	T annVal
	Y [3]annVal
	Z bool
}

// c16Announced: a type's own abbreviation is used, also inside other types.
func c16Announced(t *rt.T) {
	for i := 0; i < 20; i++ {
		s, c, err := gologix.TypeEncode(annVal{A: t.R.Int32()})
		if err != nil || s != "Announced,DINT,DINT[7]" || c != 0x1234 {
			t.Fail("announced", "TypeEncode of an announcing type is %q %#x %v", s, c, err)
		}
		want := "annNest,INT,Announced,DINT,DINT[7],Announced,DINT,DINT[7][3],SINT"
		s, c, err = gologix.TypeEncode(annNest{X: int16(i)})
		if err != nil || s != want || c != crcLogix(want) {
			t.Fail("announced", "TypeEncode of a type with announcing members is %q %#x %v, want %q %#x", s, c, err, want, crcLogix(want))
		}
		t.Count("announced", 1)
		t.Eval("announced")
	}
}

func c16Refused(t *rt.T) {
	for _, v := range []any{nil, 1, "x", []int32{1}, &pTail{}, (*pTail)(nil), struct{ A int }{}, struct{ A string }{}, struct{ A []int32 }{}, struct{ A map[int]int }{}, struct{ A *int32 }{},
		struct{ A struct{ B uint } }{}, struct{ A [2]struct{ B any } }{}, struct{ A [3]string }{}} {
		var err error
		var s string
		t.Guard("typeencode", func() { s, _, err = gologix.TypeEncode(v) })
		if err == nil {
			t.Fail("accepted", "TypeEncode(%T) is %q without an error", v, s)
		}
		t.Count("refused", 1)
		t.Eval(fmt.Sprintf("%T", v))
	}
}

// c16Written: the handle goes out with every written structure.
func c16Written(t *rt.T) {
	p := newPLC(t)
	c := dial(t, p, 4000)
	if c == nil {
		return
	}
	types := []reflect.Type{tTimer, tCounter, tControl, reflect.TypeOf(pTail{}), reflect.TypeOf(pWide{}), reflect.TypeOf(pBits9{})}
	r := t.R
	for i := 0; i < 30; i++ {
		typ := genTypes[r.IntN(len(genTypes))]
		if !hasBools(typ) && len(encodeStruct(reflect.New(typ).Elem())) < 1500 && aligned(typ) {
			types = append(types, typ)
		}
	}
	for i, typ := range types {
		ids := uint16(0x100 + i)
		name := fmt.Sprintf("W%d", i)
		u := udtOf(typ, "U"+name, &ids)
		u.Handle = announced(typ)
		p.Add(&plc.Tag{Name: name, Type: plc.STRUCT, UDT: u, Data: make([]byte, u.Size)})
		v := reflect.New(typ)
		fillAny(r, v.Elem())
		mark := p.LogLen()
		var err error
		if i%2 == 0 {
			err = c.Write(name, v.Elem().Interface())
		} else {
			err = c.WriteMap(map[string]any{name: v.Elem().Interface()})
		}
		found := false
		for _, q := range flat(p.Requests(mark)) {
			if q.Service == 0x4D && len(q.Data) >= 4 {
				found = true
				if q.Data[0] != 0xA0 || q.Data[1] != 0x02 || plc.LE.Uint16(q.Data[2:]) != announced(typ) {
					t.Fail("written", "writing a %v sends type % x, want handle %#04x (%s)", typ, q.Data[:4], announced(typ), typeAbbr(typ))
				}
			}
		}
		if !found {
			t.Fail("not-written", "writing a %v sends no write request (%v)", typ, err)
		}
		t.Count("written", 1)
		t.Eval("written " + typeAbbr(typ))
	}
}

func fillAny(r *rand.Rand, v reflect.Value) {
	randFill(r, v)
	clearUnused(v)
}
