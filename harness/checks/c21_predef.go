package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"

	"github.com/danomagnum/gologix"
	"github.com/danomagnum/gologix/lgxtypes"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C21",
		Rule: "each evaluation is one value of a predefined type packed, unpacked or moved through a client and compared with the documented bit positions (both directions, exhaustively over the status bits); " +
			"non-trivial = distinct (type, status bits, way)",
		Assumptions: []string{"FS, LS, OV and ER of TIMER are documented as unused and may be dropped"},
		Cases:       c21Cases,
		MinEvents:   []string{"packed", "unpacked", "client_reads", "client_writes"},
	})
}

func c21Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{{Name: "bits", Run: c21Bits}, {Name: "handles", Run: c21Handles}}
	for i := 0; i < tiered(tier, 600, 10000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("client-%d", i), Run: c21Client})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("string-%d", i), Run: c21String})
	}
	return cs
}

func c21Type(k int) (string, []int, []string) {
	switch k {
	case 0:
		return "TIMER", []int{31, 30, 29}, []string{"EN", "TT", "DN"}
	case 1:
		return "COUNTER", []int{31, 30, 29, 28, 27}, []string{"CU", "CD", "DN", "OV", "UN"}
	}
	return "CONTROL", []int{31, 30, 29, 28, 27, 26, 25, 24}, []string{"EN", "EU", "DN", "EM", "ER", "UL", "IN", "FD"}
}

var c21GoType = []reflect.Type{tTimer, tCounter, tControl}

func edge32(r *rand.Rand) int32 {
	switch r.IntN(6) {
	case 0:
		return []int32{0, 1, -1, 1<<31 - 1, -1 << 31, 255, 256, 65535, 65536, 0x01020304}[r.IntN(10)]
	default:
		return int32(r.Uint32())
	}
}

// c21Value builds the value with the given status bits, and its bytes, by hand.
func c21Value(k, set int, a, b int32) (reflect.Value, []byte) {
	_, bits, names := c21Type(k)
	v := reflect.New(c21GoType[k]).Elem()
	w := uint32(0)
	for i, n := range names {
		if set&(1<<i) != 0 {
			v.FieldByName(n).SetBool(true)
			w |= 1 << bits[i]
		}
	}
	p, q := "PRE", "ACC"
	if k == 2 {
		p, q = "LEN", "POS"
	}
	v.FieldByName(p).SetInt(int64(a))
	v.FieldByName(q).SetInt(int64(b))
	out := plc.LE.AppendUint32(nil, w)
	out = plc.LE.AppendUint32(out, uint32(a))
	return v, plc.LE.AppendUint32(out, uint32(b))
}

func c21Bits(t *rt.T) {
	for k := 0; k < 3; k++ {
		name, bits, _ := c21Type(k)
		for set := 0; set < 1<<len(bits); set++ {
			for rep := 0; rep < 4; rep++ {
				a, b := edge32(t.R), edge32(t.R)
				v, want := c21Value(k, set, a, b)
				got, n, err := packOf(t, v.Interface())
				t.Count("packed", 1)
				if err != nil || n != 12 || !bytes.Equal(got, want) {
					t.Fail("pack:"+name, "Pack(%s) is % x (%d, %v), the controller has % x", show(v.Interface()), got, n, err, want)
				}
				for rk, rd := range readersOf(append(append([]byte{}, want...), 1, 2, 3)) {
					d := reflect.New(c21GoType[k])
					junk(t.R, d.Elem())
					if k == 0 {
						clearUnused(d.Elem())
					}
					t.Guard("unpack", func() { n, err = gologix.Unpack(rd, d.Interface()) })
					t.Count("unpacked", 1)
					if k == 0 {
						clearUnused(d.Elem())
					}
					if err != nil || n != 12 || d.Elem().Interface() != v.Interface() {
						t.Fail("unpack:"+name, "Unpack of % x from %s gives %s (%d, %v), the members are %s", want, rk, show(d.Elem().Interface()), n, err, show(v.Interface()))
					}
				}
				// bits that belong to no member don't reach one
				noisy := append([]byte{}, want...)
				mask := uint32(0)
				for _, b := range bits {
					mask |= 1 << b
				}
				wd := plc.LE.Uint32(noisy)
				wd |= t.R.Uint32() &^ mask
				if k == 0 {
					wd &^= 0xF << 25
				}
				plc.LE.PutUint32(noisy, wd)
				d := reflect.New(c21GoType[k])
				t.Guard("unpack", func() { n, err = gologix.Unpack(bytes.NewReader(noisy), d.Interface()) })
				if err != nil || d.Elem().Interface() != v.Interface() {
					t.Fail("noise:"+name, "Unpack of % x gives %s (%v), the members are %s", noisy, show(d.Elem().Interface()), err, show(v.Interface()))
				}
				for cut := 0; cut < 12; cut++ {
					t.Guard("unpack", func() {
						_, err = gologix.Unpack(bytes.NewReader(want[:cut]), reflect.New(c21GoType[k]).Interface())
					})
					if err == nil {
						t.Fail("short:"+name, "Unpack of %d of 12 bytes succeeds", cut)
					}
					w := &shortWriter{left: cut}
					t.Guard("pack", func() { _, err = gologix.Pack(w, v.Interface()) })
					if err == nil {
						t.Fail("writer:"+name, "Pack into a writer that fails after %d of 12 bytes succeeds", cut)
					}
				}
			}
			t.Eval(fmt.Sprintf("%s %x", name, set))
		}
	}
}

func c21Handles(t *rt.T) {
	for _, x := range []struct {
		v    interface{ TypeAbbr() (string, uint16) }
		h    uint16
		abbr string
	}{
		{lgxtypes.TIMER{}, 0x0F83, "TIMER,DINT,DINT,DINT"}, {lgxtypes.COUNTER{}, 0x0F82, "COUNTER,DINT,DINT,DINT"},
		{lgxtypes.CONTROL{}, 0x0F81, "CONTROL,DINT,DINT,DINT"}, {lgxtypes.STRING{}, 0x0FCE, "STRING,DINT,SINT[82]"},
	} {
		s, h := x.v.TypeAbbr()
		s2, h2, err := gologix.TypeEncode(x.v)
		if s != x.abbr || h != x.h || s2 != s || h2 != h || err != nil {
			t.Fail("handle", "%T announces %q %#04x, encodes as %q %#04x (%v); the controller's is %q %#04x", x.v, s, h, s2, h2, err, x.abbr, x.h)
		}
		t.Eval(fmt.Sprintf("handle %T", x.v))
	}
}

type predefMix struct {
	A int32
	T lgxtypes.TIMER
	C lgxtypes.COUNTER
	L [2]lgxtypes.CONTROL
	B int16
	U [3]lgxtypes.TIMER
}

// c21Client moves predefined structures through a client in every way it offers.
func c21Client(t *rt.T) {
	r := t.R
	p := newPLC(t)
	c := dial(t, p, []uint16{0, 504, 4000}[r.IntN(3)])
	if c == nil {
		return
	}
	ids := uint16(0x200)
	for k := 0; k < 3; k++ {
		u := udtOf(c21GoType[k], fmt.Sprintf("P%d", k), &ids)
		n := 1 + r.IntN(30)
		p.Add(&plc.Tag{Name: fmt.Sprintf("One%d", k), Type: plc.STRUCT, UDT: u, Data: make([]byte, 12)})
		p.Add(&plc.Tag{Name: fmt.Sprintf("Arr%d", k), Type: plc.STRUCT, UDT: u, Dims: []int{n}, Data: make([]byte, 12*n)})
		name, bits, _ := c21Type(k)
		val := func() (reflect.Value, []byte) { return c21Value(k, r.IntN(1<<len(bits)), edge32(r), edge32(r)) }
		for i := 0; i < 20; i++ {
			v, enc := val()
			one := fmt.Sprintf("One%d", k)
			p.Poke(one, 0, enc)
			expect := func(way string, got any, err error) {
				t.Count("client_reads", 1)
				t.Eval(name + " " + way)
				if err != nil || !reflect.DeepEqual(got, v.Interface()) {
					t.Fail("read:"+way, "reading a %s (% x) by %s gives %s (%v), want %s", name, enc, way, show(got), err, show(v.Interface()))
				}
			}
			d := reflect.New(c21GoType[k])
			err := readInto(t, c, one, d)
			expect("Read", d.Elem().Interface(), err)
			switch k {
			case 0:
				x, err := gologix.ReadPacked[lgxtypes.TIMER](c, one)
				expect("ReadPacked", x, err)
			case 1:
				x, err := gologix.ReadPacked[lgxtypes.COUNTER](c, one)
				expect("ReadPacked", x, err)
			case 2:
				x, err := gologix.ReadPacked[lgxtypes.CONTROL](c, one)
				expect("ReadPacked", x, err)
			}
			// arrays
			sl := reflect.MakeSlice(reflect.SliceOf(c21GoType[k]), n, n)
			want := reflect.MakeSlice(reflect.SliceOf(c21GoType[k]), n, n)
			arr := fmt.Sprintf("Arr%d", k)
			for j := 0; j < n; j++ {
				v, e := val()
				want.Index(j).Set(v)
				p.Poke(arr, 12*j, e)
			}
			pv := reflect.New(sl.Type())
			pv.Elem().Set(sl)
			err = readInto(t, c, arr, pv)
			t.Count("client_reads", 1)
			if err != nil || !reflect.DeepEqual(pv.Elem().Interface(), want.Interface()) {
				t.Fail("read:slice", "reading %d %ss gives %s (%v), want %s", n, name, show(pv.Elem().Interface()), err, show(want.Interface()))
			}
			j := r.IntN(n)
			d = reflect.New(c21GoType[k])
			err = readInto(t, c, fmt.Sprintf("%s[%d]", arr, j), d)
			if err != nil || d.Elem().Interface() != want.Index(j).Interface() {
				t.Fail("read:element", "reading element %d of %d %ss gives %s (%v), want %s", j, n, name, show(d.Elem().Interface()), err, show(want.Index(j).Interface()))
			}
			// members by name
			mem := []string{"PRE", "ACC"}
			if k == 2 {
				mem = []string{"LEN", "POS"}
			}
			for _, m := range mem {
				var x int32
				err = c.Read(one+"."+m, &x)
				if err != nil || int64(x) != v.FieldByName(m).Int() {
					t.Fail("read:member", "reading %s.%s of %s gives %d (%v)", name, m, show(v.Interface()), x, err)
				}
			}
			// writes
			v2, enc2 := val()
			var target string
			var off int
			if i%2 == 0 {
				target = one
			} else {
				off = 12 * r.IntN(n)
				target = fmt.Sprintf("%s[%d]", arr, off/12)
			}
			way := "Write"
			if i%3 == 0 {
				way = "WriteMap"
				err = c.WriteMap(map[string]any{target: v2.Interface()})
			} else {
				err = c.Write(target, v2.Interface())
			}
			t.Count("client_writes", 1)
			got := p.Peek(map[bool]string{true: one, false: arr}[i%2 == 0])[off : off+12]
			if err != nil || !bytes.Equal(got, enc2) {
				t.Fail("write:"+way, "writing %s to %s leaves % x at the controller (%v), want % x", show(v2.Interface()), target, got, err, enc2)
			}
			t.Eval(name + " " + way)
		}
	}
	// inside a structure
	ids = 0x300
	typ := reflect.TypeOf(predefMix{})
	u := udtOf(typ, "PredefMix", &ids)
	p.Add(&plc.Tag{Name: "Mix", Type: plc.STRUCT, UDT: u, Data: make([]byte, u.Size)})
	for i := 0; i < 20; i++ {
		v := newValue(r, typ)
		p.Poke("Mix", 0, encodeTag(v.Elem()))
		var got predefMix
		err := c.Read("Mix", &got)
		if err != nil || !reflect.DeepEqual(&got, v.Interface()) {
			t.Fail("read:nested", "reading a structure of predefined ones gives %s (%v), want %s", show(got), err, show(v.Elem().Interface()))
		}
		v = newValue(r, typ)
		err = c.Write("Mix", v.Elem().Interface())
		if g := p.Peek("Mix"); err != nil || !bytes.Equal(g[:len(encodeStruct(v.Elem()))], encodeStruct(v.Elem())) {
			t.Fail("write:nested", "writing %s leaves % x (%v), want % x", show(v.Elem().Interface()), g, err, encodeStruct(v.Elem()))
		}
		t.Count("client_reads", 1)
		t.Count("client_writes", 1)
	}
}

// c21String: STRING as a structure and as text name the same bytes.
func c21String(t *rt.T) {
	r := t.R
	p := newPLC(t)
	c := dial(t, p, []uint16{0, 504, 4000}[r.IntN(3)])
	if c == nil {
		return
	}
	p.Add(&plc.Tag{Name: "S", Type: plc.STRUCT, UDT: plc.StringUDT, Data: str88("")})
	for i := 0; i < 40; i++ {
		txt := randString(r, 82)
		v := lgxtypes.STRING{Len: int32(len(txt))}
		for k := 0; k < len(txt); k++ {
			v.Data[k] = int8(txt[k])
		}
		want := str88(txt)
		b, n, err := packOf(t, v)
		if err != nil || n < 86 || n != len(b) || !bytes.Equal(b[:86], want[:86]) {
			t.Fail("pack:STRING", "Pack(STRING %q) is % x (%d, %v), want % x", txt, b, n, err, want)
		}
		p.Poke("S", 0, want)
		var got lgxtypes.STRING
		err = c.Read("S", &got)
		t.Count("client_reads", 1)
		if err != nil || got != v {
			t.Fail("read:STRING", "reading the STRING %q gives %d %v (%v)", txt, got.Len, got.Data, err)
		}
		x, err := gologix.ReadPacked[lgxtypes.STRING](c, "S")
		if err != nil || x != v {
			t.Fail("read:STRING-packed", "reading the STRING %q packed gives %d %v (%v)", txt, x.Len, x.Data, err)
		}
		var s string
		if err = c.Read("S", &s); err != nil || s != txt {
			t.Fail("read:text", "reading the STRING %q as text gives %q (%v)", txt, s, err)
		}
		p.Poke("S", 0, bytes.Repeat([]byte{0}, 88))
		err = c.Write("S", v)
		t.Count("client_writes", 1)
		if g := p.Peek("S"); err != nil || !bytes.Equal(g[:86], want[:86]) {
			t.Fail("write:STRING", "writing STRING %q as a structure leaves % x (%v), want % x", txt, g, err, want)
		}
		t.Eval("STRING")
	}
}

func str88(s string) []byte {
	b := make([]byte, 88)
	plc.PutString(b, s)
	return b
}
