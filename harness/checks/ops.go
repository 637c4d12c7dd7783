package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

// opWorld is a controller with a known set of tags and objects that every client operation can be run against.
type opWorld struct {
	p    *plc.PLC
	mix  *plc.UDT
	insA uint32
}

const opArr = 300

type opMulti struct {
	A int32    `gologix:"D3"`
	B []int32  `gologix:"Arr[7]"`
	C string   `gologix:"Text"`
	D bool     `gologix:"Flag"`
	E float32  `gologix:"Speed"`
	F [3]bool  // not a tag
	G int16    `gologix:"Short"`
	H []string // not a tag
}

type opWriteMulti struct {
	A int32   `gologix:"W3"`
	C string  `gologix:"WText"`
	D bool    `gologix:"WFlag"`
	E float32 `gologix:"WSpeed"`
}

func newOpWorld(t *rt.T) *opWorld {
	w := &opWorld{p: newPLC(t)}
	p := w.p
	for i := 0; i < 8; i++ {
		p.Add(&plc.Tag{Name: fmt.Sprintf("D%d", i), Type: plc.DINT, Data: make([]byte, 4)})
		p.Add(&plc.Tag{Name: fmt.Sprintf("W%d", i), Type: plc.DINT, Data: make([]byte, 4)})
	}
	p.Add(&plc.Tag{Name: "Arr", Type: plc.DINT, Dims: []int{opArr}, Data: make([]byte, 4*opArr)})
	p.Add(&plc.Tag{Name: "Long", Type: plc.DINT, Dims: []int{3000}, Data: make([]byte, 12000)})
	p.Add(&plc.Tag{Name: "WArr", Type: plc.DINT, Dims: []int{opArr}, Data: make([]byte, 4*opArr)})
	for _, n := range []string{"Text", "WText"} {
		p.Add(&plc.Tag{Name: n, Type: plc.STRUCT, UDT: plc.StringUDT, Data: make([]byte, 88)})
	}
	p.Add(&plc.Tag{Name: "Texts", Type: plc.STRUCT, UDT: plc.StringUDT, Dims: []int{5}, Data: make([]byte, 440)})
	for _, n := range []string{"Flag", "WFlag"} {
		p.Add(&plc.Tag{Name: n, Type: plc.BOOL, Data: make([]byte, 1)})
	}
	for _, n := range []string{"Speed", "WSpeed"} {
		p.Add(&plc.Tag{Name: n, Type: plc.REAL, Data: make([]byte, 4)})
	}
	p.Add(&plc.Tag{Name: "Short", Type: plc.INT, Data: make([]byte, 2)})
	p.Add(&plc.Tag{Name: "Flags", Type: plc.DWORD, Dims: []int{4}, Data: make([]byte, 16)})
	ids := uint16(0x200)
	w.mix = udtOf(reflect.TypeOf(SMix{}), "SMix", &ids)
	p.UDTs[w.mix.ID] = w.mix
	sz := len(encodeTag(reflect.New(reflect.TypeOf(SMix{})).Elem()))
	p.Add(&plc.Tag{Name: "Mix", Type: plc.STRUCT, UDT: w.mix, Data: make([]byte, sz)})
	p.Add(&plc.Tag{Name: "WMix", Type: plc.STRUCT, UDT: w.mix, Data: make([]byte, sz)})
	p.Programs = append(p.Programs, &plc.Program{ID: 0x51, Name: "Main"}, &plc.Program{ID: 0x99, Name: "Side"})
	p.Add(&plc.Tag{Name: "Program:Main.Count", Type: plc.DINT, Data: make([]byte, 4)})
	p.Add(&plc.Tag{Name: "Program:Main.Other", Type: plc.REAL, Data: make([]byte, 4)})
	p.Add(&plc.Tag{Name: "Program:Side.Only", Type: plc.INT, Data: make([]byte, 2)})
	p.Add(&plc.Tag{Name: "Program:Main", Type: 0x68, RawType: 0x1068, Data: make([]byte, 4)})
	p.Add(&plc.Tag{Name: "Program:Side", Type: 0x68, RawType: 0x1068, Data: make([]byte, 4)})
	w.shuffle(t.R)
	return w
}

// shuffle gives everything a new value.
func (w *opWorld) shuffle(r *rand.Rand) {
	p := w.p
	for name := range p.Snapshot() {
		b := p.Peek(name)
		switch {
		case strings.Contains(name, "text"):
			for i := 0; i+88 <= len(b); i += 88 {
				s := make([]byte, 1+r.IntN(82))
				for j := range s {
					s[j] = byte(33 + r.IntN(90))
				}
				plc.PutString(b[i:], string(s))
			}
		case strings.HasSuffix(name, "flag"):
			b[0] = byte(r.IntN(2))
		case strings.HasSuffix(name, "mix"):
			v := reflect.New(reflect.TypeOf(SMix{})).Elem()
			randFill(r, v)
			clearUnused(v)
			copy(b, encodeTag(v))
		case strings.HasSuffix(name, "speed"), strings.HasSuffix(name, ".other"):
			copy(b, randElem(r, plc.REAL))
		default:
			for i := range b {
				b[i] = byte(1 + r.IntN(255))
			}
		}
		p.Poke(name, 0, b)
	}
	p.Lock()
	for _, a := range [][2]any{{"1/1/1", 2}, {"1/1/2", 2}, {"1/1/3", 2}, {"1/1/5", 2}, {"1/1/6", 4}, {"172/1/1", 2}, {"172/1/2", 2}, {"172/1/3", 4}, {"172/1/4", 4}, {"172/1/10", 4}, {"768/4660/6844", 2}, {"4/300/2", 6}} {
		b := make([]byte, a[1].(int))
		for i := range b {
			b[i] = byte(1 + r.IntN(255))
		}
		p.Attrs[a[0].(string)] = b
	}
	name := make([]byte, 1+r.IntN(30))
	for i := range name {
		name[i] = byte(65 + r.IntN(26))
	}
	p.Attrs["1/1/7"] = append([]byte{byte(len(name))}, name...)
	id := []byte{1, 0, 0, 2, 0xAF, 0x12, 127, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0}
	for i := 0; i < 14; i++ {
		id = append(id, byte(1+r.IntN(255)))
	}
	id = append(id, byte(len(name)))
	id = append(id, name...)
	id = append(id, byte(r.IntN(256)))
	p.Identity = id
	sv := []byte{1, 0, 0x20, 1}
	sn := make([]byte, 16)
	copy(sn, "Communications")
	p.Services = append(sv, sn...)
	p.Unlock()
}

func (w *opWorld) i32(name string, i int) int32 {
	return int32(binary.LittleEndian.Uint32(w.p.Peek(name)[4*i:]))
}

func (w *opWorld) attr(key string) []byte {
	w.p.Lock()
	defer w.p.Unlock()
	return append([]byte(nil), w.p.Attrs[key]...)
}

// op is one client operation. Run returns the error of the call and, separately, what is wrong with the values it
// delivered: without an error every destination holds the controller's value; with one it is untouched or holds the
// controller's value.
type op struct {
	Name string
	Kind string
	Run  func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string)
	// Tolerant says which rejected service may still end in success, provided the result is right.
	Tolerant func(q *plc.Req) bool
	NoTCP    bool
}

// dest judges a destination after a call.
func dest[T any](err error, what string, got, sentinel, want T) string {
	if reflect.DeepEqual(got, want) {
		return ""
	}
	if err != nil && reflect.DeepEqual(got, sentinel) {
		return ""
	}
	return fmt.Sprintf("%s is %s, the controller holds %s (error %v)", what, show(got), show(want), err)
}

// elems judges a slice destination: on an error each element may be either.
func elems[T comparable](err error, what string, got []T, sentinel T, want []T) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%s has %d elements instead of %d (error %v)", what, len(got), len(want), err)
	}
	for i := range got {
		if got[i] == want[i] || (err != nil && got[i] == sentinel) {
			continue
		}
		return fmt.Sprintf("%s[%d] is %v, the controller holds %v (error %v)", what, i, got[i], want[i], err)
	}
	return ""
}

func first(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

func (w *opWorld) arr(name string, from, n int) []int32 {
	b := w.p.Peek(name)
	out := make([]int32, n)
	for i := range out {
		out[i] = int32(binary.LittleEndian.Uint32(b[4*(from+i):]))
	}
	return out
}

func (w *opWorld) str(name string, i int) string { return plc.GetString(w.p.Peek(name)[88*i:]) }
func (w *opWorld) f32(name string) float32 {
	var f float32
	binary.Read(bytes.NewReader(w.p.Peek(name)), binary.LittleEndian, &f)
	return f
}

func (w *opWorld) mixOf(name string) SMix {
	var v SMix
	rv := reflect.ValueOf(&v).Elem()
	b := w.p.Peek(name)
	// decode by hand, the layout is fixed
	v.A = int32(binary.LittleEndian.Uint32(b))
	v.B, v.C = b[4]&1 != 0, b[4]&2 != 0
	v.D = int16(binary.LittleEndian.Uint16(b[6:]))
	binary.Read(bytes.NewReader(b[8:12]), binary.LittleEndian, &v.E)
	for i := range v.F {
		v.F[i] = int16(binary.LittleEndian.Uint16(b[12+2*i:]))
	}
	v.G = int64(binary.LittleEndian.Uint64(b[24:]))
	if !bytes.Equal(encodeTag(rv), b) {
		panic("mixOf")
	}
	return v
}

func asI32(v any) (int32, bool) { x, ok := v.(int32); return x, ok }

// anyValue judges a result delivered as any (nil when nothing was delivered).
func anyValue(err error, what string, got, want any) string {
	if err != nil && (got == nil || reflect.DeepEqual(got, reflect.Zero(reflect.TypeOf(got)).Interface())) {
		return ""
	}
	if reflect.DeepEqual(got, want) || sameList(got, want) {
		return ""
	}
	return fmt.Sprintf("%s is %s, the controller holds %s (error %v)", what, show(got), show(want), err)
}

var opsOnce sync.Once
var opList []op

func ops() []op {
	opsOnce.Do(func() { opList = buildOps() })
	return opList
}

func opNamed(name string) op {
	for _, o := range ops() {
		if o.Name == name {
			return o
		}
	}
	panic("no op " + name)
}

func opsOf(kinds ...string) []op {
	out := []op{}
	for _, o := range ops() {
		for _, k := range kinds {
			if o.Kind == k {
				out = append(out, o)
			}
		}
	}
	return out
}

func buildOps() []op {
	const S = int32(0x5A5A5A5B)
	var l []op
	add := func(name, kind string, run func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string)) *op {
		l = append(l, op{Name: name, Kind: kind, Run: run})
		return &l[len(l)-1]
	}
	add("Read-int32", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := S
		i := r.IntN(8)
		err := c.Read(fmt.Sprintf("D%d", i), &v)
		return err, dest(err, fmt.Sprintf("D%d", i), v, S, w.i32(fmt.Sprintf("D%d", i), 0))
	})
	add("Read-[]int32", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		n := 2 + r.IntN(60)
		from := r.IntN(opArr - n)
		v := make([]int32, n)
		for i := range v {
			v[i] = S
		}
		err := c.Read(fmt.Sprintf("Arr[%d]", from), v)
		return err, elems(err, "Arr", v, S, w.arr("Arr", from, n))
	})
	add("Read-long", "readfrag", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		n := 1100 + r.IntN(1500)
		from := r.IntN(3000 - n)
		v := make([]int32, n)
		for i := range v {
			v[i] = S
		}
		err := c.Read(fmt.Sprintf("Long[%d]", from), v)
		return err, elems(err, "Long", v, S, w.arr("Long", from, n))
	})
	add("Read-string", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := "sentinel"
		err := c.Read("Text", &v)
		return err, dest(err, "Text", v, "sentinel", w.str("Text", 0))
	})
	add("Read-[]string", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := []string{"s", "s", "s"}
		err := c.Read("Texts[1]", v)
		return err, elems(err, "Texts", v, "s", []string{w.str("Texts", 1), w.str("Texts", 2), w.str("Texts", 3)})
	})
	add("Read-bool", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		want := w.p.Peek("Flag")[0] != 0
		v := !want
		err := c.Read("Flag", &v)
		return err, dest(err, "Flag", v, !want, want)
	})
	add("Read-bit", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		b := r.IntN(32)
		want := w.i32("D5", 0)>>b&1 != 0
		v := !want
		err := c.Read(fmt.Sprintf("D5.%d", b), &v)
		return err, dest(err, fmt.Sprintf("D5.%d", b), v, !want, want)
	})
	add("Read-[]bool", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		b := w.p.Peek("Flags")
		v, want, sent := make([]bool, 64), make([]bool, 64), make([]bool, 64)
		for i := range v {
			want[i] = b[i/8]>>(i%8)&1 != 0
			v[i] = !want[i]
			sent[i] = v[i]
		}
		err := c.Read("Flags[0]", v)
		return err, dest(err, "Flags", v, sent, want)
	})
	add("Read-float32", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := float32(-77.25)
		err := c.Read("Speed", &v)
		want := w.f32("Speed")
		if want != want && v != v {
			return err, ""
		}
		return err, dest(err, "Speed", v, -77.25, want)
	})
	add("Read-struct", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := SMix{A: 77}
		err := c.Read("Mix", &v)
		if want := w.mixOf("Mix"); !same(v, want) && !(err != nil && v == SMix{A: 77}) {
			return err, fmt.Sprintf("Mix is %s, the controller holds %s (error %v)", show(v), show(want), err)
		}
		return err, ""
	})
	add("Read-any", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		var v any = "sentinel"
		err := c.Read("D2", &v)
		return err, dest(err, "D2", v, any("sentinel"), any(w.i32("D2", 0)))
	})
	add("ReadPacked", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v, err := gologix.ReadPacked[SMix](c, "Mix")
		if want := w.mixOf("Mix"); !same(v, want) && !(err != nil && v == SMix{}) {
			return err, fmt.Sprintf("Mix is %s, the controller holds %s (error %v)", show(v), show(want), err)
		}
		return err, ""
	})
	add("Read-program-tag", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := S
		err := c.Read("Program:Main.Count", &v)
		return err, dest(err, "Program:Main.Count", v, S, w.i32("Program:Main.Count", 0))
	})
	add("Read_single", "read", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v, err := c.Read_single("D4", gologix.CIPTypeDINT, 1)
		if err != nil {
			if x, ok := v.(int); ok && x == 0 {
				return err, ""
			}
		}
		return err, anyValue(err, "D4", v, w.i32("D4", 0))
	})
	// multi-tag reads
	add("ReadList", "readmulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		n := 2 + r.IntN(8)
		from := r.IntN(opArr - n)
		v, err := c.ReadList([]string{"D0", fmt.Sprintf("Arr[%d]", from), "Text", "Short", "D1"}, []any{int32(0), []int32{}, "", int16(0), int32(0)}, []int{1, n, 1, 1, 1})
		if err != nil && len(v) == 0 {
			return err, ""
		}
		if len(v) != 5 {
			return err, fmt.Sprintf("ReadList of 5 tags gave %d values (error %v)", len(v), err)
		}
		sh := w.p.Peek("Short")
		return err, first(anyValue(err, "D0", v[0], w.i32("D0", 0)), anyValue(err, "Arr", v[1], w.arr("Arr", from, n)), anyValue(err, "Text", v[2], w.str("Text", 0)),
			anyValue(err, "Short", v[3], int16(binary.LittleEndian.Uint16(sh))), anyValue(err, "D1", v[4], w.i32("D1", 0)))
	})
	add("ReadMap", "readmulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		m := map[string]any{"D0": S, "D7": S, "Speed": float32(-1.5), "Text": "sentinel", "Flag": false}
		err := c.ReadMap(m)
		sp := w.f32("Speed")
		b := first(dest(err, "D0", m["D0"], any(S), any(w.i32("D0", 0))), dest(err, "D7", m["D7"], any(S), any(w.i32("D7", 0))),
			dest(err, "Text", m["Text"], any("sentinel"), any(w.str("Text", 0))), dest(err, "Flag", m["Flag"], any(false), any(w.p.Peek("Flag")[0] != 0)))
		if sp == sp {
			b = first(b, dest(err, "Speed", m["Speed"], any(float32(-1.5)), any(sp)))
		}
		if len(m) != 5 {
			b = first(b, fmt.Sprintf("the map has %d keys", len(m)))
		}
		return err, b
	})
	add("ReadMulti", "readmulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		n := 1 + r.IntN(9)
		v := opMulti{A: S, B: make([]int32, n), C: "sentinel", D: false, E: -1.5, F: [3]bool{true, false, true}, G: 12345, H: []string{"x"}}
		for i := range v.B {
			v.B[i] = S
		}
		err := c.ReadMulti(&v)
		sh := int16(binary.LittleEndian.Uint16(w.p.Peek("Short")))
		b := first(dest(err, "D3", v.A, S, w.i32("D3", 0)), elems(err, "Arr", v.B, S, w.arr("Arr", 7, n)), dest(err, "Text", v.C, "sentinel", w.str("Text", 0)),
			dest(err, "Flag", v.D, false, w.p.Peek("Flag")[0] != 0), dest(err, "Short", v.G, 12345, sh))
		if sp := w.f32("Speed"); sp == sp {
			b = first(b, dest(err, "Speed", v.E, -1.5, sp))
		}
		if v.F != [3]bool{true, false, true} || len(v.H) != 1 || v.H[0] != "x" {
			b = first(b, "a field without a tag was changed")
		}
		return err, b
	})
	add("ReadTagGroup", "readmulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		k := r.IntN(8)
		g := gologix.NewTagGroup(gologix.TagDef{Name: "D{0}", Type: gologix.CIPTypeDINT}, gologix.TagDef{Name: "Arr[{1}]", Type: gologix.CIPTypeDINT, Elements: 4}, gologix.TagDef{Name: "Text", Type: gologix.CIPTypeSTRING})
		j := r.IntN(opArr - 4)
		res, err := c.ReadTagGroup(g, k, j)
		if err != nil {
			if res != nil {
				for name, v := range res.Raw() {
					if v != nil {
						return err, fmt.Sprintf("the result of a failed ReadTagGroup holds %s = %v", name, v)
					}
				}
			}
			return err, ""
		}
		v, e1 := res.Int32(fmt.Sprintf("D%d", k))
		a, e2 := res.Int32Slice(fmt.Sprintf("Arr[%d]", j))
		s, e3 := res.String("Text")
		if e1 != nil || e2 != nil || e3 != nil {
			return err, fmt.Sprintf("accessors: %v %v %v", e1, e2, e3)
		}
		return err, first(dest(nil, "D", v, S, w.i32(fmt.Sprintf("D%d", k), 0)), elems(nil, "Arr", a, S, w.arr("Arr", j, 4)), dest(nil, "Text", s, "", w.str("Text", 0)))
	})
	add("ReadList-many", "readmulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		// more than fits one request
		n := 420
		names, types, els, idx := make([]string, n), make([]any, n), make([]int, n), make([]int, n)
		for i := range names {
			idx[i] = r.IntN(opArr)
			names[i], types[i], els[i] = fmt.Sprintf("Arr[%d]", idx[i]), int32(0), 1
		}
		v, err := c.ReadList(names, types, els)
		if err != nil && len(v) == 0 {
			return err, ""
		}
		if len(v) != n {
			return err, fmt.Sprintf("ReadList of %d tags gave %d values (error %v)", n, len(v), err)
		}
		b := w.arr("Arr", 0, opArr)
		for i := range v {
			if s := anyValue(err, names[i], v[i], b[idx[i]]); s != "" {
				return err, s
			}
		}
		return err, ""
	})
	// writes
	wrote := func(err error, w *opWorld, name string, off int, enc []byte) string {
		if err != nil {
			return ""
		}
		if b := w.p.Peek(name); !bytes.Equal(b[off:off+len(enc)], enc) {
			return fmt.Sprintf("%s holds %x at %d after a successful write of %x", name, b[off:off+len(enc)], off, enc)
		}
		return ""
	}
	le32 := func(v int32) []byte { return binary.LittleEndian.AppendUint32(nil, uint32(v)) }
	add("Write-int32", "write", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := int32(r.Uint32())
		n := fmt.Sprintf("W%d", r.IntN(8))
		err := c.Write(n, v)
		return err, wrote(err, w, n, 0, le32(v))
	})
	add("Write-[]int32", "write", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := make([]int32, 1+r.IntN(50))
		enc := []byte{}
		for i := range v {
			v[i] = int32(r.Uint32())
			enc = append(enc, le32(v[i])...)
		}
		k := r.IntN(opArr - 50)
		err := c.Write(fmt.Sprintf("WArr[%d]", k), v)
		return err, wrote(err, w, "WArr", 4*k, enc)
	})
	add("Write-string", "write", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		s := fmt.Sprintf("text %d", r.Uint64())
		err := c.Write("WText", s)
		return err, wrote(err, w, "WText", 0, append(le32(int32(len(s))), s...))
	})
	add("Write-bool", "write", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := r.IntN(2) == 1
		err := c.Write("WFlag", v)
		if err == nil && (w.p.Peek("WFlag")[0] != 0) != v {
			return err, fmt.Sprintf("WFlag was not set to %v", v)
		}
		return err, ""
	})
	add("Write-struct", "write", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		rv := reflect.New(reflect.TypeOf(SMix{})).Elem()
		randFill(r, rv)
		clearUnused(rv)
		err := c.Write("WMix", rv.Interface())
		return err, wrote(err, w, "WMix", 0, encodeTag(rv))
	})
	add("WriteMap", "writemulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		m := map[string]any{}
		for i := 0; i < 8; i++ {
			m[fmt.Sprintf("W%d", i)] = int32(r.Uint32())
		}
		s := fmt.Sprintf("map %d", r.Uint64())
		m["WText"] = s
		err := c.WriteMap(m)
		b := wrote(err, w, "WText", 0, append(le32(int32(len(s))), s...))
		for k, v := range m {
			if x, ok := v.(int32); ok {
				b = first(b, wrote(err, w, k, 0, le32(x)))
			}
		}
		return err, b
	})
	add("WriteMulti", "writemulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v := opWriteMulti{A: int32(r.Uint32()), C: fmt.Sprintf("multi %d", r.Uint32()), D: r.IntN(2) == 1, E: float32(r.IntN(1 << 20))}
		err := c.WriteMulti(v)
		b := first(wrote(err, w, "W3", 0, le32(v.A)), wrote(err, w, "WText", 0, append(le32(int32(len(v.C))), v.C...)))
		if err == nil && (w.f32("WSpeed") != v.E || (w.p.Peek("WFlag")[0] != 0) != v.D) {
			b = first(b, "WSpeed or WFlag was not written")
		}
		return err, b
	})
	add("WriteMap-many", "writemulti", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		m := map[string]any{}
		for i := 0; i < opArr; i++ {
			m[fmt.Sprintf("WArr[%d]", i)] = int32(r.Uint32())
		}
		err := c.WriteMap(m)
		enc := []byte{}
		for i := 0; i < opArr; i++ {
			enc = append(enc, le32(m[fmt.Sprintf("WArr[%d]", i)].(int32))...)
		}
		return err, wrote(err, w, "WArr", 0, enc)
	})
	// attributes and generic messages
	item := func(err error, it *gologix.CIPItem, want []byte) string {
		if err != nil {
			return ""
		}
		if it == nil {
			return "neither an item nor an error"
		}
		if !bytes.Equal(it.Rest(), want) {
			return fmt.Sprintf("the item holds %x, the device answered %x", it.Rest(), want)
		}
		return ""
	}
	add("GetAttrSingle", "attr", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		if r.IntN(4) == 0 { // numbers that take two bytes
			if r.IntN(2) == 0 {
				it, err := c.GetAttrSingle(4, 300, 2)
				return err, item(err, it, w.attr("4/300/2"))
			}
			it, err := c.GetAttrSingle(768, 4660, 6844)
			return err, item(err, it, w.attr("768/4660/6844"))
		}
		a := []int{1, 2, 3, 5, 6, 7}[r.IntN(6)]
		it, err := c.GetAttrSingle(gologix.CipObject_Identity, 1, gologix.CIPAttribute(a))
		return err, item(err, it, w.attr(fmt.Sprintf("1/1/%d", a)))
	})
	add("GetAttrList", "attr", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		it, err := c.GetAttrList(gologix.CipObject_Identity, 1, 1, 2, 6)
		want := []byte{}
		for _, a := range []byte{1, 2, 6} {
			want = append(want, a, 0, 0, 0)
			want = append(want, w.attr(fmt.Sprintf("1/1/%d", a))...)
		}
		return err, item(err, it, want)
	})
	add("GetControllerPropList", "attr", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v, err := c.GetControllerPropList()
		if err != nil {
			return err, ""
		}
		le := binary.LittleEndian
		if v.Attr1 != le.Uint16(w.attr("172/1/1")) || v.Attr2 != le.Uint16(w.attr("172/1/2")) || v.Attr3 != le.Uint32(w.attr("172/1/3")) ||
			v.Attr4 != le.Uint32(w.attr("172/1/4")) || v.Attr5 != le.Uint32(w.attr("172/1/10")) {
			return err, fmt.Sprintf("properties %+v are not the controller's", v)
		}
		return err, ""
	})
	add("GenericCIPMessage", "attr", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		path, _ := gologix.Serialize(gologix.CipObject_Identity, gologix.CIPInstance(1), gologix.CIPAttribute(6))
		it, err := c.GenericCIPMessage(gologix.CIPService_GetAttributeSingle, path.Bytes(), nil)
		return err, item(err, it, w.attr("1/1/6"))
	})
	add("GetTemplateInstanceAttr", "attr", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v, err := c.GetTemplateInstanceAttr(uint32(w.mix.ID))
		if err != nil {
			return err, ""
		}
		if v.SizeBytes != uint32(w.mix.Size) || int(v.MemberCount) != len(w.mix.Members) || v.Handle != w.mix.Handle || v.SizeWords != plc.TemplateWords(w.mix) {
			return err, fmt.Sprintf("template attributes %+v are not those of the structure (size %d, members %d, handle %#x)", v, w.mix.Size, len(w.mix.Members), w.mix.Handle)
		}
		return err, ""
	})
	// discovery
	add("ListAllTags", "list", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		err := c.ListAllTags(0)
		if err != nil {
			return err, ""
		}
		return err, w.inventory(c)
	}).Tolerant = func(q *plc.Req) bool {
		// a structure whose definition cannot be read is listed without it; older controllers list programs among the symbols
		return q.Service == 0x4C || q.Service == 3 || (q.Service == 0x55 && len(q.Path) > 0 && q.Path[0].Kind == 'C' && q.Path[0].Val == plc.ClassProgram && len(q.Path) == 2)
	}
	add("ListAllPrograms", "list", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		err := c.ListAllPrograms()
		if err != nil {
			return err, ""
		}
		if len(c.KnownPrograms) != 2 || c.KnownPrograms["main"] == nil || c.KnownPrograms["main"].ID != 0x51 || c.KnownPrograms["side"] == nil || c.KnownPrograms["side"].ID != 0x99 {
			return err, fmt.Sprintf("known programs %v", c.KnownPrograms)
		}
		return err, ""
	})
	add("ListSubTags", "list", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		k, err := c.ListSubTags(&gologix.KnownProgram{Name: "Main", ID: 0x51}, 0)
		if err != nil {
			return err, ""
		}
		got := map[string]byte{}
		for _, x := range k {
			got[strings.ToLower(x.Name)] = byte(x.Info.Type)
		}
		if len(k) != 2 || got["program:main.count"] != plc.DINT || got["program:main.other"] != plc.REAL {
			return err, fmt.Sprintf("the tags of Main are %v", got)
		}
		return err, ""
	})
	add("ListMembers", "list", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		delete(c.KnownTypesByID, uint32(w.mix.ID)) // ask again
		u, err := c.ListMembers(uint32(w.mix.ID))
		if err != nil {
			return err, ""
		}
		return err, memberNames(u, w.mix)
	})
	add("ListIdentity", "udp", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v, err := c.ListIdentity()
		if err != nil {
			return err, ""
		}
		if v == nil {
			return err, "neither an identity nor an error"
		}
		b := w.identity()
		if uint16(v.Vendor) != binary.LittleEndian.Uint16(b[18:]) || v.SerialNumber != binary.LittleEndian.Uint32(b[28:]) || v.ProductName != string(b[33:33+int(b[32])]) || v.State != b[len(b)-1] {
			return err, fmt.Sprintf("identity %+v, the device sent %x", *v, b)
		}
		return err, ""
	})
	add("ListServices", "udp", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		v, err := c.ListServices()
		if err != nil {
			return err, ""
		}
		if len(v) != 1 || v[0].EncapProtocolVersion != 1 || uint16(v[0].Capabilities) != 0x120 || strings.TrimRight(v[0].Name, "\x00") != "Communications" {
			return err, fmt.Sprintf("services %+v", v)
		}
		return err, ""
	})
	// data table buffers
	add("DataTable", "table", func(w *opWorld, c *gologix.Client, r *rand.Rand) (error, string) {
		buf, err := c.NewDataTableBuffer()
		if err != nil {
			return err, ""
		}
		if err = buf.AddTag("D6", gologix.CIPTypeDINT); err != nil {
			return err, ""
		}
		v := S
		if err = buf.AddTagRef("D7", &v); err != nil {
			return err, ""
		}
		if err = buf.AddTags(map[string]gologix.CIPType{"Arr[3]": gologix.CIPTypeDINT, "Text": gologix.CIPTypeSTRING}); err != nil {
			return err, ""
		}
		m, err := buf.ReadAll()
		if b := dest(err, "D7", v, S, w.i32("D7", 0)); b != "" {
			return err, b
		}
		if err != nil {
			return err, ""
		}
		b := first(anyValue(nil, "D6", m["D6"], w.i32("D6", 0)), anyValue(nil, "D7", m["D7"], w.i32("D7", 0)), anyValue(nil, "Arr[3]", m["Arr[3]"], w.i32("Arr", 3)), anyValue(nil, "Text", m["Text"], w.str("Text", 0)))
		if b != "" {
			return nil, b
		}
		if err = buf.RemoveTag("D6"); err != nil {
			return err, ""
		}
		raw, err := buf.ReadAllRaw()
		if err != nil {
			return err, ""
		}
		if len(raw) != 3 || !bytes.Equal(raw["D7"], w.p.Peek("D7")) || !bytes.Equal(raw["Text"], w.p.Peek("Text")) {
			return nil, fmt.Sprintf("after removing D6 the buffer read gives %x", raw)
		}
		return buf.Close(), ""
	})
	return l
}

func (w *opWorld) identity() []byte {
	w.p.Lock()
	defer w.p.Unlock()
	return append([]byte(nil), w.p.Identity...)
}

func memberNames(u gologix.UDTDescriptor, want *plc.UDT) string {
	if u.Name != want.Name || int(u.Info.SizeBytes) != want.Size || u.Info.Handle != want.Handle {
		return fmt.Sprintf("structure %q of %d bytes, handle %#x; the controller's is %q of %d bytes, handle %#x", u.Name, u.Info.SizeBytes, u.Info.Handle, want.Name, want.Size, want.Handle)
	}
	if len(u.Members) != len(want.Members) {
		return fmt.Sprintf("%d members instead of %d", len(u.Members), len(want.Members))
	}
	for i, m := range u.Members {
		if m.Name != want.Members[i].Name || m.Info.Offset != uint32(want.Members[i].Offset) {
			return fmt.Sprintf("member %d is %q at %d, the controller's is %q at %d", i, m.Name, m.Info.Offset, want.Members[i].Name, want.Members[i].Offset)
		}
	}
	return ""
}

// inventory compares what a client knows with the tags of this world.
func (w *opWorld) inventory(c *gologix.Client) string {
	n := 0
	for name, data := range w.p.Snapshot() {
		if strings.HasPrefix(name, "program:") && !strings.Contains(name, ".") {
			continue
		}
		n++
		k, ok := c.KnownTags[name]
		if !ok {
			return fmt.Sprintf("tag %s (%d bytes) is not known", name, len(data))
		}
		if !strings.EqualFold(k.Name, name) {
			return fmt.Sprintf("tag %s is known as %s", name, k.Name)
		}
	}
	for name := range c.KnownTags {
		if strings.HasPrefix(name, "program:") && !strings.Contains(name, ".") {
			continue
		}
		n--
	}
	if n != 0 {
		return fmt.Sprintf("%d tags too many are known", -n)
	}
	if len(c.KnownPrograms) != 2 || c.KnownPrograms["main"] == nil || c.KnownPrograms["side"] == nil {
		return fmt.Sprintf("known programs %v", c.KnownPrograms)
	}
	return ""
}
