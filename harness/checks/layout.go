package checks

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"

	"github.com/danomagnum/gologix/lgxtypes"
	"verifharness/plc"
)

// An independent model of the Logix structure layout, over Go struct types.
//
// Rules: atomics are aligned to their size; consecutive BOOLs share hidden bytes
// (bit 0 first, eight per byte); a BOOL array is packed into bits; numeric
// arrays are aligned like their element; a nested structure starts at the
// alignment of its widest member; a structure is padded to its alignment, at
// least 4 bytes, when it is an array element or a tag of its own.

var goAtomCode = map[reflect.Type]byte{tBool: plc.BOOL, tI8: plc.SINT, tU8: plc.SINT, tI16: plc.INT, tU16: plc.UINT, tI32: plc.DINT, tU32: plc.UDINT,
	tI64: plc.LINT, tU64: plc.ULINT, tF32: plc.REAL, tF64: plc.LREAL}

var goLogixName = map[reflect.Type]string{tI8: "SINT", tU8: "SINT", tI16: "INT", tU16: "UINT", tI32: "DINT", tU32: "UDINT", tI64: "LINT", tU64: "ULINT", tF32: "REAL", tF64: "LREAL"}

var (
	tTimer   = reflect.TypeOf(lgxtypes.TIMER{})
	tCounter = reflect.TypeOf(lgxtypes.COUNTER{})
	tControl = reflect.TypeOf(lgxtypes.CONTROL{})
	tLString = reflect.TypeOf(lgxtypes.STRING{})
)

func predefined(t reflect.Type) bool { return t == tTimer || t == tCounter || t == tControl }

func alignOf(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Struct:
		if predefined(t) {
			return 4
		}
		a := 1
		for i := 0; i < t.NumField(); i++ {
			if x := alignOf(t.Field(i).Type); x > a {
				a = x
			}
		}
		return a
	case reflect.Array:
		if t.Elem().Kind() == reflect.Bool {
			return 1
		}
		return alignOf(t.Elem())
	case reflect.Bool:
		return 1
	}
	return int(t.Size())
}

func roundUp(n, a int) int { return (n + a - 1) / a * a }

// structAlign is the padding unit of a structure tag or array element.
func structAlign(t reflect.Type) int {
	a := alignOf(t)
	if a < 4 {
		a = 4
	}
	return a
}

type bitCursor struct {
	buf  []byte
	bit  int // bits used in the last byte of a bool run (0: none open)
	open bool
}

func (c *bitCursor) putBit(v bool) {
	if !c.open || c.bit == 8 {
		c.buf = append(c.buf, 0)
		c.bit = 0
		c.open = true
	}
	if v {
		c.buf[len(c.buf)-1] |= 1 << c.bit
	}
	c.bit++
}

func (c *bitCursor) align(a int) {
	c.open = false
	for len(c.buf)%a != 0 {
		c.buf = append(c.buf, 0)
	}
}

func putAtom(b []byte, v reflect.Value) []byte {
	switch v.Kind() {
	case reflect.Int8:
		return append(b, byte(v.Int()))
	case reflect.Uint8:
		return append(b, byte(v.Uint()))
	case reflect.Int16:
		return plc.LE.AppendUint16(b, uint16(v.Int()))
	case reflect.Uint16:
		return plc.LE.AppendUint16(b, uint16(v.Uint()))
	case reflect.Int32:
		return plc.LE.AppendUint32(b, uint32(v.Int()))
	case reflect.Uint32:
		return plc.LE.AppendUint32(b, uint32(v.Uint()))
	case reflect.Int64:
		return plc.LE.AppendUint64(b, uint64(v.Int()))
	case reflect.Uint64:
		return plc.LE.AppendUint64(b, v.Uint())
	case reflect.Float32:
		return plc.LE.AppendUint32(b, math.Float32bits(float32(v.Float())))
	case reflect.Float64:
		return plc.LE.AppendUint64(b, math.Float64bits(v.Float()))
	case reflect.Bool:
		if v.Bool() {
			return append(b, 1)
		}
		return append(b, 0)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			b = putAtom(b, v.Index(i))
		}
		return b
	}
	panic("putAtom " + v.Kind().String())
}

// encodeStruct gives the controller's bytes (without trailing padding).
func encodeStruct(v reflect.Value) []byte {
	t := v.Type()
	switch t {
	case tTimer, tCounter, tControl:
		return encodePredef(v)
	}
	c := &bitCursor{}
	for i := 0; i < t.NumField(); i++ {
		f := v.Field(i)
		ft := f.Type()
		if t.Field(i).Tag.Get("pack") == "nopack" {
			c.open = false
			c.align(alignOf(ft))
			if f.Kind() == reflect.Array {
				for j := 0; j < f.Len(); j++ {
					c.buf = putAtom(c.buf, f.Index(j))
				}
			} else {
				c.buf = putAtom(c.buf, f)
			}
			continue
		}
		switch f.Kind() {
		case reflect.Bool:
			c.putBit(f.Bool())
		case reflect.Array:
			if ft.Elem().Kind() == reflect.Bool {
				for j := 0; j < f.Len(); j++ {
					c.putBit(f.Index(j).Bool())
				}
				continue
			}
			c.align(alignOf(ft))
			for j := 0; j < f.Len(); j++ {
				if ft.Elem().Kind() == reflect.Struct {
					e := encodeStruct(f.Index(j))
					for len(e)%alignOf(ft.Elem()) != 0 {
						e = append(e, 0)
					}
					c.buf = append(c.buf, e...)
				} else {
					c.buf = putAtom(c.buf, f.Index(j))
				}
			}
		case reflect.Struct:
			c.align(alignOf(ft))
			c.buf = append(c.buf, encodeStruct(f)...)
		default:
			c.align(alignOf(ft))
			c.buf = putAtom(c.buf, f)
		}
	}
	return c.buf
}

// encodeTag is encodeStruct padded to the size of a tag.
func encodeTag(v reflect.Value) []byte {
	b := encodeStruct(v)
	for len(b)%structAlign(v.Type()) != 0 {
		b = append(b, 0)
	}
	return b
}

func flag(v bool, bit int) uint32 {
	if v {
		return 1 << bit
	}
	return 0
}

// encodePredef is the 12-byte layout of TIMER, COUNTER and CONTROL, bit by bit:
// TIMER:   EN 31, TT 30, DN 29, FS 28, LS 27, OV 26, ER 25
// COUNTER: CU 31, CD 30, DN 29, OV 28, UN 27
// CONTROL: EN 31, EU 30, DN 29, EM 28, ER 27, UL 26, IN 25, FD 24
func encodePredef(v reflect.Value) []byte {
	bits := map[reflect.Type]map[string]int{
		tTimer:   {"EN": 31, "TT": 30, "DN": 29},
		tCounter: {"CU": 31, "CD": 30, "DN": 29, "OV": 28, "UN": 27},
		tControl: {"EN": 31, "EU": 30, "DN": 29, "EM": 28, "ER": 27, "UL": 26, "IN": 25, "FD": 24},
	}[v.Type()]
	w := uint32(0)
	var n1, n2 int32
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		n := v.Type().Field(i).Name
		if b, ok := bits[n]; ok {
			w |= flag(f.Bool(), b)
			continue
		}
		switch n {
		case "PRE", "LEN":
			n1 = int32(f.Int())
		case "ACC", "POS":
			n2 = int32(f.Int())
		}
	}
	b := plc.LE.AppendUint32(nil, w)
	b = plc.LE.AppendUint32(b, uint32(n1))
	return plc.LE.AppendUint32(b, uint32(n2))
}

// typeAbbr is the abbreviated definition (an independent implementation).
func typeAbbr(t reflect.Type) string {
	switch t {
	case tTimer:
		return "TIMER,DINT,DINT,DINT"
	case tCounter:
		return "COUNTER,DINT,DINT,DINT"
	case tControl:
		return "CONTROL,DINT,DINT,DINT"
	case tLString:
		return "STRING,DINT,SINT[82]"
	}
	s := t.Name()
	nb := 0
	for i := 0; i < t.NumField(); i++ {
		ft := t.Field(i).Type
		if ft.Kind() == reflect.Bool {
			if nb%8 == 0 {
				s += ",SINT"
			}
			nb++
			continue
		}
		if ft.Kind() == reflect.Array {
			if ft.Elem().Kind() == reflect.Struct {
				s += fmt.Sprintf(",%s[%d]", typeAbbr(ft.Elem()), ft.Len())
			} else {
				s += fmt.Sprintf(",%s[%d]", goLogixName[ft.Elem()], ft.Len())
			}
			nb = 0
			continue
		}
		nb = 0
		if ft.Kind() == reflect.Struct {
			s += "," + typeAbbr(ft)
		} else {
			s += "," + goLogixName[ft]
		}
	}
	return s
}

// crcLogix is CRC-16 (poly 0x8005 reflected, init 0, no final xor).
func crcLogix(s string) uint16 {
	crc := uint16(0)
	for i := 0; i < len(s); i++ {
		crc ^= uint16(s[i])
		for k := 0; k < 8; k++ {
			if crc&1 == 1 {
				crc = crc>>1 ^ 0xA001
			} else {
				crc >>= 1
			}
		}
	}
	return crc
}

// randStruct builds a random struct type. When exact is set the type stays in the
// zone where every structure starts and ends on its own alignment (at least 4).
func randStruct(r *rand.Rand, depth int) reflect.Type {
	fs := []reflect.StructField{}
	add := func(t reflect.Type, tag reflect.StructTag) {
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", len(fs)), Type: t, Tag: tag})
	}
	size := func() int {
		if len(fs) == 0 {
			return 0
		}
		return len(encodeStruct(reflect.New(reflect.StructOf(fs)).Elem()))
	}
	fill := func(a int) {
		if k := size() % a; k != 0 {
			if a-k == 1 {
				add(tI8, "")
			} else {
				add(reflect.ArrayOf(a-k, tI8), "")
			}
		}
	}
	nums := []reflect.Type{tI8, tU8, tI16, tU16, tI32, tU32, tI64, tU64, tF32, tF64}
	n := 1 + r.IntN(8)
	for i := 0; i < n; i++ {
		switch r.IntN(9) {
		case 0, 1:
			for k := 1 + r.IntN(11); k > 0; k-- {
				add(tBool, "")
			}
		case 2:
			add(reflect.ArrayOf(1+r.IntN(9), nums[r.IntN(len(nums))]), "")
		case 3:
			// a BOOL array starts on its own word: close a bool run first
			fill(4)
			if len(fs) > 0 && fs[len(fs)-1].Type == tBool {
				add(tI32, "")
			}
			add(reflect.ArrayOf(32*(1+r.IntN(3)), tBool), "")
			add(tI32, "") // and is not followed by a bool run
		case 4:
			if depth > 0 {
				st := randStruct(r, depth-1)
				fill(structAlign(st))
				add(st, "")
			}
		case 5:
			if depth > 0 {
				st := randStruct(r, depth-1)
				fill(structAlign(st))
				add(reflect.ArrayOf(1+r.IntN(4), st), "")
			}
		case 6:
			pre := []reflect.Type{tTimer, tCounter, tControl}[r.IntN(3)]
			fill(4)
			add(pre, "")
		default:
			add(nums[r.IntN(len(nums))], "")
		}
	}
	if depth < 2 {
		// nested: end on the alignment unit
		if alignOf(reflect.StructOf(fs)) < 4 {
			fill(4)
			add(tI32, "")
		}
		fill(structAlign(reflect.StructOf(fs)))
	}
	return reflect.StructOf(fs)
}

// randFill sets a struct value at random.
func randFill(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				randFill(r, v.Field(i))
			}
		}
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			randFill(r, v.Index(i))
		}
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.String:
		v.SetString(randString(r, 82))
	default:
		code := goAtomCode[v.Type()]
		if v.Type() == tU8 {
			code = plc.BYTE
		}
		v.Set(reflect.ValueOf(plc.Value(code, randElem(r, code))).Convert(v.Type()))
	}
}

// udtOf derives the controller's template of a Go struct type from the layout model.
func udtOf(t reflect.Type, name string, ids *uint16) *plc.UDT {
	*ids++
	u := &plc.UDT{Name: name, ID: *ids, Handle: crcLogix(typeAbbr(t)), Size: len(encodeTag(reflect.New(t).Elem()))}
	if predefined(t) {
		u.Size = 12
		u.Handle = map[reflect.Type]uint16{tTimer: 0x0F83, tCounter: 0x0F82, tControl: 0x0F81}[t]
		n1, n2 := "PRE", "ACC"
		if t == tControl {
			n1, n2 = "LEN", "POS"
		}
		u.Members = []plc.Member{{Name: n1, Type: plc.DINT, Offset: 4}, {Name: n2, Type: plc.DINT, Offset: 8}}
		return u
	}
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		v := reflect.New(t).Elem()
		ones(v.Field(i))
		e := encodeTag(v)
		first := -1
		for k, b := range e {
			if b != 0 {
				first = k
				break
			}
		}
		m := plc.Member{Name: f.Name, Offset: first}
		ft := f.Type
		if ft.Kind() == reflect.Array {
			m.Len = ft.Len()
			ft = ft.Elem()
		}
		switch {
		case ft.Kind() == reflect.Struct:
			m.Type = plc.STRUCT
			m.UDT = udtOf(ft, fmt.Sprintf("%s_%d", name, i), ids)
			m.Offset = first / alignOf(ft) * alignOf(ft)
		case ft.Kind() == reflect.Bool && m.Len > 0:
			m.Type = plc.DWORD
			m.Len /= 32
		case ft.Kind() == reflect.Bool:
			m.Type = plc.BOOL
			for e[first]>>m.Bit&1 == 0 {
				m.Bit++
			}
		default:
			m.Type = goAtomCode[ft]
			if ft == tU8 {
				m.Type = plc.USINT
			}
		}
		u.Members = append(u.Members, m)
	}
	return u
}

// ones sets every bit of a value.
func ones(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			ones(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			ones(v.Index(i))
		}
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float32, reflect.Float64:
		if v.Kind() == reflect.Float32 {
			v.SetFloat(float64(math.Float32frombits(0xFFFFFFFF)))
		} else {
			v.SetFloat(math.Float64frombits(^uint64(0)))
		}
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(-1)
	default:
		v.SetUint(1<<(8*v.Type().Size()) - 1)
	}
}
