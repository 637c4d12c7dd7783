package plc

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// CIP type codes.
const (
	BOOL   = 0xC1
	SINT   = 0xC2
	INT    = 0xC3
	DINT   = 0xC4
	LINT   = 0xC5
	USINT  = 0xC6
	UINT   = 0xC7
	UDINT  = 0xC8
	ULINT  = 0xC9
	REAL   = 0xCA
	LREAL  = 0xCB
	BYTE   = 0xD1
	WORD   = 0xD2
	DWORD  = 0xD3
	LWORD  = 0xD4
	STRUCT = 0xA0
)

// StringHandle is the structure handle of the predefined STRING.
const StringHandle = 0x0FCE

// Size of an atomic type.
func Size(t byte) int {
	switch t {
	case BOOL, SINT, USINT, BYTE:
		return 1
	case INT, UINT, WORD:
		return 2
	case DINT, UDINT, DWORD, REAL:
		return 4
	case LINT, ULINT, LWORD, LREAL:
		return 8
	}
	panic(fmt.Sprintf("size of %#x", t))
}

// TypeName is for reports.
func TypeName(t byte) string {
	n := map[byte]string{BOOL: "BOOL", SINT: "SINT", INT: "INT", DINT: "DINT", LINT: "LINT", USINT: "USINT", UINT: "UINT",
		UDINT: "UDINT", ULINT: "ULINT", REAL: "REAL", LREAL: "LREAL", BYTE: "BYTE", WORD: "WORD", DWORD: "DWORD", LWORD: "LWORD", STRUCT: "STRUCT"}
	if s, ok := n[t]; ok {
		return s
	}
	return fmt.Sprintf("%#x", t)
}

// Member of a structure.
type Member struct {
	Name   string
	Type   byte // atomic code or STRUCT
	UDT    *UDT
	Len    int // >0: array
	Offset int
	Bit    int // bit number for packed BOOL members
	Hidden bool
}

// UDT is a structure template.
type UDT struct {
	Name    string
	ID      uint16
	Handle  uint16
	Size    int
	Members []Member
	// RawName, when set, is the name string sent in the template (for odd encodings).
	RawName string
}

// StringUDT is the predefined STRING.
var StringUDT = &UDT{Name: "STRING", ID: 0xFCE, Handle: StringHandle, Size: 88, Members: []Member{
	{Name: "LEN", Type: DINT}, {Name: "DATA", Type: SINT, Len: 82, Offset: 4}}}

// Tag is one symbol.
type Tag struct {
	Name     string // as the controller spells it; program tags: "Program:Main.Tag"
	Instance uint32
	Type     byte
	UDT      *UDT
	Dims     []int
	Data     []byte
	ReadOnly bool
	System   bool   // system tag: hidden bits in the symbol type
	RawType  uint16 // overrides the type word in symbol listings when non-zero
}

// ElemSize in bytes.
func (t *Tag) ElemSize() int {
	if t.Type == STRUCT {
		return t.UDT.Size
	}
	return Size(t.Type)
}

// Elems is the total number of elements.
func (t *Tag) Elems() int {
	n := 1
	for _, d := range t.Dims {
		n *= d
	}
	return n
}

// PutString encodes a STRING structure.
func PutString(b []byte, s string) {
	for i := range b[:88] {
		b[i] = 0
	}
	LE.PutUint32(b, uint32(len(s)))
	copy(b[4:86], s)
}

// GetString decodes a STRING structure.
func GetString(b []byte) string {
	n := int(LE.Uint32(b))
	if n > 82 {
		n = 82
	}
	return string(b[4 : 4+n])
}

// ref is a resolved location.
type ref struct {
	tag   *Tag
	typ   byte
	udt   *UDT
	off   int
	esz   int
	avail int // elements from off to the end of the innermost array
	bit   int // >=0: packed bool member
}

// resolve maps a path to memory.
func (p *PLC) resolve(segs []Seg) (ref, byte) {
	i := 0
	var tag *Tag
	name := ""
	if len(segs) == 0 {
		return ref{}, 0x04
	}
	switch segs[0].Kind {
	case 'S':
		name = strings.ToLower(segs[0].Name)
		i = 1
		if strings.HasPrefix(name, "program:") && len(segs) > 1 {
			switch segs[1].Kind {
			case 'S':
				name += "." + strings.ToLower(segs[1].Name)
				i = 2
			case 'C':
				if len(segs) > 2 && segs[1].Val == 0x6B && segs[2].Kind == 'I' {
					for _, t := range p.tags {
						if strings.HasPrefix(strings.ToLower(t.Name), name+".") && t.Instance == segs[2].Val {
							tag = t
						}
					}
					i = 3
					if tag == nil {
						return ref{}, 0x05
					}
				}
			}
		}
		if tag == nil {
			tag = p.tags[name]
		}
	case 'C':
		if fw := p.Attrs["1/1/4"]; len(fw) > 0 && fw[0] < 21 {
			return ref{}, 0x05 // symbols have no numbers before firmware 21
		}
		prog := ""
		if segs[0].Val == ClassProgram && len(segs) >= 4 && segs[1].Kind == 'I' {
			pr := p.programByID(segs[1].Val)
			if pr == nil {
				return ref{}, 0x05
			}
			prog = "program:" + strings.ToLower(pr.Name) + "."
			i = 2
		}
		if len(segs) >= i+2 && segs[i].Kind == 'C' && segs[i].Val == 0x6B && segs[i+1].Kind == 'I' {
			for k, t := range p.tags {
				inProg := strings.HasPrefix(k, "program:")
				if t.Instance == segs[i+1].Val && ((prog == "" && !inProg) || (prog != "" && strings.HasPrefix(k, prog))) {
					tag = t
				}
			}
			i += 2
		}
	}
	if tag == nil {
		return ref{}, 0x05 // path destination unknown
	}
	r := ref{tag: tag, typ: tag.Type, udt: tag.UDT, esz: tag.ElemSize(), bit: -1}
	dims := tag.Dims
	r.avail = tag.Elems()
	for {
		// indices
		idx := []int{}
		for i < len(segs) && segs[i].Kind == 'E' {
			idx = append(idx, int(segs[i].Val))
			i++
		}
		if len(idx) > 0 {
			if len(idx) != len(dims) {
				return ref{}, 0x05
			}
			lin := 0
			for k, x := range idx {
				if x >= dims[k] {
					return ref{}, 0xFF
				}
				lin = lin*dims[k] + x
			}
			r.off += lin * r.esz
			r.avail -= lin
		}
		if i == len(segs) {
			return r, 0
		}
		if segs[i].Kind != 'S' || r.typ != STRUCT {
			return ref{}, 0x05
		}
		var m *Member
		for k := range r.udt.Members {
			if strings.EqualFold(r.udt.Members[k].Name, segs[i].Name) {
				m = &r.udt.Members[k]
			}
		}
		if m == nil {
			return ref{}, 0x05
		}
		i++
		r.off += m.Offset
		r.typ = m.Type
		r.udt = m.UDT
		r.bit = -1
		if m.Type == BOOL {
			r.bit = m.Bit
		}
		if m.Type == STRUCT {
			r.esz = m.UDT.Size
		} else {
			r.esz = Size(m.Type)
		}
		dims = nil
		r.avail = 1
		if m.Len > 0 {
			dims = []int{m.Len}
			r.avail = m.Len
		}
	}
}

// Add registers a tag.
func (p *PLC) Add(t *Tag) *Tag {
	p.mu.Lock()
	defer p.mu.Unlock()
	if t.Data == nil {
		t.Data = make([]byte, t.Elems()*t.ElemSize())
	}
	if t.Instance == 0 {
		p.nextInst++
		t.Instance = p.nextInst
	}
	p.tags[strings.ToLower(t.Name)] = t
	return t
}

// Remove deletes a tag.
func (p *PLC) Remove(name string) {
	p.mu.Lock()
	delete(p.tags, strings.ToLower(name))
	p.mu.Unlock()
}

// Peek copies a tag's bytes.
func (p *PLC) Peek(name string) []byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	t := p.tags[strings.ToLower(name)]
	if t == nil {
		return nil
	}
	return append([]byte(nil), t.Data...)
}

// Poke changes a tag's bytes.
func (p *PLC) Poke(name string, off int, b []byte) {
	p.mu.Lock()
	defer p.mu.Unlock()
	copy(p.tags[strings.ToLower(name)].Data[off:], b)
}

// Snapshot of all memory.
func (p *PLC) Snapshot() map[string]string {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := map[string]string{}
	for k, t := range p.tags {
		m[k] = string(t.Data)
	}
	return m
}

// TagList returns the tags by instance.
func (p *PLC) TagList() []*Tag { p.mu.Lock(); defer p.mu.Unlock(); return p.tagsSorted() }

// tagsSorted lists tags by instance.
func (p *PLC) tagsSorted() []*Tag {
	ts := []*Tag{}
	for _, t := range p.tags {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].Instance < ts[j].Instance })
	return ts
}

// Value decodes one atomic element to its natural Go value.
func Value(t byte, b []byte) any {
	switch t {
	case BOOL:
		return b[0] != 0
	case SINT:
		return int8(b[0])
	case USINT, BYTE:
		return b[0]
	case INT:
		return int16(LE.Uint16(b))
	case UINT, WORD:
		return LE.Uint16(b)
	case DINT:
		return int32(LE.Uint32(b))
	case UDINT, DWORD:
		return LE.Uint32(b)
	case LINT:
		return int64(LE.Uint64(b))
	case ULINT, LWORD:
		return LE.Uint64(b)
	case REAL:
		return math.Float32frombits(LE.Uint32(b))
	case LREAL:
		return math.Float64frombits(LE.Uint64(b))
	}
	panic("value")
}

// Locate tells which tag and which byte offset a path addresses.
func (p *PLC) Locate(segs []Seg) (name string, off int, ok bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	r, st := p.resolve(segs)
	if st != 0 {
		return "", 0, false
	}
	return r.tag.Name, r.off, true
}

// LocateBit is Locate with the bit of a packed BOOL member (-1: none).
func (p *PLC) LocateBit(segs []Seg) (name string, off, bit int, ok bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	r, st := p.resolve(segs)
	if st != 0 {
		return "", 0, -1, false
	}
	return r.tag.Name, r.off, r.bit, true
}
