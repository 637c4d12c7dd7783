// Package plc is an independent model of an EtherNet/IP Logix controller: it
// speaks the protocol on a loopback TCP port, holds typed tag memory, checks
// every frame it receives against the protocol's structure and records it.
// Nothing in it is derived from the code under test.
package plc

import (
	"encoding/binary"
	"fmt"
)

var LE = binary.LittleEndian

// EIP encapsulation commands.
const (
	CmdNOP            = 0x0000
	CmdListServices   = 0x0004
	CmdListIdentity   = 0x0063
	CmdListInterfaces = 0x0064
	CmdRegister       = 0x0065
	CmdUnregister     = 0x0066
	CmdRRData         = 0x006F
	CmdUnitData       = 0x0070
)

// Seg is one segment of an EPATH.
type Seg struct {
	Kind byte // 'S' symbol, 'E' element, 'C' class, 'I' instance, 'A' attribute, 'P' port
	Name string
	Val  uint32
	Addr []byte
	Wide int // bytes of the value
}

// ParsePath decodes an EPATH strictly: padded logical segments, even length, zero pads.
func ParsePath(b []byte) ([]Seg, error) {
	segs := []Seg{}
	if len(b)%2 != 0 {
		return nil, fmt.Errorf("odd path length %d", len(b))
	}
	i := 0
	need := func(n int) error {
		if i+n > len(b) {
			return fmt.Errorf("path truncated at %d (needs %d more of %d)", i, n, len(b))
		}
		return nil
	}
	for i < len(b) {
		t := b[i]
		switch {
		case t == 0x91:
			if err := need(2); err != nil {
				return nil, err
			}
			n := int(b[i+1])
			if n == 0 {
				return nil, fmt.Errorf("empty symbol segment")
			}
			i += 2
			if err := need(n + n%2); err != nil {
				return nil, err
			}
			segs = append(segs, Seg{Kind: 'S', Name: string(b[i : i+n])})
			if n%2 == 1 && b[i+n] != 0 {
				return nil, fmt.Errorf("symbol pad byte not zero")
			}
			i += n + n%2
		case t&0xE0 == 0x20: // logical
			kind := map[byte]byte{0: 'C', 1: 'I', 2: 'E', 4: 'A'}[(t>>2)&7]
			if kind == 0 {
				return nil, fmt.Errorf("unsupported logical segment %#x", t)
			}
			switch t & 3 {
			case 0:
				if err := need(2); err != nil {
					return nil, err
				}
				segs = append(segs, Seg{Kind: kind, Val: uint32(b[i+1]), Wide: 1})
				i += 2
			case 1:
				if err := need(4); err != nil {
					return nil, err
				}
				if b[i+1] != 0 {
					return nil, fmt.Errorf("logical pad byte not zero in segment %#x", t)
				}
				segs = append(segs, Seg{Kind: kind, Val: uint32(LE.Uint16(b[i+2:])), Wide: 2})
				i += 4
			case 2:
				if err := need(6); err != nil {
					return nil, err
				}
				if b[i+1] != 0 {
					return nil, fmt.Errorf("logical pad byte not zero in segment %#x", t)
				}
				if kind == 'C' {
					return nil, fmt.Errorf("32-bit class segment")
				}
				segs = append(segs, Seg{Kind: kind, Val: LE.Uint32(b[i+2:]), Wide: 4})
				i += 6
			default:
				return nil, fmt.Errorf("reserved logical format %#x", t)
			}
		case t&0xE0 == 0x00: // port segment
			s := Seg{Kind: 'P'}
			ext := t&0x10 != 0
			port := uint32(t & 0x0F)
			start := i
			i++
			n := 1
			if ext {
				if err := need(1); err != nil {
					return nil, err
				}
				n = int(b[i])
				i++
			}
			if port == 15 {
				if err := need(2); err != nil {
					return nil, err
				}
				port = uint32(LE.Uint16(b[i:]))
				i += 2
			}
			if port == 0 {
				return nil, fmt.Errorf("port segment with port 0 at %d", start)
			}
			if err := need(n); err != nil {
				return nil, err
			}
			s.Val = port
			s.Addr = append([]byte(nil), b[i:i+n]...)
			i += n
			if (i-start)%2 == 1 {
				if err := need(1); err != nil {
					return nil, err
				}
				if b[i] != 0 {
					return nil, fmt.Errorf("port segment pad not zero")
				}
				i++
			}
			segs = append(segs, s)
		default:
			return nil, fmt.Errorf("unknown segment type %#x at %d", t, i)
		}
	}
	return segs, nil
}

// PathString renders a path for reports and comparisons.
func PathString(segs []Seg) string {
	s := ""
	for _, g := range segs {
		switch g.Kind {
		case 'S':
			if s != "" {
				s += "."
			}
			s += g.Name
		case 'E':
			s += fmt.Sprintf("[%d]", g.Val)
		case 'P':
			s += fmt.Sprintf("/port%d:%x", g.Val, g.Addr)
		default:
			s += fmt.Sprintf("/%c%d", g.Kind, g.Val)
		}
	}
	return s
}

// Item is one common packet format item.
type Item struct {
	ID   uint16
	Data []byte
}

// Frame builds an encapsulation frame.
func Frame(cmd uint16, session, status uint32, ctx uint64, data []byte) []byte {
	b := make([]byte, 24+len(data))
	LE.PutUint16(b[0:], cmd)
	LE.PutUint16(b[2:], uint16(len(data)))
	LE.PutUint32(b[4:], session)
	LE.PutUint32(b[8:], status)
	LE.PutUint64(b[12:], ctx)
	copy(b[24:], data)
	return b
}

// CPF builds the handle/timeout/items payload.
func CPF(items ...Item) []byte {
	b := make([]byte, 8)
	LE.PutUint16(b[6:], uint16(len(items)))
	for _, it := range items {
		b = LE.AppendUint16(b, it.ID)
		b = LE.AppendUint16(b, uint16(len(it.Data)))
		b = append(b, it.Data...)
	}
	return b
}

// ParseCPF decodes a payload strictly: all bytes must belong to items.
func ParseCPF(b []byte) ([]Item, error) {
	if len(b) < 8 {
		return nil, fmt.Errorf("payload of %d bytes too short for CPF", len(b))
	}
	if LE.Uint32(b) != 0 {
		return nil, fmt.Errorf("interface handle %#x not 0", LE.Uint32(b))
	}
	n := int(LE.Uint16(b[6:]))
	i := 8
	items := []Item{}
	for k := 0; k < n; k++ {
		if i+4 > len(b) {
			return nil, fmt.Errorf("item %d header beyond payload", k)
		}
		l := int(LE.Uint16(b[i+2:]))
		if i+4+l > len(b) {
			return nil, fmt.Errorf("item %d (len %d) beyond payload of %d", k, l, len(b))
		}
		items = append(items, Item{LE.Uint16(b[i:]), b[i+4 : i+4+l]})
		i += 4 + l
	}
	if i != len(b) {
		return nil, fmt.Errorf("%d bytes after the last item", len(b)-i)
	}
	return items, nil
}
