package checks

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"strings"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C18",
		Rule: "each evaluation is one attribute, identity, service or generic call whose received request is decoded and compared with what was asked for, and whose result is compared byte for byte with what the model answered, or one step of a typed item accessor compared with a reference cursor over the same bytes; " +
			"non-trivial = distinct (call, widths of the path numbers, size class of the answer) and (accessor, bytes left)",
		Assumptions: []string{"a service name is padded with NUL bytes to 16", "a device answers an attribute list in the order asked"},
		Cases:       c18Cases,
		MinEvents:   []string{"attr_single", "attr_list", "prop_list", "template_attr", "identities", "service_lists", "generic", "accessors", "accessor_out_of_data", "deserialized"},
	})
}

func c18Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 800, 20000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("attributes-%d", i), Run: c18Attr})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("identity-%d", i), Run: c18Identity})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("items-%d", i), Run: c18Items})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("templates-%d", i), Run: c18Templates})
	}
	return cs
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	style := r.IntN(5)
	for i := range b {
		switch style {
		case 0:
			b[i] = 0
		case 1:
			b[i] = 0xFF
		default:
			b[i] = byte(r.Uint32())
		}
	}
	return b
}

// someNumber prefers the edges of the widths.
func someNumber(r *rand.Rand, max uint32) uint32 {
	for {
		v := []uint32{0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF, 0x100, 0x101, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10001, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, r.Uint32(), r.Uint32() & 0xFFFF, r.Uint32() & 0xFF}[r.IntN(21)]
		if v <= max {
			return v
		}
	}
}

func width(v uint32) int {
	switch {
	case v < 256:
		return 1
	case v < 65536:
		return 2
	}
	return 4
}

func sameSegs(got []plc.Seg, want ...plc.Seg) bool {
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i].Kind != want[i].Kind || got[i].Val != want[i].Val {
			return false
		}
	}
	return true
}

func c18Attr(t *rt.T) {
	r := t.R
	p := newPLC(t)
	c := dial(t, p, []uint16{0, 500, 4000}[r.IntN(3)])
	if c == nil {
		return
	}
	room := 450
	for i := 0; i < 200 && !t.Failed(); i++ {
		class, inst, attr := someNumber(r, 0xFFFF), someNumber(r, math.MaxUint32), someNumber(r, 0xFFFF)
		back := randBytes(r, []int{0, 1, 2, 3, 4, 8, r.IntN(40), r.IntN(room)}[r.IntN(8)])
		var got *plc.Req
		n := 0
		reply := plc.Reply{Data: back}
		p.Lock()
		p.OnReq = func(q *plc.Req) *plc.Action {
			got = q
			n++
			return &plc.Action{Reply: &reply}
		}
		p.Unlock()
		what := ""
		switch k := r.IntN(4); k {
		case 0:
			what = fmt.Sprintf("GetAttrSingle(%#x,%#x,%#x)", class, inst, attr)
			it, err := c.GetAttrSingle(gologix.CIPClass(class), gologix.CIPInstance(inst), gologix.CIPAttribute(attr))
			t.Count("attr_single", 1)
			if err != nil {
				t.Fail("attr", "%s answered with %d bytes: %v", what, len(back), err)
				return
			}
			if n != 1 || got.Service != 0x0E || len(got.Data) != 0 || !sameSegs(got.Path, plc.Seg{Kind: 'C', Val: class}, plc.Seg{Kind: 'I', Val: inst}, plc.Seg{Kind: 'A', Val: attr}) {
				t.Fail("attr-request", "%s sent %d requests, the last service %#x path %s data %x", what, n, got.Service, plc.PathString(got.Path), got.Data)
			}
			if !bytes.Equal(it.Rest(), back) {
				t.Fail("attr-value", "%s: the device answered %x, the item holds %x", what, back, it.Rest())
			}
		case 1:
			attrs := make([]gologix.CIPAttribute, []int{0, 1, 2, 5, r.IntN(100), r.IntN(200)}[r.IntN(6)])
			ids := []byte{byte(len(attrs)), byte(len(attrs) >> 8)}
			for j := range attrs {
				a := someNumber(r, 0xFFFF)
				attrs[j] = gologix.CIPAttribute(a)
				ids = binary.LittleEndian.AppendUint16(ids, uint16(a))
			}
			what = fmt.Sprintf("GetAttrList(%#x,%#x, %d attributes)", class, inst, len(attrs))
			reply.Data = append([]byte{byte(len(attrs)), byte(len(attrs) >> 8)}, back...)
			it, err := c.GetAttrList(gologix.CIPClass(class), gologix.CIPInstance(inst), attrs...)
			t.Count("attr_list", 1)
			if err != nil {
				t.Fail("list", "%s answered with %d bytes: %v", what, len(back), err)
				return
			}
			if n != 1 || got.Service != 3 || !bytes.Equal(got.Data, ids) || !sameSegs(got.Path, plc.Seg{Kind: 'C', Val: class}, plc.Seg{Kind: 'I', Val: inst}) {
				t.Fail("list-request", "%s sent %d requests, the last service %#x path %s data %x", what, n, got.Service, plc.PathString(got.Path), got.Data)
			}
			if !bytes.Equal(it.Rest(), back) {
				t.Fail("list-value", "%s: the device answered %x, the item holds %x", what, back, it.Rest())
			}
		case 2:
			what = "GetControllerPropList"
			le := binary.LittleEndian
			d := []byte{5, 0}
			vals := []uint32{r.Uint32() & 0xFFFF, r.Uint32() & 0xFFFF, r.Uint32(), r.Uint32(), r.Uint32()}
			for j, id := range []uint16{1, 2, 3, 4, 10} {
				d = le.AppendUint16(d, id)
				d = le.AppendUint16(d, 0)
				if j < 2 {
					d = le.AppendUint16(d, uint16(vals[j]))
				} else {
					d = le.AppendUint32(d, vals[j])
				}
			}
			reply.Data = d
			v, err := c.GetControllerPropList()
			t.Count("prop_list", 1)
			if err != nil {
				t.Fail("props", "%s: %v", what, err)
				return
			}
			if n != 1 || got.Service != 3 || !bytes.Equal(got.Data, []byte{5, 0, 1, 0, 2, 0, 3, 0, 4, 0, 10, 0}) || !sameSegs(got.Path, plc.Seg{Kind: 'C', Val: 0xAC}, plc.Seg{Kind: 'I', Val: 1}) {
				t.Fail("props-request", "%s sent %d requests, the last service %#x path %s data %x", what, n, got.Service, plc.PathString(got.Path), got.Data)
			}
			if uint32(v.Attr1) != vals[0] || uint32(v.Attr2) != vals[1] || v.Attr3 != vals[2] || v.Attr4 != vals[3] || v.Attr5 != vals[4] ||
				v.Attr1_ID != 1 || v.Attr2_ID != 2 || v.Attr3_ID != 3 || v.Attr4_ID != 4 || v.Attr5_ID != 10 {
				t.Fail("props-value", "%s: the device answered %x, the result is %+v", what, vals, v)
			}
			if !v.Match(v) {
				t.Fail("props-match", "a property list does not match itself")
			}
			w := v
			switch r.IntN(10) {
			case 5:
				w.Attr1_Status++
			case 6:
				w.Attr2_Status++
			case 7:
				w.Attr3_Status++
			case 8:
				w.Attr4_Status++
			case 9:
				w.Attr5_Status++
			case 0:
				w.Attr1++
			case 1:
				w.Attr2++
			case 2:
				w.Attr3 ^= 1 << r.IntN(32)
			case 3:
				w.Attr4 ^= 1 << r.IntN(32)
			case 4:
				w.Attr5 ^= 1 << r.IntN(32)
			}
			if v.Match(w) || w.Match(v) {
				t.Fail("props-match", "property lists %+v and %+v match", v, w)
			}
		case 3:
			// any service, path and data
			var path []byte
			var segs []plc.Seg
			for j, m := 0, 1+r.IntN(4); j < m; j++ {
				switch r.IntN(4) {
				case 0:
					path = append(path, gologix.CIPClass(class).Bytes()...)
					segs = append(segs, plc.Seg{Kind: 'C', Val: class})
				case 1:
					path = append(path, gologix.CIPInstance(inst).Bytes()...)
					segs = append(segs, plc.Seg{Kind: 'I', Val: inst})
				case 2:
					path = append(path, gologix.CIPAttribute(attr).Bytes()...)
					segs = append(segs, plc.Seg{Kind: 'A', Val: attr})
				case 3:
					path = append(path, gologix.CIPClass(0xB2).Bytes()...)
					segs = append(segs, plc.Seg{Kind: 'C', Val: 0xB2})
				}
			}
			tooLong := false
			if r.IntN(8) == 0 { // as long as a path can be, or longer
				words := []int{253, 254, 255, 256, 257, 300, 511, 512}[r.IntN(8)]
				tooLong = words > 255
				path, segs = nil, nil
				for len(path) < 2*words {
					if len(path)+4 <= 2*words {
						path = append(path, 0x25, 0, 0x34, 0x12)
						segs = append(segs, plc.Seg{Kind: 'I', Val: 0x1234})
					} else {
						path = append(path, 0x24, 7)
						segs = append(segs, plc.Seg{Kind: 'I', Val: 7})
					}
				}
			}
			svc := byte(1 + r.IntN(0x7F))
			data := randBytes(r, []int{0, 1, 2, 3, r.IntN(300)}[r.IntN(5)])
			what = fmt.Sprintf("GenericCIPMessage(%#x, %x, %d bytes)", svc, path, len(data))
			it, err := c.GenericCIPMessage(gologix.CIPService(svc), path, data)
			t.Count("generic", 1)
			if tooLong {
				if err == nil || n != 0 {
					t.Fail("generic-path", "a path of %d words is sent (%d requests, %v)", len(path)/2, n, err)
					return
				}
				continue
			}
			if err != nil {
				t.Fail("generic", "%s: %v", what, err)
				return
			}
			if n != 1 || got.Service != svc || !bytes.Equal(got.Data, data) || !bytes.Equal(got.PathRaw, path) || !sameSegs(got.Path, segs...) || !got.Connected {
				t.Fail("generic-request", "%s sent %d requests, the last service %#x path %s data %x", what, n, got.Service, plc.PathString(got.Path), got.Data)
			}
			if !bytes.Equal(it.Rest(), back) {
				t.Fail("generic-value", "%s: the device answered %x, the item holds %x", what, back, it.Rest())
			}
		}
		name, _, _ := strings.Cut(what, "(")
		t.Eval(fmt.Sprintf("%s %d%d%d %d", name, width(class), width(inst), width(attr), min(len(back), 9)))
		if e := p.WireErrors(); len(e) > 0 {
			t.Fail("wire", "%s: %s", what, e[0])
		}
	}
}

func c18Identity(t *rt.T) {
	r := t.R
	le := binary.LittleEndian
	p := newPLC(t)
	c := dial(t, p, 0)
	if c == nil {
		return
	}
	for i := 0; i < 100 && !t.Failed(); i++ {
		vendor, typ, code, rev, status, serial := uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32()), r.Uint32()
		name := randBytes(r, []int{0, 1, 32, 127, 128, 255, r.IntN(256)}[r.IntN(7)])
		state := byte(r.Uint32())
		fam, port, addr, z0, z1 := uint16(2), uint16(r.Uint32()), r.Uint32(), r.Uint32(), r.Uint32()
		ver := uint16(r.Uint32())
		b := le.AppendUint16(nil, ver)
		b = binary.BigEndian.AppendUint16(b, fam)
		b = binary.BigEndian.AppendUint16(b, port)
		b = binary.BigEndian.AppendUint32(b, addr)
		b = binary.BigEndian.AppendUint32(b, z0)
		b = binary.BigEndian.AppendUint32(b, z1)
		b = le.AppendUint16(b, vendor)
		b = le.AppendUint16(b, typ)
		b = le.AppendUint16(b, code)
		b = le.AppendUint16(b, rev)
		b = le.AppendUint16(b, status)
		b = le.AppendUint32(b, serial)
		b = append(b, byte(len(name)))
		b = append(b, name...)
		b = append(b, state)
		type svc struct {
			ver, caps uint16
			name      string
		}
		svcs := []svc{}
		for j, m := 0, []int{0, 1, 1, 2, 7, 250 + r.IntN(20)}[r.IntN(6)]; j < m; j++ {
			s := svc{uint16(r.Uint32()), uint16(r.Uint32()), ""}
			for k, l := 0, r.IntN(17); k < l; k++ {
				s.name += string(rune(1 + r.IntN(126)))
			}
			svcs = append(svcs, s)
		}
		second := r.IntN(3) == 0
		cutID, cutSvc := 0, 0 // bytes missing at the end of the first identity and the last service
		if r.IntN(3) == 0 {
			cutID = 1 + r.IntN(len(b))
		}
		if len(svcs) > 0 && r.IntN(3) == 0 {
			cutSvc = 1 + r.IntN(20)
		}
		p.Lock()
		p.OnCmd = func(q *plc.Req) *plc.Action {
			return &plc.Action{Transform: func(f []byte) []byte {
				out := append([]byte{}, f[:24]...)
				switch q.Cmd {
				case plc.CmdListIdentity:
					n := 1
					if second {
						n = 2
					}
					out = le.AppendUint16(out, uint16(n))
					for j := 0; j < n; j++ {
						d := append([]byte{}, b[:len(b)-cutID]...)
						if j == 1 {
							d = randBytes(r, 40)
						}
						out = le.AppendUint16(out, 0x0C)
						out = le.AppendUint16(out, uint16(len(d)))
						out = append(out, d...)
					}
				case plc.CmdListServices:
					out = le.AppendUint16(out, uint16(len(svcs)))
					for j, s := range svcs {
						d := le.AppendUint16(le.AppendUint16(nil, s.ver), s.caps)
						nm := make([]byte, 16)
						copy(nm, s.name)
						d = append(d, nm...)
						if j == len(svcs)-1 {
							d = d[:20-cutSvc]
						}
						out = le.AppendUint16(out, 0x100)
						out = le.AppendUint16(out, uint16(len(d)))
						out = append(out, d...)
					}
				}
				le.PutUint16(out[2:], uint16(len(out)-24))
				return out
			}}
		}
		p.Unlock()
		v, err := c.ListIdentity()
		t.Count("identities", 1)
		t.Eval(fmt.Sprintf("identity name=%d second=%v", len(name)/32, second))
		if cutID > 0 {
			t.Count("cut_replies", 1)
			if err == nil {
				t.Fail("identity-cut", "an identity that lacks its last %d of %d bytes is %+v", cutID, len(b), *v)
				return
			}
			goto services
		}
		if err != nil {
			t.Fail("identity", "ListIdentity of a device with a name of %d bytes: %v", len(name), err)
			return
		}
		if v.EncapProtocolVersion != ver || uint16(v.Vendor) != vendor || uint16(v.DeviceType) != typ || v.ProductCode != code || v.Revision != rev || v.Status != status ||
			v.SerialNumber != serial || v.ProductName != string(name) || v.State != state || v.SocketAddress.Family != fam || v.SocketAddress.Port != port ||
			v.SocketAddress.Address != addr || v.SocketAddress.Zero0 != z0 || v.SocketAddress.Zero1 != z1 {
			t.Fail("identity-value", "the device identified itself with %x, the result is %+v", b, *v)
		}
	services:
		l, err := c.ListServices()
		t.Count("service_lists", 1)
		if cutSvc > 0 {
			t.Count("cut_replies", 1)
			if err == nil {
				t.Fail("services-cut", "a list of services whose last one lacks %d bytes is %+v", cutSvc, l)
				return
			}
			continue
		}
		t.Eval(fmt.Sprintf("services %d", len(svcs)))
		if err != nil {
			t.Fail("services", "ListServices of a device with %d services: %v", len(svcs), err)
			return
		}
		if len(l) != len(svcs) {
			t.Fail("services-count", "the device has %d services, %d were listed", len(svcs), len(l))
			return
		}
		for j := range l {
			if l[j].EncapProtocolVersion != svcs[j].ver || uint16(l[j].Capabilities) != svcs[j].caps || l[j].Name != svcs[j].name {
				t.Fail("services-value", "service %d is %+v, listed as %+v", j, svcs[j], l[j])
			}
		}
		if e := p.WireErrors(); len(e) > 0 {
			t.Fail("wire", "%s", e[0])
		}
	}
}

func c18Templates(t *rt.T) {
	r := t.R
	p := newPLC(t)
	c := dial(t, p, 0)
	if c == nil {
		return
	}
	le := binary.LittleEndian
	for i := 0; i < 256; i++ {
		b := gologix.CIPService(i)
		if b.IsResponse() != (i > 127) || byte(b.AsResponse()) != byte(i)|0x80 || byte(b.UnResponse()) != byte(i)&0x7F {
			t.Fail("service", "service %#x: a response: %v, its response %#x, its request %#x", i, b.IsResponse(), byte(b.AsResponse()), byte(b.UnResponse()))
		}
	}
	for i := 0; i < 60 && !t.Failed(); i++ {
		inst := someNumber(r, math.MaxUint32)
		if inst == 0 {
			inst = 1
		}
		words, size, members, handle := r.Uint32(), r.Uint32(), uint16(r.Uint32()), uint16(r.Uint32())
		d := []byte{4, 0, 4, 0, 0, 0}
		d = le.AppendUint32(d, words)
		d = append(d, 5, 0, 0, 0)
		d = le.AppendUint32(d, size)
		d = append(d, 2, 0, 0, 0)
		d = le.AppendUint16(d, members)
		d = append(d, 1, 0, 0, 0)
		d = le.AppendUint16(d, handle)
		var got *plc.Req
		p.Lock()
		p.OnReq = func(q *plc.Req) *plc.Action { got = q; return &plc.Action{Reply: &plc.Reply{Data: d}} }
		p.Unlock()
		v, err := c.GetTemplateInstanceAttr(inst)
		t.Count("template_attr", 1)
		t.Eval(fmt.Sprintf("template %d", width(inst)))
		if err != nil {
			t.Fail("template", "GetTemplateInstanceAttr(%#x): %v", inst, err)
			return
		}
		if got.Service != 3 || !bytes.Equal(got.Data, []byte{4, 0, 4, 0, 5, 0, 2, 0, 1, 0}) || !sameSegs(got.Path, plc.Seg{Kind: 'C', Val: 0x6C}, plc.Seg{Kind: 'I', Val: inst}) {
			t.Fail("template-request", "GetTemplateInstanceAttr(%#x) sent service %#x path %s data %x", inst, got.Service, plc.PathString(got.Path), got.Data)
		}
		if v.SizeWords != words || v.SizeBytes != size || v.MemberCount != members || v.Handle != handle || v.SizeWords_ID != 4 || v.SizeBytes_ID != 5 || v.MemberCount_ID != 2 || v.Handle_ID != 1 {
			t.Fail("template-value", "the device answered words %d size %d members %d handle %#x, the result is %+v", words, size, members, handle, v)
		}
	}
}

// c18Items compares the typed accessors of a reply item with a reference cursor.
func c18Items(t *rt.T) {
	r := t.R
	p := newPLC(t)
	c := dial(t, p, 0)
	if c == nil {
		return
	}
	le := binary.LittleEndian
	for i := 0; i < 60 && !t.Failed(); i++ {
		data := randBytes(r, r.IntN(60))
		p.Lock()
		p.OnReq = func(q *plc.Req) *plc.Action { return &plc.Action{Reply: &plc.Reply{Data: data}} }
		p.Unlock()
		it, err := c.GetAttrSingle(1, 1, 1)
		if err != nil {
			t.Fail("item", "%v", err)
			return
		}
		start := it.Pos
		pos := 0
		for k := 0; k < 40; k++ {
			op := r.IntN(13)
			left := data[pos:]
			need := []int{1, 2, 2, 4, 4, 8, 8, 4, 8, 0, 0, 0, 0}[op]
			name := []string{"Byte", "Uint16", "Int16", "Uint32", "Int32", "Uint64", "Int64", "Float32", "Float64", "Read", "DeSerialize", "Rest", "Reset"}[op]
			var err error
			ok := true
			t.Guard("item:"+name, func() {
				enough := len(left) >= need
				switch op {
				case 0:
					var v byte
					v, err = it.Byte()
					ok = !enough || v == left[0]
				case 1:
					var v uint16
					v, err = it.Uint16()
					ok = !enough || v == le.Uint16(left)
				case 2:
					var v int16
					v, err = it.Int16()
					ok = !enough || v == int16(le.Uint16(left))
				case 3:
					var v uint32
					v, err = it.Uint32()
					ok = !enough || v == le.Uint32(left)
				case 4:
					var v int32
					v, err = it.Int32()
					ok = !enough || v == int32(le.Uint32(left))
				case 5:
					var v uint64
					v, err = it.Uint64()
					ok = !enough || v == le.Uint64(left)
				case 6:
					var v int64
					v, err = it.Int64()
					ok = !enough || v == int64(le.Uint64(left))
				case 7:
					var v float32
					v, err = it.Float32()
					ok = !enough || math.Float32bits(v) == le.Uint32(left) || v != v
				case 8:
					var v float64
					v, err = it.Float64()
					ok = !enough || math.Float64bits(v) == le.Uint64(left) || v != v
				case 9:
					b := make([]byte, 1+r.IntN(12))
					var n int
					n, err = it.Read(b)
					need = min(len(b), len(left))
					ok = n == need && bytes.Equal(b[:n], left[:n])
					if len(left) == 0 {
						need = 1 // io.EOF
					}
				case 10:
					var v struct {
						A uint16
						B uint8
						C int32
					}
					if len(left) < 7 && len(left) > 0 {
						need = -1 // how much of it an unsuccessful one consumes is not said
					} else {
						need = 7
					}
					err = it.DeSerialize(&v)
					t.Count("deserialized", 1)
					if len(left) >= 7 {
						ok = v.A == le.Uint16(left) && v.B == left[2] && v.C == int32(le.Uint32(left[3:]))
					}
				case 11:
					ok = bytes.Equal(it.Rest(), left)
				case 12:
					if r.IntN(3) == 0 {
						it.Reset()
						it.Pos += start
						pos = 0
						left = data
					}
				}
			})
			t.Count("accessors", 1)
			t.Eval(fmt.Sprintf("%s left=%d", name, min(len(left), 9)))
			if !ok {
				t.Fail("value:"+name, "%s with % x left returned something else (%v)", name, left, err)
				return
			}
			if need < 0 {
				if err == nil {
					t.Fail("no-error:"+name, "%s with only % x left returned no error", name, left)
				}
				break
			}
			switch {
			case len(left) < need:
				t.Count("accessor_out_of_data", 1)
				if err == nil {
					t.Fail("no-error:"+name, "%s with only % x left returned no error", name, left)
				}
				need = 0
			case err != nil:
				t.Fail("error:"+name, "%s with % x left: %v", name, left, err)
			}
			pos += need
			if !t.Failed() && it.Pos != start+pos {
				t.Fail("position:"+name, "%s with %d bytes left (%v) moved the position to %d of %d instead of %d", name, len(left), err, it.Pos-start, len(data), pos)
			}
			if t.Failed() {
				return
			}
		}
	}
}
