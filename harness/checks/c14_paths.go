package checks

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"regexp"
	"strconv"
	"strings"
	"testing/iotest"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C14",
		Rule: "each evaluation is one path (or one segment value, or one text) encoded by the library and decoded by an independent EPATH decoder, with its reported length compared with its bytes, or one text that is no path and must be refused; " +
			"non-trivial = distinct segment value, sequence of segment kinds and widths, or text class",
		Assumptions: []string{"port numbers 1 to 14 with one-byte or dotted link addresses", "texts with leading zeros, stray brackets or host names may be accepted or refused, but not changed"},
		Cases:       c14Cases,
		MinEvents:   []string{"segments_decoded", "paths_built", "texts_parsed", "texts_refused", "numbers_read"},
	})
}

func c14Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 8, 40); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("segments-%d", i), Run: func(t *rt.T) { c14Segments(t, i, tiered(tier, 8, 40)) }})
	}
	for i := 0; i < tiered(tier, 200, 4000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("builder-%d", i), Run: c14Builder})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("text-%d", i), Run: c14Text})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("readers-%d", i), Run: c14Readers})
	}
	cs = append(cs, rt.Case{Name: "errors", Run: c14Errors})
	cs = append(cs, rt.Case{Name: "routes", Run: c14Routes})
	return cs
}

type lenBytes interface {
	Bytes() []byte
	Len() int
}

func c14One(t *rt.T, kind byte, what string, x lenBytes, v uint32) {
	b := x.Bytes()
	t.Count("segments_decoded", 1)
	if x.Len() != len(b) {
		t.Fail("length:"+string(kind), "%s: Len() is %d for %d bytes %x", what, x.Len(), len(b), b)
	}
	segs, err := plc.ParsePath(b)
	if err != nil || len(segs) != 1 || segs[0].Kind != kind || segs[0].Val != v {
		t.Fail("segment:"+string(kind), "%s encodes as %x, which decodes to %v (%v)", what, b, plc.PathString(segs), err)
	}
	s, err := gologix.Serialize(x)
	if err != nil || !bytes.Equal(s.Bytes(), b) {
		t.Fail("serialize:"+string(kind), "Serialize(%s) gives %v (%v), Bytes() gives %x", what, s, err, b)
	}
}

// c14Segments goes through every value of every width.
func c14Segments(t *rt.T, part, parts int) {
	for v := uint32(part); v < 0x10000; v += uint32(parts) {
		c14One(t, 'C', fmt.Sprintf("CIPClass(%d)", v), gologix.CIPClass(v), v)
		c14One(t, 'A', fmt.Sprintf("CIPAttribute(%d)", v), gologix.CIPAttribute(v), v)
		t.Eval(fmt.Sprintf("CA/%d", v))
		c14RoundTrip(t, v)
		if t.Failed() {
			return
		}
	}
	vals := []uint32{}
	for v := uint32(part); v < 70000; v += uint32(parts) {
		vals = append(vals, v)
	}
	for i := 0; i < 3000; i++ {
		vals = append(vals, t.R.Uint32()>>t.R.IntN(16))
	}
	for k := 0; k < 32; k++ {
		vals = append(vals, 1<<k, 1<<k-1, 1<<k+1, ^uint32(0)>>k)
	}
	for _, v := range vals {
		c14One(t, 'I', fmt.Sprintf("CIPInstance(%d)", v), gologix.CIPInstance(v), v)
		c14One(t, 'E', fmt.Sprintf("CIPElement(%d)", v), gologix.CIPElement(v), v)
		t.Eval(fmt.Sprintf("IE/%d", v))
		var in gologix.CIPInstance
		c14Read(t, "CIPInstance", gologix.CIPInstance(v).Bytes(), &in, func() uint32 { return uint32(in) }, v)
		c14Tag(t, v)
		if t.Failed() {
			return
		}
	}
	for v := 0; v < 256; v++ {
		a := gologix.CIPAddress(v)
		if b := a.Bytes(); len(b) != 1 || b[0] != byte(v) || a.Len() != 1 {
			t.Fail("address", "CIPAddress(%d) encodes as %x with length %d", v, a.Bytes(), a.Len())
		}
		t.Eval(fmt.Sprintf("address/%d", v))
	}
}

// c14Tag: instance paths of known tags and programs.
func c14Tag(t *rt.T, v uint32) {
	k := gologix.KnownTag{Name: "x", Instance: gologix.CIPInstance(v)}
	want := []plc.Seg{{Kind: 'C', Val: 0x6B}, {Kind: 'I', Val: v}}
	c14Path(t, "KnownTag", k.Bytes(), want)
	if k.Len() != len(k.Bytes()) {
		t.Fail("length:KnownTag", "KnownTag of instance %d: Len() %d for %d bytes", v, k.Len(), len(k.Bytes()))
	}
	pr := &gologix.KnownProgram{Name: "Main", ID: gologix.CIPInstance(v)}
	pw := []plc.Seg{{Kind: 'C', Val: 0x68}, {Kind: 'I', Val: v}}
	if v == 0 {
		pw = []plc.Seg{{Kind: 'S', Name: "Program:Main"}}
	}
	c14Path(t, "KnownProgram", pr.Bytes(), pw)
	k.Parent = pr
	c14Path(t, "KnownTag-in-program", k.Bytes(), append(append([]plc.Seg{}, pw...), want...))
	if pr.Len() != len(pr.Bytes()) || k.Len() != len(k.Bytes()) {
		t.Fail("length:KnownProgram", "instance %d: Len() %d/%d for %d/%d bytes", v, pr.Len(), k.Len(), len(pr.Bytes()), len(k.Bytes()))
	}
}

func c14Path(t *rt.T, what string, b []byte, want []plc.Seg) {
	got, err := plc.ParsePath(b)
	if err != nil {
		t.Fail("undecodable:"+what, "%s %s encodes as %x: %v", what, plc.PathString(want), b, err)
		return
	}
	if len(got) != len(want) {
		t.Fail("path:"+what, "%s %s encodes as %x = %s", what, plc.PathString(want), b, plc.PathString(got))
		return
	}
	for i := range got {
		t.Count("segments_decoded", 1)
		g, w := got[i], want[i]
		if g.Kind != w.Kind || g.Val != w.Val || !strings.EqualFold(g.Name, w.Name) || !bytes.Equal(g.Addr, w.Addr) {
			t.Fail("path:"+what, "%s %s encodes as %x = %s", what, plc.PathString(want), b, plc.PathString(got))
			return
		}
	}
}

type segReader interface{ Read(io.Reader) error }

// c14Read decodes bytes with an exported reader, whole, byte by byte, followed by other bytes, and truncated.
func c14Read(t *rt.T, what string, b []byte, x segReader, val func() uint32, want uint32) {
	t.Count("numbers_read", 1)
	r := bytes.NewReader(append(append([]byte(nil), b...), 0xEE, 0xEE))
	if err := x.Read(r); err != nil || val() != want || r.Len() != 2 {
		t.Fail("read:"+what, "reading %x gives %d, %d bytes left (%v), want %d, 2 left", b, val(), r.Len(), err, want)
	}
	if err := x.Read(iotest.OneByteReader(bytes.NewReader(b))); err != nil || val() != want {
		t.Fail("read-slow:"+what, "reading %x byte by byte gives %d (%v), want %d", b, val(), err, want)
	}
	for n := 0; n < len(b); n++ {
		if err := x.Read(bytes.NewReader(b[:n])); err == nil {
			t.Fail("read-truncated:"+what, "reading %x, %d bytes short, gives %d without an error", b[:n], len(b)-n, val())
		}
	}
}

func c14RoundTrip(t *rt.T, v uint32) {
	var c gologix.CIPClass
	c14Read(t, "CIPClass", gologix.CIPClass(v).Bytes(), &c, func() uint32 { return uint32(c) }, v)
	var a gologix.CIPAttribute
	c14Read(t, "CIPAttribute", gologix.CIPAttribute(v).Bytes(), &a, func() uint32 { return uint32(a) }, v)
}

// c14Readers: exported readers on segments of all formats and on what is no such segment.
func c14Readers(t *rt.T) {
	r := t.R
	enc := func(base byte, v uint32, w int) []byte {
		switch w {
		case 1:
			return []byte{base, byte(v)}
		case 2:
			return plc.LE.AppendUint16([]byte{base | 1, 0}, uint16(v))
		}
		return plc.LE.AppendUint32([]byte{base | 2, 0}, v)
	}
	for i := 0; i < 200 && !t.Failed(); i++ {
		v := r.Uint32() >> r.IntN(32)
		w := []int{1, 2, 4}[r.IntN(3)]
		if w == 1 {
			v &= 0xFF
		} else if w == 2 {
			v &= 0xFFFF
		}
		// a value may be sent wider than it has to be
		if w < 4 {
			var c gologix.CIPClass
			c14Read(t, "CIPClass", enc(0x20, v, w), &c, func() uint32 { return uint32(c) }, v)
			var a gologix.CIPAttribute
			c14Read(t, "CIPAttribute", enc(0x30, v, w), &a, func() uint32 { return uint32(a) }, v)
		}
		var in gologix.CIPInstance
		c14Read(t, "CIPInstance", enc(0x24, v, w), &in, func() uint32 { return uint32(in) }, v)
		t.Eval(fmt.Sprintf("reader/%d/%d", w, v))
		// other segments
		b := make([]byte, 8)
		for k := range b {
			b[k] = byte(r.Uint32())
		}
		for kind, f := range map[byte]func() (error, uint32){
			0x20: func() (error, uint32) { var x gologix.CIPClass; return x.Read(bytes.NewReader(b)), uint32(x) },
			0x30: func() (error, uint32) { var x gologix.CIPAttribute; return x.Read(bytes.NewReader(b)), uint32(x) },
			0x24: func() (error, uint32) { var x gologix.CIPInstance; return x.Read(bytes.NewReader(b)), uint32(x) },
		} {
			var err error
			var v uint32
			if !t.Guard("Read", func() { err, v = f() }) {
				return
			}
			if b[0]&^3 != kind && err == nil {
				t.Fail("read-other", "bytes %x are read as %d by the reader of segments %#x", b, v, kind)
			}
			if b[0] == kind && (err != nil || v != uint32(b[1])) || b[0] == kind|1 && (err != nil || v != uint32(plc.LE.Uint16(b[2:]))) {
				t.Fail("read-value", "bytes %x are read as %d (%v) by the reader of segments %#x", b, v, err, kind)
			}
			t.Eval(fmt.Sprintf("reader/other/%#x/%#x", kind, b[0]))
		}
	}
}

func c14Builder(t *rt.T) {
	r := t.R
	for i := 0; i < 150 && !t.Failed(); i++ {
		pb := gologix.NewPathBuilder()
		if r.IntN(2) == 0 {
			pb = new(gologix.PathBuilder)
		}
		list := []any{}
		want := []plc.Seg{}
		desc := ""
		for k := 1 + r.IntN(8); k > 0; k-- {
			v := r.Uint32() >> r.IntN(32)
			switch r.IntN(9) {
			case 0:
				pb.Class(gologix.CIPClass(v))
				list = append(list, gologix.CIPClass(v))
				want = append(want, plc.Seg{Kind: 'C', Val: v & 0xFFFF})
				desc += "C"
			case 1:
				pb.Instance(gologix.CIPInstance(v))
				list = append(list, gologix.CIPInstance(v))
				want = append(want, plc.Seg{Kind: 'I', Val: v})
				desc += "I"
			case 2:
				pb.Attribute(gologix.CIPAttribute(v))
				list = append(list, gologix.CIPAttribute(v))
				want = append(want, plc.Seg{Kind: 'A', Val: v & 0xFFFF})
				desc += "A"
			case 3:
				pb.Element(gologix.CIPElement(v))
				list = append(list, gologix.CIPElement(v))
				want = append(want, plc.Seg{Kind: 'E', Val: v})
				desc += "E"
			case 4, 5:
				n := 1 + r.IntN(12)
				if r.IntN(8) == 0 {
					n = []int{254, 255, 127, 128}[r.IntN(4)]
				}
				s := randName(r, n, n)
				pb.Symbolic(s)
				x := new(gologix.PathBuilder).Symbolic(s).Bytes()
				list = append(list, x)
				want = append(want, plc.Seg{Kind: 'S', Name: s})
				desc += "S"
			case 6:
				p, s := byte(1+r.IntN(14)), byte(v)
				pb.Port(p)
				if r.IntN(2) == 0 {
					pb.Slot(s)
				} else {
					pb.Address(gologix.CIPAddress(s))
				}
				list = append(list, gologix.CIPPort{PortNo: p}, gologix.CIPAddress(s))
				want = append(want, plc.Seg{Kind: 'P', Val: uint32(p), Addr: []byte{s}})
				desc += "P"
			case 7:
				p := byte(1 + r.IntN(14))
				ip := randIP(r)
				pb.Parse(fmt.Sprintf("%d,%s", p, ip))
				x := append(gologix.CIPPort{PortNo: p, ExtensionLen: byte(len(ip))}.Bytes(), ip...)
				if len(ip)%2 == 1 {
					x = append(x, 0)
				}
				list = append(list, x)
				want = append(want, plc.Seg{Kind: 'P', Val: uint32(p), Addr: []byte(ip)})
				desc += "L"
			case 8:
				pb.Custom([]byte{0x25, 0, byte(v), byte(v >> 8)})
				list = append(list, []byte{0x25, 0, byte(v), byte(v >> 8)})
				want = append(want, plc.Seg{Kind: 'I', Val: v & 0xFFFF})
				desc += "X"
			}
		}
		t.Count("paths_built", 1)
		t.Eval("builder/" + desc)
		if pb.Err != nil {
			t.Fail("builder-error", "building %s failed: %v", plc.PathString(want), pb.Err)
			return
		}
		c14Path(t, "PathBuilder", pb.Bytes(), want)
		s, err := gologix.Serialize(list...)
		if err != nil {
			t.Fail("serialize-error", "Serialize of %s failed: %v", plc.PathString(want), err)
			return
		}
		c14Path(t, "Serialize", s.Bytes(), want)
	}
}

func randIP(r *rand.Rand) string {
	b := func() int { return []int{0, 1, 9, 10, 99, 100, 255, r.IntN(256)}[r.IntN(8)] }
	return fmt.Sprintf("%d.%d.%d.%d", b(), b(), b(), b())
}

var ipRe = regexp.MustCompile(`^(\d{1,3})\.(\d{1,3})\.(\d{1,3})\.(\d{1,3})$`)

// textMeaning: the bytes a route text stands for; verdict 'v' valid, 'x' no route, '?' open.
func textMeaning(s string) ([]byte, byte) {
	if s == "" {
		return nil, 'v'
	}
	out := []byte{}
	verdict := byte('v')
	port := -1
	for _, part := range strings.Split(s, ",") {
		p := strings.Trim(part, " ")
		if q := strings.Trim(p, " []"); q != p {
			verdict = '?'
			p = q
		}
		if m := ipRe.FindStringSubmatch(p); m != nil {
			for _, x := range m[1:] {
				v, _ := strconv.Atoi(x)
				if v > 255 {
					return nil, 'x'
				}
				if len(x) > 1 && x[0] == '0' {
					verdict = '?'
				}
			}
			if port < 1 || port > 14 {
				return nil, 'x'
			}
			out[len(out)-1] |= 0x10
			out = append(out, byte(len(p)))
			out = append(out, p...)
			if len(p)%2 == 1 {
				out = append(out, 0)
			}
			port = -1
			continue
		}
		if strings.Contains(p, ".") {
			if port < 1 || port > 14 || strings.Trim(p, "0123456789.") == "" || strings.Contains(p, "..") || strings.HasPrefix(p, ".") || strings.HasSuffix(p, ".") {
				return nil, 'x'
			}
			if strings.Trim(strings.ToLower(p), "abcdefghijklmnopqrstuvwxyz0123456789.-") != "" || len(p) > 255 {
				return nil, 'x'
			}
			// a host name: taken as it stands, or refused
			verdict = '?'
			out[len(out)-1] |= 0x10
			out = append(out, byte(len(p)))
			out = append(out, p...)
			if len(p)%2 == 1 {
				out = append(out, 0)
			}
			port = -1
			continue
		}
		if p == "" || strings.Trim(p, "0123456789") != "" {
			return nil, 'x'
		}
		v, err := strconv.Atoi(p)
		if err != nil || v > 255 {
			return nil, 'x'
		}
		if len(p) > 1 && p[0] == '0' {
			verdict = '?'
		}
		out = append(out, byte(v))
		port = v
	}
	return out, verdict
}

func c14TextOne(t *rt.T, s, cls string) {
	want, verdict := textMeaning(s)
	var err error
	var b *bytes.Buffer
	if !t.Guard("ParsePath", func() { b, err = gologix.ParsePath(s) }) {
		return
	}
	t.Eval("text/" + cls + "/" + string(verdict) + "/" + s)
	var got []byte
	if err == nil && b != nil {
		got = b.Bytes()
	}
	switch {
	case err != nil && verdict == 'v':
		t.Fail("text-refused", "ParsePath(%q) failed: %v; it stands for %x", s, err, want)
	case err == nil && verdict == 'x':
		t.Fail("text-accepted", "ParsePath(%q), which is no route, gives %x", s, got)
	case err == nil && !bytes.Equal(got, want):
		t.Fail("text-bytes", "ParsePath(%q) gives %x, it stands for %x", s, got, want)
	}
	if err == nil {
		t.Count("texts_parsed", 1)
	} else {
		t.Count("texts_refused", 1)
	}
	pb := gologix.NewPathBuilder().Class(1).Parse(s)
	if (pb.Err == nil) != (err == nil) || pb.Err == nil && !bytes.Equal(pb.Bytes(), append([]byte{0x20, 1}, got...)) {
		t.Fail("builder-parse", "PathBuilder.Parse(%q) after a class segment gives %x (%v), ParsePath gives %x (%v)", s, pb.Bytes(), pb.Err, got, err)
	}
}

func c14Text(t *rt.T) {
	r := t.R
	pad := func(s string) string {
		switch r.IntN(6) {
		case 0:
			return " " + s
		case 1:
			return s + " "
		}
		return s
	}
	for i := 0; i < 120 && !t.Failed(); i++ {
		parts := []string{}
		for k := 1 + r.IntN(6); k > 0; k-- {
			if r.IntN(3) == 0 {
				parts = append(parts, pad(fmt.Sprint(1+r.IntN(14))), pad(randIP(r)))
			} else {
				parts = append(parts, pad(fmt.Sprint(r.IntN(256))))
			}
		}
		s := strings.Join(parts, ",")
		c14TextOne(t, s, "route")
		// one change
		b := []byte(s)
		const cs = "0123456789.,, -+xaZ[]\t:/e_"
		for k := 0; k < 4; k++ {
			m := append([]byte(nil), b...)
			at := r.IntN(len(m))
			switch r.IntN(3) {
			case 0:
				m[at] = cs[r.IntN(len(cs))]
			case 1:
				m = append(m[:at], m[at+1:]...)
			case 2:
				m = append(m[:at], append([]byte{cs[r.IntN(len(cs))]}, m[at:]...)...)
			}
			c14TextOne(t, string(m), "mutated")
		}
		n := r.IntN(20)
		j := make([]byte, n)
		for k := range j {
			j[k] = cs[r.IntN(len(cs))]
			if r.IntN(12) == 0 {
				j[k] = byte(r.Uint32())
			}
		}
		c14TextOne(t, string(j), "random")
	}
}

func c14Errors(t *rt.T) {
	for _, s := range []string{",", "1,", ",1", "1,,0", "a", "-1", "256", "1,256", "1,0x10", "1.5", "1,2.3.4", "1.2.3.4", "1,0,1.2.3.4", "15,1.2.3.4", "1,300.1.1.1", "1,1.2.3.4.5", "1,1.2.3.", "1,.2.3.4", "1,1..3.4",
		"1,1.2.3.4,5.6.7.8", "1 0", "1;0", "1,0\n", "∞", "1,1.2.3.4:80", "99999999999999999999", "1e1", "1,+5"} {
		c14TextOne(t, s, "bad")
	}
	for _, name := range []string{"", strings.Repeat("n", 256), strings.Repeat("n", 1000), strings.Repeat("n", 70000)} {
		var pb *gologix.PathBuilder
		if !t.Guard("Symbolic", func() { pb = gologix.NewPathBuilder().Class(5).Symbolic(name).Instance(7).Element(1) }) {
			continue
		}
		t.Eval(fmt.Sprintf("symbol/%d", len(name)))
		t.Count("texts_refused", 1)
		if pb.Err == nil {
			t.Fail("symbol-accepted", "a symbol of %d characters encodes as %.40x...", len(name), pb.Bytes())
		} else if !bytes.Equal(pb.Bytes(), []byte{0x20, 5}) {
			t.Fail("after-error", "after an error the builder holds %.40x", pb.Bytes())
		}
	}
	pb := gologix.NewPathBuilder().Class(5).Parse("oops")
	first := pb.Err
	pb.Class(1).Instance(2).Attribute(3).Element(4).Symbolic("x").Port(1).Slot(2).Address(3).Custom([]byte{1, 2}).Parse("1,0").Parse("bad")
	if pb.Err != first || first == nil || !bytes.Equal(pb.Bytes(), []byte{0x20, 5}) {
		t.Fail("after-error", "after an error the builder went on: %x, %v", pb.Bytes(), pb.Err)
	}
	t.Eval("builder-after-error")
	b, err := gologix.ParsePath("")
	if err != nil || b == nil || b.Len() != 0 {
		t.Fail("empty", "ParsePath(\"\") gives %v, %v", b, err)
	}
}

// c14Routes: the route of a controller is what its forward open carries.
func c14Routes(t *rt.T) {
	r := t.R
	for i := 0; i < tiered(t.Tier, 40, 400) && !t.Failed(); i++ {
		p := newPLC(t)
		parts := []string{}
		want := []plc.Seg{}
		for k := r.IntN(4); k > 0; k-- {
			port := 1 + r.IntN(14)
			if r.IntN(3) == 0 {
				ip := randIP(r)
				parts = append(parts, fmt.Sprint(port), ip)
				want = append(want, plc.Seg{Kind: 'P', Val: uint32(port), Addr: []byte(ip)})
			} else {
				s := r.IntN(256)
				parts = append(parts, fmt.Sprint(port), fmt.Sprint(s))
				want = append(want, plc.Seg{Kind: 'P', Val: uint32(port), Addr: []byte{byte(s)}})
			}
		}
		text := strings.Join(parts, ",")
		c := newClient(p)
		if i%10 == 0 {
			// none: the controller is in slot 0 of the rack
			c.Controller.Path, text = nil, "(default)"
			want = []plc.Seg{{Kind: 'P', Val: 1, Addr: []byte{0}}}
		} else {
			b, err := gologix.ParsePath(text)
			if err != nil {
				t.Fail("text-refused", "ParsePath(%q) failed: %v", text, err)
				return
			}
			c.Controller.Path = b
		}
		if err := c.Connect(); err != nil {
			t.Fail("route-connect", "Connect over the route %q failed: %v", text, err)
			return
		}
		want = append(want, plc.Seg{Kind: 'C', Val: 2}, plc.Seg{Kind: 'I', Val: 1})
		cs := p.OpenConns()
		t.Eval("route/" + text)
		if len(cs) != 1 || plc.PathString(cs[0].Path) != plc.PathString(want) {
			got := ""
			if len(cs) == 1 {
				got = plc.PathString(cs[0].Path)
			}
			t.Fail("route", "the connection over the route %q was opened along %s, want %s", text, got, plc.PathString(want))
		}
		if err := c.Disconnect(); err != nil {
			t.Fail("route-disconnect", "Disconnect over the route %q failed: %v", text, err)
		}
		if e := p.WireErrors(); len(e) > 0 {
			t.Fail("route-wire", "route %q: %s", text, e[0])
		}
		if len(p.OpenConns()) != 0 {
			t.Fail("route-close", "Disconnect over the route %q left the connection open", text)
		}
		p.Close()
	}
	// a route that is no whole number of words cannot be sent
	for _, text := range []string{"1", "1,0,2", "5,1.2.3.4,1"} {
		p := newPLC(t)
		c := newClient(p)
		b, err := gologix.ParsePath(text)
		if err != nil {
			continue
		}
		c.Controller.Path = b
		err = c.Connect()
		t.Eval("odd-route/" + text)
		if e := p.WireErrors(); len(e) > 0 {
			t.Fail("odd-route", "Connect with the route %q (%v): %s", text, err, e[0])
		}
		if err == nil {
			t.Fail("odd-route-accepted", "Connect with the route %q reported success", text)
			c.Disconnect()
		}
	}
}
