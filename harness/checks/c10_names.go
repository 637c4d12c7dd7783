package checks

import (
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"reflect"
	"strings"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C10",
		Rule: "each evaluation is one tag name used with one client call; the path of the request the controller model received is decoded by an independent EPATH decoder and compared, segment by segment, with the name (or, for an instance path, resolved against the symbol table); the bit is compared with the value sent; a name that cannot be addressed must give an error; " +
			"non-trivial = distinct (API, program scope, parts, longest name class, index widths per part, bit, known by instance or not) or distinct unaddressable name",
		Assumptions: []string{"names are compared without regard to letter case", "a stale instance number is only possible between a change of the controller's program and the next listing"},
		Cases:       c10Cases,
		MinEvents:   []string{"paths_checked", "instance_paths", "rejected_names", "bits_checked"},
	})
}

func c10Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 1600, 20000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("names-%d", i), Run: c10Names})
	}
	for i := 0; i < tiered(tier, 800, 10000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("known-%d", i), Run: c10Known})
	}
	for i := 0; i < tiered(tier, 150, 1000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("unaddressable-%d", i), Run: c10Bad})
	}
	cs = append(cs, rt.Case{Name: "boundaries", Run: c10Boundaries})
	cs = append(cs, rt.Case{Name: "no-bit", Run: c10NoBit})
	return cs
}

// tagName is a name with its expected meaning.
type tagName struct {
	text string
	segs []plc.Seg
	bit  int // -1: none
	desc string
}

func symSeg(s string) plc.Seg { return plc.Seg{Kind: 'S', Name: strings.ToLower(s)} }
func elSeg(v uint32) plc.Seg  { return plc.Seg{Kind: 'E', Val: v} }
func segBytes(g plc.Seg) int {
	if g.Kind == 'S' {
		return 2 + len(g.Name) + len(g.Name)%2
	}
	switch {
	case g.Val < 256:
		return 2
	case g.Val < 65536:
		return 4
	}
	return 6
}

func randIndex(r *rand.Rand) uint32 {
	switch r.IntN(9) {
	case 0:
		return []uint32{0, 1, 255, 256, 257, 65535, 65536, 65537, 1<<31 - 1, 1 << 31, 1<<32 - 1, 511, 512, 0xFF00, 0x10000FF}[r.IntN(15)]
	case 1, 2:
		return r.Uint32()
	case 3, 4:
		return r.Uint32N(65536)
	}
	return r.Uint32N(256)
}

func randTagName(r *rand.Rand) tagName {
	for {
		n := tagName{bit: -1}
		parts := 1 + r.IntN(4)
		if r.IntN(4) == 0 {
			p := "Program:" + randName(r, 1, 30)
			n.text = p + "."
			n.segs = append(n.segs, symSeg(p))
			n.desc = "prog/"
		}
		n.desc += fmt.Sprintf("%d/", parts)
		for i := 0; i < parts; i++ {
			nm := randName(r, 1, 12)
			switch r.IntN(12) {
			case 0:
				nm = randName(r, 40, 120)
			case 1:
				nm = randName(r, 1, 2)
			case 2:
				if i > 0 && r.IntN(3) == 0 {
					nm = randName(r, 250, 255)
				}
			}
			if i > 0 {
				n.text += "."
			}
			n.text += nm
			n.segs = append(n.segs, symSeg(nm))
			n.desc += fmt.Sprintf("%s", class(len(nm)))
			if r.IntN(2) == 0 {
				k := 1 + r.IntN(3)
				n.text += "["
				for j := 0; j < k; j++ {
					x := randIndex(r)
					if j > 0 {
						n.text += ","
						if r.IntN(8) == 0 {
							n.text += " "
						}
					}
					n.text += fmt.Sprint(x)
					n.segs = append(n.segs, elSeg(x))
					n.desc += fmt.Sprintf("[%d]", segBytes(elSeg(x)))
				}
				n.text += "]"
			}
			n.desc += "."
		}
		if r.IntN(3) == 0 {
			n.bit = r.IntN(64)
			n.text += fmt.Sprintf(".%d", n.bit)
			n.desc += fmt.Sprintf("bit%d", n.bit)
		}
		sz := 0
		for _, g := range n.segs {
			sz += segBytes(g)
		}
		if sz <= 510 {
			return n
		}
	}
}

func lowerPath(segs []plc.Seg) string {
	c := append([]plc.Seg(nil), segs...)
	for i := range c {
		c[i].Name = strings.ToLower(c[i].Name)
	}
	return plc.PathString(c)
}

// pathValue is the value the model answers for a path: it identifies the path.
func pathValue(segs []plc.Seg) uint64 {
	h := fnv.New64a()
	h.Write([]byte(lowerPath(segs)))
	return h.Sum64()
}

// answerByPath makes every read answer a LINT that depends on the path only, and accepts every write.
func answerByPath(p *plc.PLC) {
	p.Lock()
	p.OnReq = func(r *plc.Req) *plc.Action {
		switch r.Service {
		case 0x4C, 0x52:
			d := []byte{plc.LINT, 0}
			d = plc.LE.AppendUint64(d, pathValue(r.Path))
			return &plc.Action{Reply: &plc.Reply{Data: d}}
		case 0x4D:
			return &plc.Action{Reply: &plc.Reply{}}
		}
		return nil
	}
	p.Unlock()
}

// flat lists the read and write services among requests, inner ones included.
func flat(reqs []*plc.Req) []*plc.Req {
	out := []*plc.Req{}
	for _, r := range reqs {
		if r.Service == 0x0A {
			out = append(out, r.Inner...)
		} else if r.Service == 0x4C || r.Service == 0x52 || r.Service == 0x4D {
			out = append(out, r)
		}
	}
	return out
}

func c10CheckPath(t *rt.T, api string, n tagName, r *plc.Req) {
	t.Count("paths_checked", 1)
	if got, want := lowerPath(r.Path), plc.PathString(n.segs); got != want {
		t.Fail("path:"+api, "%s(%q) sent path %s (bytes %x), the name means %s", api, n.text, got, r.PathRaw, want)
	}
}

func c10Names(t *rt.T) {
	p := newPLC(t)
	answerByPath(p)
	c := dial(t, p, 4000)
	if c == nil {
		return
	}
	pool := []tagName{}
	for i := 0; i < 40 && !t.Failed(); i++ {
		var n tagName
		if len(pool) > 0 && t.R.IntN(3) == 0 {
			n = pool[t.R.IntN(len(pool))] // again: a cached path
		} else {
			n = randTagName(t.R)
			pool = append(pool, n)
		}
		if t.R.IntN(2) == 0 {
			n.text = recase(t.R, n.text)
		}
		c10Use(t, p, c, n, "sym")
	}
	// several names at once
	for i := 0; i < 6 && !t.Failed(); i++ {
		c10UseMany(t, p, c, pool)
	}
}

// c10Use uses one name with one call.
func c10Use(t *rt.T, p *plc.PLC, c *gologix.Client, n tagName, how string) {
	from := p.LogLen()
	api := ""
	var err error
	val := pathValue(n.segs)
	wantBit := n.bit >= 0 && val>>n.bit&1 == 1
	var got any
	switch t.R.IntN(5) {
	case 0:
		api = "Read"
		if n.bit >= 0 {
			b := !wantBit
			t.Guard(api, func() { err = c.Read(n.text, &b) })
			got = b
		} else {
			var v int64
			t.Guard(api, func() { err = c.Read(n.text, &v) })
			got = v
		}
	case 1:
		api = "Read_single"
		typ := gologix.CIPTypeLINT
		if n.bit >= 0 {
			typ = gologix.CIPTypeBOOL
		}
		if t.R.IntN(3) == 0 {
			typ = gologix.CIPTypeUnknown
		}
		t.Guard(api, func() { got, err = c.Read_single(n.text, typ, 1) })
	case 2:
		api = "ReadList"
		var tv any = int64(0)
		if n.bit >= 0 {
			tv = false
		}
		var l []any
		t.Guard(api, func() { l, err = c.ReadList([]string{n.text}, []any{tv}, []int{1}) })
		if err == nil && len(l) == 1 {
			got = l[0]
		}
	case 3:
		api = "ReadMap"
		m := map[string]any{n.text: int64(0)}
		if n.bit >= 0 {
			m[n.text] = false
		}
		t.Guard(api, func() { err = c.ReadMap(m) })
		got = m[n.text]
	case 4:
		if n.bit >= 0 {
			return
		}
		if t.R.IntN(2) == 0 {
			api = "Write"
			t.Guard(api, func() { err = c.Write(n.text, int64(7)) })
		} else {
			api = "WriteMap"
			t.Guard(api, func() { err = c.WriteMap(map[string]any{n.text: int64(7)}) })
		}
	}
	t.Eval(api + "/" + how + "/" + n.desc)
	if err != nil {
		t.Fail("addressable-rejected:"+api, "%s(%q) failed: %v", api, n.text, err)
		return
	}
	rs := flat(p.Requests(from))
	if len(rs) != 1 {
		t.Fail("requests:"+api, "%s(%q) sent %d requests", api, n.text, len(rs))
		return
	}
	c10CheckPath(t, api, n, rs[0])
	if api == "Write" || api == "WriteMap" {
		return
	}
	if n.bit >= 0 {
		t.Count("bits_checked", 1)
		if got != wantBit {
			t.Fail("bit:"+api, "%s(%q) gave %s, bit %d of the value %#x is %v", api, n.text, show(got), n.bit, val, wantBit)
		}
	} else if got != int64(val) {
		t.Fail("value:"+api, "%s(%q) gave %s, the controller sent %d", api, n.text, show(got), int64(val))
	}
}

func c10UseMany(t *rt.T, p *plc.PLC, c *gologix.Client, pool []tagName) {
	r := t.R
	k := 2 + r.IntN(12)
	ns := []tagName{}
	seen := map[string]bool{}
	for i := 0; i < k; i++ {
		n := pool[r.IntN(len(pool))]
		if seen[strings.ToLower(n.text)] {
			continue
		}
		seen[strings.ToLower(n.text)] = true
		n.text = recase(r, n.text)
		ns = append(ns, n)
	}
	names, types, els := []string{}, []any{}, []int{}
	fields := []reflect.StructField{}
	for i, n := range ns {
		names = append(names, n.text)
		els = append(els, 1)
		ft := reflect.TypeOf(int64(0))
		if n.bit >= 0 {
			types = append(types, false)
			ft = tBool
		} else {
			types = append(types, int64(0))
		}
		fields = append(fields, reflect.StructField{Name: fmt.Sprintf("F%d", i), Type: ft, Tag: reflect.StructTag(fmt.Sprintf("gologix:%q", n.text))})
	}
	check := func(api string, err error, from int, got func(i int) any) {
		t.Eval(fmt.Sprintf("%s/many/%d", api, len(ns)))
		if err != nil {
			t.Fail("addressable-rejected:"+api, "%s of %d names failed: %v (%q)", api, len(ns), err, names)
			return
		}
		rs := flat(p.Requests(from))
		if len(rs) != len(ns) {
			t.Fail("requests:"+api, "%s of %d names sent %d requests", api, len(ns), len(rs))
			return
		}
		want := map[string]int{}
		for _, n := range ns {
			want[plc.PathString(n.segs)]++
		}
		for i, q := range rs {
			t.Count("paths_checked", 1)
			if api != "ReadMap" {
				c10CheckPath(t, api, ns[i], q)
			}
			want[lowerPath(q.Path)]--
		}
		for k, v := range want {
			if v != 0 {
				t.Fail("path:"+api, "%s of %q: path %s requested %d times too few", api, names, k, v)
			}
		}
		for i, n := range ns {
			val := pathValue(n.segs)
			var w any = int64(val)
			if n.bit >= 0 {
				w = val>>n.bit&1 == 1
				t.Count("bits_checked", 1)
			}
			if g := got(i); g != w {
				t.Fail("value:"+api, "%s: %q gave %s, want %s", api, n.text, show(g), show(w))
			}
		}
	}
	from := p.LogLen()
	var l []any
	var err error
	t.Guard("ReadList", func() { l, err = c.ReadList(names, types, els) })
	check("ReadList", err, from, func(i int) any {
		if i < len(l) {
			return l[i]
		}
		return nil
	})
	m := map[string]any{}
	for i := range ns {
		m[names[i]] = types[i]
	}
	from = p.LogLen()
	t.Guard("ReadMap", func() { err = c.ReadMap(m) })
	check("ReadMap", err, from, func(i int) any { return m[names[i]] })
	sv := reflect.New(reflect.StructOf(fields))
	from = p.LogLen()
	t.Guard("ReadMulti", func() { err = c.ReadMulti(sv.Interface()) })
	check("ReadMulti", err, from, func(i int) any { return sv.Elem().Field(i).Interface() })
}

// c10Boundaries walks every index width and name length boundary once.
func c10Boundaries(t *rt.T) {
	p := newPLC(t)
	answerByPath(p)
	c := dial(t, p, 4000)
	if c == nil {
		return
	}
	idx := []uint32{0, 1, 127, 128, 254, 255, 256, 257, 511, 512, 32767, 32768, 65279, 65280, 65534, 65535, 65536, 65537, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}
	for _, x := range idx {
		for _, form := range []int{0, 1, 2, 3} {
			n := tagName{bit: -1}
			switch form {
			case 0:
				n.text = fmt.Sprintf("Arr[%d]", x)
				n.segs = []plc.Seg{symSeg("arr"), elSeg(x)}
			case 1:
				n.text = fmt.Sprintf("Arr[%d,3]", x)
				n.segs = []plc.Seg{symSeg("arr"), elSeg(x), elSeg(3)}
			case 2:
				n.text = fmt.Sprintf("Arr[1,%d,2].Member", x)
				n.segs = []plc.Seg{symSeg("arr"), elSeg(1), elSeg(x), elSeg(2), symSeg("member")}
			case 3:
				n.text = fmt.Sprintf("Program:Main.T.Arr[7].M[%d].17", x)
				n.segs = []plc.Seg{symSeg("program:main"), symSeg("t"), symSeg("arr"), elSeg(7), symSeg("m"), elSeg(x)}
				n.bit = 17
			}
			n.desc = fmt.Sprintf("idx/%d/%d", x, form)
			c10Use(t, p, c, n, "boundary")
		}
	}
	for ln := 1; ln <= 255; ln++ {
		s := strings.Repeat("n", ln-1) + "Z"
		c10Use(t, p, c, tagName{text: s, segs: []plc.Seg{symSeg(s)}, bit: -1, desc: fmt.Sprintf("len/%d", ln)}, "boundary")
		c10Use(t, p, c, tagName{text: "A." + s + ".5", segs: []plc.Seg{symSeg("a"), symSeg(s)}, bit: 5, desc: fmt.Sprintf("mlen/%d", ln)}, "boundary")
	}
	for b := 0; b < 64; b++ {
		c10Use(t, p, c, tagName{text: fmt.Sprintf("Tag.%d", b), segs: []plc.Seg{symSeg("tag")}, bit: b, desc: fmt.Sprintf("bit/%d", b)}, "boundary")
		c10Use(t, p, c, tagName{text: fmt.Sprintf("Tag[3].%d", b), segs: []plc.Seg{symSeg("tag"), elSeg(3)}, bit: b, desc: fmt.Sprintf("ebit/%d", b)}, "boundary")
	}
	// the longest path is 255 words
	for total := 500; total <= 520; total += 2 {
		rest := total
		n := tagName{bit: -1, desc: fmt.Sprintf("total/%d", total)}
		for rest > 0 {
			k := min(rest, 122)
			if rest-k > 0 && rest-k < 4 {
				k -= 4
			}
			s := strings.Repeat("q", k-2)
			n.segs = append(n.segs, symSeg(s))
			if n.text != "" {
				n.text += "."
			}
			n.text += s
			rest -= k
		}
		if total <= 510 {
			c10Use(t, p, c, n, "longest")
		} else {
			c10Reject(t, p, c, n.text)
		}
	}
}

func c10Reject(t *rt.T, p *plc.PLC, c *gologix.Client, name string) {
	key := name
	if len(key) > 60 {
		key = fmt.Sprintf("%s..%d", key[:20], len(key))
	}
	for _, api := range []string{"Read", "Read_single", "ReadList", "ReadMap", "Write", "WriteMap"} {
		var err error
		from := p.LogLen()
		ok := t.Guard(api, func() {
			switch api {
			case "Read":
				var v int64
				err = c.Read(name, &v)
			case "Read_single":
				_, err = c.Read_single(name, gologix.CIPTypeLINT, 1)
			case "ReadList":
				_, err = c.ReadList([]string{"good", name}, []any{int64(0), int64(0)}, []int{1, 1})
			case "ReadMap":
				err = c.ReadMap(map[string]any{"good": int64(0), name: int64(0)})
			case "Write":
				err = c.Write(name, int64(1))
			case "WriteMap":
				err = c.WriteMap(map[string]any{"good": int64(0), name: int64(1)})
			}
		})
		t.Eval("unaddressable/" + api + "/" + key)
		if !ok {
			continue
		}
		t.Count("rejected_names", 1)
		if err == nil {
			paths := []string{}
			for _, q := range flat(p.Requests(from)) {
				paths = append(paths, lowerPath(q.Path))
			}
			t.Fail("unaddressable-accepted:"+api, "%s(%q) succeeded; paths sent: %q", api, key, paths)
		}
	}
}

func c10Bad(t *rt.T) {
	p := newPLC(t)
	answerByPath(p)
	c := dial(t, p, 4000)
	if c == nil {
		return
	}
	fixed := []string{"", ".", "a..b", ".a", "a.", "[1]", "a[]", "a[-1]", "a[1", "a[1]b", "a]1[", "a[1.5]", "a[x]", "a[1,]", "a[,1]", "a[1,,2]", "a[4294967296]", "a[99999999999999999999]",
		"a[+1]", "a.5.b", "5", "a.5.6", "a[1].[2]", "a[0x1]", "a[1 2]", "a.b[].c", "a[1][", "a]", "a[", "a.[3]", strings.Repeat("x", 256), "a." + strings.Repeat("y", 256), strings.Repeat("z", 300) + "[1]",
		"a[18446744073709551616]", "a[1]].b", "a[[1]]", "Program:Main.", "a.b..5"}
	if strings.HasSuffix(t.Case, "-0") {
		for _, n := range fixed {
			c10Reject(t, p, c, n)
		}
	}
	for i := 0; i < 15; i++ {
		// a good name, damaged
		n := randTagName(t.R)
		for n.bit >= 0 {
			n = randTagName(t.R)
		}
		s := n.text
		switch t.R.IntN(6) {
		case 0:
			s = s + "."
		case 1:
			s = strings.Replace(s, ".", "..", 1)
			if s == n.text {
				s = "." + s
			}
		case 2:
			s = s + "[" + fmt.Sprint(uint64(1)<<32+uint64(t.R.Uint32())) + "]"
		case 3:
			s = s + "[-" + fmt.Sprint(t.R.IntN(9)+1) + "]"
		case 4:
			s = s + "."
			for k := 256 + t.R.IntN(100); k > 0; k-- {
				s += "w"
			}
		case 5:
			s = s + "[" + fmt.Sprint(t.R.IntN(9)) + "]tail"
		}
		c10Reject(t, p, c, s)
	}
	// good names still work afterwards
	for i := 0; i < 5; i++ {
		c10Use(t, p, c, randTagName(t.R), "after-bad")
	}
}

// c10Known addresses tags before and after discovery on firmware that uses instance numbers.
func c10Known(t *rt.T) {
	w := newWorld(t)
	r := t.R
	w.p.SetFirmware([]byte{20, 21, byte(19 + r.IntN(18))}[r.IntN(3)])
	nprog := r.IntN(3)
	for i := 0; i < nprog; i++ {
		w.p.Programs = append(w.p.Programs, &plc.Program{ID: uint32(0x1000 + 77*i + r.IntN(50)), Name: uniqueName(r, w.used, 1, 20)})
	}
	type kt struct {
		tag  *plc.Tag
		full string
	}
	tags := []kt{}
	add := func(prefix string) {
		code := bitTypes[r.IntN(len(bitTypes))]
		tg := &plc.Tag{Name: prefix + w.name(), Type: code}
		switch r.IntN(3) {
		case 0:
			tg.Dims = randDims(r)
		case 1:
			tg.Instance = []uint32{uint32(r.IntN(200) + 1), uint32(256 + r.IntN(60000)), uint32(65536 + r.IntN(100000)), 255, 256, 65535}[r.IntN(6)]
			for _, o := range tags {
				if o.tag.Instance == tg.Instance {
					tg.Instance = 0
				}
			}
		}
		if tg.Instance == 0 {
			tg.Instance = uint32(200000 + len(tags)*3 + r.IntN(2))
		}
		tg.Data = randData(r, code, tg.Elems())
		w.p.Add(tg)
		tags = append(tags, kt{tg, tg.Name})
	}
	for i := 0; i < 12; i++ {
		add("")
	}
	for _, pr := range w.p.Programs {
		for i := 0; i < 5; i++ {
			add("Program:" + pr.Name + ".")
		}
	}
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	listed := false
	use := func() {
		k := tags[r.IntN(len(tags))]
		a := atomOf(k.tag.Type)
		name := k.full
		off := 0
		if len(k.tag.Dims) > 0 && r.IntN(3) > 0 {
			lin := r.IntN(k.tag.Elems())
			name += indexText(k.tag.Dims, lin)
			off = lin * plc.Size(k.tag.Type)
		}
		bit := -1
		if r.IntN(4) == 0 {
			bit = r.IntN(8 * plc.Size(k.tag.Type))
		}
		if bit >= 0 {
			name += fmt.Sprintf(".%d", bit)
		}
		name = recase(r, name)
		mem := w.p.Peek(k.full)[off:]
		var want any = plc.Value(k.tag.Type, mem)
		if bit >= 0 {
			want = mem[bit/8]>>(bit%8)&1 == 1
		}
		from := w.p.LogLen()
		var err error
		var got any
		api := ""
		switch r.IntN(6) {
		case 0:
			api = "Read"
			if bit >= 0 {
				b := false
				t.Guard(api, func() { err = c.Read(name, &b) })
				got = b
			} else {
				v := reflect.New(a.Go)
				t.Guard(api, func() { err = c.Read(name, v.Interface()) })
				got = v.Elem().Interface()
			}
		case 1:
			api = "Read_single"
			typ := gologix.CIPType(k.tag.Type)
			if r.IntN(2) == 0 {
				typ = gologix.CIPTypeUnknown
			}
			if bit >= 0 {
				typ = []gologix.CIPType{gologix.CIPTypeBOOL, gologix.CIPTypeUnknown}[r.IntN(2)]
			}
			t.Guard(api, func() { got, err = c.Read_single(name, typ, 1) })
		case 2:
			api = "ReadList"
			tv := reflect.Zero(a.Go).Interface()
			if bit >= 0 {
				tv = false
			}
			var l []any
			t.Guard(api, func() { l, err = c.ReadList([]string{name}, []any{tv}, []int{1}) })
			if len(l) == 1 {
				got = l[0]
			}
		case 3:
			api = "ReadMap"
			tv := reflect.Zero(a.Go).Interface()
			if bit >= 0 {
				tv = false
			}
			m := map[string]any{name: tv}
			t.Guard(api, func() { err = c.ReadMap(m) })
			got = m[name]
		case 4, 5:
			if bit >= 0 || writeCode[a.Go] == 0 {
				return
			}
			wv := plc.Value(k.tag.Type, randElem(r, k.tag.Type))
			if r.IntN(2) == 0 {
				api = "Write"
				t.Guard(api, func() { err = c.Write(name, wv) })
			} else {
				api = "WriteMap"
				t.Guard(api, func() { err = c.WriteMap(map[string]any{name: wv}) })
			}
			if err == nil {
				got = plc.Value(k.tag.Type, w.p.Peek(k.full)[off:])
				want = wv
			} else {
				// the Go type may stand for another CIP type than the tag's: not an addressing matter
				got, want, err = nil, nil, nil
			}
		}
		rs := flat(w.p.Requests(from))
		t.Eval(fmt.Sprintf("known/%s/%s/dims%d/bit%v/listed=%v/prog=%v", api, a.Name, len(k.tag.Dims), bit >= 0, listed, strings.HasPrefix(k.full, "Program:")))
		for _, q := range rs {
			t.Count("paths_checked", 1)
			if q.Path[len(q.Path)-1].Kind == 'I' || len(q.Path) > 1 && q.Path[1].Kind == 'I' {
				t.Count("instance_paths", 1)
			}
			nm, o, ok := w.p.Locate(q.Path)
			if !ok || !strings.EqualFold(nm, k.full) || o != off {
				t.Fail("located:"+api, "%s(%q) addressed %s = %q offset %d (ok=%v), the name means %q offset %d", api, name, plc.PathString(q.Path), nm, o, ok, k.full, off)
			}
		}
		if err != nil {
			t.Fail("addressable-rejected:"+api, "%s(%q) failed: %v (listed=%v, type %s)", api, name, err, listed, a.Name)
		} else if !same(got, want) {
			t.Fail("value:"+api, "%s(%q) gave %s, controller holds %s (listed=%v)", api, name, show(got), show(want), listed)
		} else if bit >= 0 {
			t.Count("bits_checked", 1)
		}
	}
	for round := 0; round < 3 && !t.Failed(); round++ {
		for i := 0; i < 25 && !t.Failed(); i++ {
			use()
		}
		var err error
		t.Guard("ListAllTags", func() { err = c.ListAllTags(0) })
		if err != nil {
			t.Fail("list", "ListAllTags failed: %v", err)
			return
		}
		listed = true
		for i := 0; i < 25 && !t.Failed(); i++ {
			use()
		}
		// a download: tags disappear, others move to other instances; the client lists again
		keep := tags[:0:0]
		for _, k := range tags {
			if r.IntN(5) == 0 {
				w.p.Remove(k.full)
				continue
			}
			keep = append(keep, k)
		}
		if len(keep) < 4 {
			return
		}
		w.p.Lock()
		perm := r.Perm(len(keep))
		inst := []uint32{}
		for _, k := range keep {
			inst = append(inst, k.tag.Instance)
		}
		for i, j := range perm {
			keep[i].tag.Instance = inst[j]
		}
		w.p.Unlock()
		tags = keep
		t.Guard("ListAllTags", func() { err = c.ListAllTags(0) })
		if err != nil {
			t.Fail("list", "second ListAllTags failed: %v", err)
			return
		}
	}
}

// c10NoBit asks for bits of values that have none.
func c10NoBit(t *rt.T) {
	w := newWorld(t)
	fillWorld(w)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	names := []string{}
	for _, tg := range w.strs {
		names = append(names, tg.Name)
	}
	for _, u := range w.udts {
		if len(u.val) == 1 && u.tag.ElemSize() < 3000 {
			names = append(names, u.tag.Name)
		}
	}
	for _, code := range []byte{plc.REAL, plc.LREAL} {
		names = append(names, w.addAtomic(code).Name)
	}
	for _, nm := range names {
		n := fmt.Sprintf("%s.%d", nm, t.R.IntN(64))
		for _, target := range []any{new(bool), new(string), new(int32), new(float32), new(SMix), new(any)} {
			var err error
			t.Guard("Read", func() { err = c.Read(n, target) })
			t.Eval(fmt.Sprintf("nobit/Read/%T", target))
			t.Count("rejected_names", 1)
			if err == nil {
				t.Fail("bit-of-nothing:Read", "Read(%q, %T) succeeded with %s", n, target, show(reflect.ValueOf(target).Elem().Interface()))
			}
			v := reflect.ValueOf(target).Elem().Interface()
			if v == nil {
				continue
			}
			var l []any
			t.Guard("ReadList", func() { l, err = c.ReadList([]string{n}, []any{v}, []int{1}) })
			if err == nil {
				t.Fail("bit-of-nothing:ReadList", "ReadList(%q, %T) succeeded with %s", n, v, show(l))
			}
		}
	}
	// and of several elements at once
	for _, tg := range w.arrays {
		if tg.Elems() < 2 || tg.Type == plc.BOOL {
			continue
		}
		n := tg.Name + ".1"
		var err error
		t.Guard("Read_single", func() { _, err = c.Read_single(n, gologix.CIPType(tg.Type), 2) })
		t.Eval("nobit/several")
		if err == nil {
			t.Fail("bit-of-several", "Read_single(%q, 2 elements) succeeded", n)
		}
	}
}
