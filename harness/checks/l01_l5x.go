package checks

import (
	"encoding/xml"
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"reflect"
	"regexp"
	"strconv"
	"strings"

	"github.com/danomagnum/gologix/l5x"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "L01",
		Rule: "each evaluation is one tag value, comment, rung comment or data type of a generated project compared with what was generated, or one damaged or incomplete document that must load or be refused without a crash; " +
			"non-trivial = distinct (shape, type, radix) or distinct damage",
		Assumptions: []string{"text stands in CDATA sections, as Studio 5000 writes it", "decorated data; arrays are flat lists in document order",
			"the bit number in the comment name of a BIT member and comments under a type's own name are not judged"},
		Cases:     l01Cases,
		MinEvents: []string{"values", "comments", "rung_comments", "types", "malformed", "damaged"},
	})
}

func l01Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{{Name: "export", Run: l01Export}, {Name: "numbers", Run: l01Numbers}, {Name: "sections", Run: l01Sections}}
	for i := 0; i < tiered(tier, 60, 1500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("project-%d", i), Run: l01Project})
		cs = append(cs, rt.Case{Name: fmt.Sprintf("damage-%d", i), Run: l01Damage})
	}
	return cs
}

type lMember struct {
	name, typ string
	sub       *lType
	dim       int
	desc      string
	target    string
	bit       int
	lead      bool // only BIT members are in front of it
}

type lType struct {
	name, desc string
	members    []lMember
}

type lGen struct {
	r        *rand.Rand
	types    []*lType
	tags     map[string]any
	comments map[string]string
	bits     map[string]string // name of a BIT member to its comment
	bitPos   map[string]int    // name of one of the BIT members a type begins with to its place among them
	extra    map[string]bool   // names that may be there as well
	rungs    map[string]string
	used     map[string]bool
	bad      bool
	shapes   map[string]bool
}

func newLGen(r *rand.Rand) *lGen {
	return &lGen{r: r, tags: map[string]any{}, comments: map[string]string{}, bits: map[string]string{}, bitPos: map[string]int{}, extra: map[string]bool{}, rungs: map[string]string{}, used: map[string]bool{}, shapes: map[string]bool{}}
}

func (g *lGen) name() string { return uniqueName(g.r, g.used, 1, 20) }

func (g *lGen) text() string {
	words := []string{"Pump", "'quoted'", "speed", "in %", "<min>", "a & b", "\"x\"", "Größe", "température", "№1", "line\nbreak", "it's", "100%", "]] >", "日本", "'", "0"}
	s := ""
	for n := 1 + g.r.IntN(4); n > 0; n-- {
		if s != "" {
			s += " "
		}
		s += words[g.r.IntN(len(words))]
	}
	return s
}

func cdata(s string) string { return "<![CDATA[" + s + "]]>" }

func (g *lGen) desc(s string) string {
	if s == "" {
		return ""
	}
	ws := []string{"", "\n", "\r\n  "}[g.r.IntN(3)]
	return "<Description>" + ws + cdata(s) + ws + "</Description>\n"
}

var lAtoms = []string{"BOOL", "SINT", "INT", "DINT", "LINT", "REAL"}

func esc(s string) string {
	var b strings.Builder
	xml.EscapeText(&b, []byte(s))
	return b.String()
}

// atom gives a value of a type as Studio 5000 displays it.
func (g *lGen) atom(typ string) (string, any, string) {
	r := g.r
	mk := func(v int64) any {
		switch typ {
		case "SINT":
			return int8(v)
		case "INT":
			return int16(v)
		case "DINT":
			return int32(v)
		}
		return v
	}
	bits := map[string]int{"SINT": 8, "INT": 16, "DINT": 32, "LINT": 64}[typ]
	switch typ {
	case "BOOL":
		v := r.IntN(2)
		g.shapes["BOOL"] = true
		return strconv.Itoa(v), v == 1, "Decimal"
	case "REAL":
		f := []float64{0, 1, -1, 0.1, 3.4028235e38, -1.1754944e-38, 123456.79, 2.5e-5, float64(float32(r.NormFloat64()))}[r.IntN(9)]
		if r.IntN(2) == 0 {
			s := strconv.FormatFloat(f, 'e', 8, 64)
			f, _ = strconv.ParseFloat(s, 64)
			g.shapes["REAL exponential"] = true
			return s, f, "Exponential"
		}
		g.shapes["REAL"] = true
		s := strconv.FormatFloat(f, 'f', -1, 64)
		return s, f, "Float"
	}
	var v int64
	switch r.IntN(3) {
	case 0:
		v = []int64{0, 1, -1, 1<<(bits-1) - 1, -1 << (bits - 1)}[r.IntN(5)]
	default:
		v = int64(r.Uint64()) << (64 - bits) >> (64 - bits)
	}
	mask := ^uint64(0) >> (64 - bits)
	group := func(s string, n int) string {
		o := ""
		for len(s) > n {
			o = "_" + s[len(s)-n:] + o
			s = s[:len(s)-n]
		}
		return s + o
	}
	switch r.IntN(8) {
	case 0:
		g.shapes[typ+" Hex"] = true
		return "16#" + group(fmt.Sprintf("%0*x", bits/4, uint64(v)&mask), 4), mk(v), "Hex"
	case 1:
		g.shapes[typ+" Binary"] = true
		return "2#" + group(fmt.Sprintf("%0*b", bits, uint64(v)&mask), 4), mk(v), "Binary"
	case 2:
		g.shapes[typ+" Octal"] = true
		return "8#" + group(fmt.Sprintf("%0*o", (bits+2)/3, uint64(v)&mask), 3), mk(v), "Octal"
	case 3:
		s := ""
		for i := bits - 8; i >= 0; i -= 8 {
			c := byte(v >> i)
			switch {
			case c == '$' || c == '\'':
				s += "$" + string(rune(c))
			case c == '\n':
				s += "$l"
			case c == '\r':
				s += "$r"
			case c == '\t':
				s += "$t"
			case c == '\f':
				s += "$p"
			case c > 0x20 && c < 0x7F:
				s += string(rune(c))
			default:
				s += fmt.Sprintf("$%02X", c)
			}
		}
		g.shapes[typ+" ASCII"] = true
		return "'" + s + "'", mk(v), "ASCII"
	}
	g.shapes[typ] = true
	return strconv.FormatInt(v, 10), mk(v), "Decimal"
}

func (g *lGen) makeTypes() string {
	r := g.r
	out := ""
	for i := r.IntN(6); i >= 0; i-- {
		t := &lType{name: "T" + g.name()}
		if r.IntN(2) == 0 {
			t.desc = g.text()
		}
		m := map[string]bool{}
		nb := 0
		x := ""
		lead := 0
		if r.IntN(4) == 0 {
			lead = 1 + r.IntN(64)
		}
		for k := lead + 1 + r.IntN(6); k > 0; k-- {
			mb := lMember{name: uniqueName(r, m, 1, 15), typ: lAtoms[r.IntN(len(lAtoms))]}
			if mb.typ == "BOOL" {
				mb.typ = "DINT"
			}
			c := r.IntN(6)
			if nb < lead {
				c = 1
			}
			mb.lead = nb == len(t.members) && nb < 64
			switch {
			case c == 0 && len(g.types) > 0:
				mb.sub = g.types[r.IntN(len(g.types))]
				mb.typ = mb.sub.name
			case c == 1:
				mb.typ = "BIT"
				mb.target = fmt.Sprintf("ZZZZZZZZZZ%s%d", t.name[:1], nb/8*9)
				mb.bit = nb % 8
				if nb%8 == 0 {
					x += fmt.Sprintf("<Member Name=%q DataType=\"SINT\" Dimension=\"0\" Radix=\"Decimal\" Hidden=\"true\"/>\n", mb.target)
				}
				nb++
			case c == 2:
				mb.dim = 1 + r.IntN(4)
			}
			if r.IntN(2) == 0 {
				mb.desc = g.text()
			}
			t.members = append(t.members, mb)
			att := ""
			if mb.typ == "BIT" {
				att = fmt.Sprintf(" Target=%q BitNumber=\"%d\"", mb.target, mb.bit)
			}
			x += fmt.Sprintf("<Member Name=%q DataType=%q Dimension=\"%d\" Radix=\"Decimal\" Hidden=\"false\"%s>\n%s</Member>\n", mb.name, mb.typ, mb.dim, att, g.desc(mb.desc))
		}
		out += fmt.Sprintf("<DataType Name=%q Family=\"NoFamily\" Class=\"User\">\n%s<Members>\n%s</Members>\n</DataType>\n", t.name, g.desc(t.desc), x)
		g.types = append(g.types, t)
	}
	return out
}

// structure renders a value of a type: the inner elements, and the value.
func (g *lGen) structure(t *lType, depth int) (string, map[string]any) {
	out := ""
	v := map[string]any{}
	for _, m := range t.members {
		switch {
		case m.sub != nil:
			x, sv := g.structure(m.sub, depth+1)
			out += fmt.Sprintf("<StructureMember Name=%q DataType=%q>\n%s</StructureMember>\n", m.name, m.typ, x)
			v[m.name] = sv
			g.shapes[fmt.Sprintf("nested %d", depth)] = true
		case m.dim > 0:
			x, av := g.array(m.typ, nil, []int{m.dim})
			out += fmt.Sprintf("<ArrayMember Name=%q DataType=%q Dimensions=\"%d\" Radix=\"Decimal\">\n%s</ArrayMember>\n", m.name, m.typ, m.dim, x)
			v[m.name] = av
		default:
			typ := m.typ
			if typ == "BIT" {
				typ = "BOOL"
			}
			s, val, radix := g.atom(typ)
			rx := fmt.Sprintf(" Radix=%q", radix)
			if typ == "BOOL" {
				rx = ""
			}
			out += fmt.Sprintf("<DataValueMember Name=%q DataType=%q%s Value=\"%s\"/>\n", m.name, typ, rx, esc(s))
			v[m.name] = val
		}
	}
	// a structure in a STRING form
	if g.r.IntN(6) == 0 && depth < 3 {
		txt := g.plain()
		n := "S" + g.name()
		out += fmt.Sprintf("<StructureMember Name=%q DataType=\"STRING\">\n<DataValueMember Name=\"LEN\" DataType=\"DINT\" Radix=\"Decimal\" Value=\"%d\"/>\n<DataValueMember Name=\"DATA\" DataType=\"STRING\" Radix=\"ASCII\">\n%s\n</DataValueMember>\n</StructureMember>\n", n, len(txt), cdata("'"+txt+"'"))
		v[n] = map[string]any{"LEN": int32(len(txt)), "DATA": txt}
		g.shapes["nested STRING"] = true
	}
	return out, v
}

func (g *lGen) plain() string {
	b := []byte{}
	for n := g.r.IntN(20); n > 0; n-- {
		b = append(b, "abcXYZ 019_-<>&\"#%$$"[g.r.IntN(19)])
	}
	return strings.TrimSpace(string(b))
}

func (g *lGen) array(typ string, st *lType, dims []int) (string, []any) {
	n := 1
	for _, d := range dims {
		n *= d
	}
	out := ""
	v := []any{}
	for i := 0; i < n; i++ {
		ix := indexText(dims, i)
		if st != nil {
			x, sv := g.structure(st, 1)
			out += fmt.Sprintf("<Element Index=%q>\n<Structure DataType=%q>\n%s</Structure>\n</Element>\n", ix, typ, x)
			v = append(v, sv)
			continue
		}
		s, val, _ := g.atom(typ)
		out += fmt.Sprintf("<Element Index=%q Value=\"%s\"/>\n", ix, esc(s))
		v = append(v, val)
	}
	return out, v
}

func joinText(a, b string) string {
	if a != "" && b != "" {
		return a + " " + b
	}
	return a + b
}

// typeComments is what a type says about its members: the description of the tag,
// then what the types on the way and the member say. Where they say nothing
// there is no comment of its own.
func (g *lGen) typeComments(t *lType, prefix, tagdesc, inherited string) {
	own := joinText(inherited, t.desc)
	g.extra[prefix+"."+t.name] = true
	for i, m := range t.members {
		if m.target != "" {
			g.extra[prefix+"."+m.target] = true
		}
		d := joinText(own, m.desc)
		full := ""
		if d != "" {
			full = joinText(tagdesc, d)
		}
		switch {
		case m.typ == "BIT":
			g.bits[prefix+"."+m.name] = full
			if m.lead {
				g.bitPos[prefix+"."+m.name] = i
			}
			continue
		case full != "":
			g.comments[prefix+"."+m.name] = full
		}
		if m.sub != nil {
			g.typeComments(m.sub, prefix+"."+m.name, tagdesc, d)
		}
	}
}

func (g *lGen) tagList(into map[string]any, prefix string) string {
	r := g.r
	out := "<Tags>\n"
	for k := r.IntN(12); k >= 0; k-- {
		name := g.name()
		typ := lAtoms[r.IntN(len(lAtoms))]
		att, dec, l5k := "", "", "<Data Format=\"L5K\">\n<![CDATA[[1,[2,3]]]]>\n</Data>\n"
		var st *lType
		if r.IntN(3) == 0 && len(g.types) > 0 {
			st = g.types[r.IntN(len(g.types))]
			typ = st.name
		}
		desc := ""
		if r.IntN(2) == 0 {
			desc = g.text()
		}
		format := "Decorated"
		switch c := r.IntN(10); {
		case c == 0:
			att = fmt.Sprintf(" AliasFor=%q", g.name())
			l5k = ""
			format = ""
			typ, st = "", nil
			g.shapes["alias"] = true
		case c == 1:
			format, typ, st, l5k = "Message", "MESSAGE", nil, ""
			dec = "<MessageParameters MessageType=\"Unconfigured\"/>"
			g.shapes["message"] = true
		case c == 2:
			txt := g.plain()
			format, typ, st = "String", "STRING", nil
			dec = cdata("'" + txt + "'")
			into[name] = txt
			g.shapes["string"] = true
		case c < 5:
			dims := randDims(r)
			if len(dims) == 0 {
				dims = []int{3}
			}
			for i := range dims {
				dims[i] = 1 + (dims[i]-1)%4
			}
			if st == nil && r.IntN(3) == 0 {
				dims = []int{1 + r.IntN(40)}
			}
			x, v := g.array(typ, st, dims)
			sp := strings.Trim(strings.ReplaceAll(fmt.Sprint(dims), " ", " "), "[]")
			att = fmt.Sprintf(" Dimensions=%q", sp)
			dec = fmt.Sprintf("<Array DataType=%q Dimensions=%q>\n%s</Array>\n", typ, strings.ReplaceAll(sp, " ", ","), x)
			into[name] = v
			g.shapes[fmt.Sprintf("array %d %v", len(dims), st != nil)] = true
		case st != nil:
			x, v := g.structure(st, 1)
			dec = fmt.Sprintf("<Structure DataType=%q>\n%s</Structure>\n", typ, x)
			into[name] = v
			g.shapes["structure"] = true
		default:
			s, v, radix := g.atom(typ)
			if g.bad && r.IntN(4) == 0 && typ != "REAL" {
				s = []string{"abc", "1x", "--1", "16#zz", "2#2", "99999999999999999999999", "'$zz'", "1,5"}[r.IntN(8)]
				g.shapes["malformed "+typ] = true
				g.tags["malformed"] = s
			}
			dec = fmt.Sprintf("<DataValue DataType=%q Radix=%q Value=\"%s\"/>\n", typ, radix, esc(s))
			into[name] = v
		}
		if desc != "" {
			g.comments[prefix+name] = desc
		}
		if st != nil {
			g.typeComments(st, prefix+name, desc, "")
		}
		com := ""
		if r.IntN(4) == 0 && format != "" {
			ops := map[string]bool{}
			for i := 1 + r.IntN(3); i > 0; i-- {
				op := []string{fmt.Sprintf(".%d", i), fmt.Sprintf("[%d]", i), fmt.Sprintf(".OP%d.%d", i, i), fmt.Sprintf(".Op%d[%d].x", i, i)}[r.IntN(4)]
				if st != nil && r.IntN(3) == 0 {
					// a comment on a member takes the place of what the type says about it.
					if m := st.members[r.IntN(len(st.members))]; m.typ != "BIT" {
						op = "." + m.name
					}
				}
				txt := g.text()
				if ops[op] {
					continue
				}
				ops[op] = true
				g.comments[prefix+name+op] = txt
				com += fmt.Sprintf("<Comment Operand=%q>\n%s\n</Comment>\n", op, cdata(txt))
			}
			com = "<Comments>\n" + com + "</Comments>\n"
		}
		if typ != "" && (st != nil || format == "" || !strings.HasPrefix(dec, "<DataValue ") || r.IntN(8) > 0) {
			att += fmt.Sprintf(" DataType=%q", typ)
		}
		out += fmt.Sprintf("<Tag Name=%q TagType=\"Base\"%s Constant=\"false\">\n%s%s", name, att, g.desc(desc), com)
		data := ""
		if format != "" {
			data = fmt.Sprintf("<Data Format=%q>\n%s\n</Data>\n", format, dec)
		}
		if r.IntN(8) == 0 {
			l5k = ""
		}
		out += l5k + data + "</Tag>\n"
	}
	return out + "</Tags>\n"
}

func (g *lGen) project() string {
	r := g.r
	types := g.makeTypes()
	mods := ""
	for i := r.IntN(4); i > 0; i-- {
		n := g.name()
		conn := ""
		for _, d := range []string{"Input", "Output"} {
			if r.IntN(3) == 0 {
				continue
			}
			com := ""
			for k := 0; k < r.IntN(4); k++ {
				op := fmt.Sprintf(".DATA[%d].%d", k, r.IntN(32))
				txt := g.text()
				com += fmt.Sprintf("<Comment Operand=%q>\n%s\n</Comment>\n", op, cdata(txt))
				g.comments[n+":"+d[:1]+op] = txt
			}
			conn += fmt.Sprintf("<%sTag ExternalAccess=\"Read/Write\">\n<Comments>\n%s</Comments>\n<Data Format=\"L5K\">\n<![CDATA[[1]]]>\n</Data>\n</%sTag>\n", d, com, d)
		}
		inner := ""
		switch r.IntN(4) {
		case 0:
		case 1:
			inner = "<Communications/>"
		default:
			inner = "<Communications><Connections><Connection Name=\"C\" RPI=\"2000\">" + conn + "</Connection></Connections></Communications>"
			conn = ""
		}
		if conn != "" {
			for k := range g.comments {
				if strings.HasPrefix(k, n+":") {
					delete(g.comments, k)
				}
			}
		}
		mods += fmt.Sprintf("<Module Name=%q CatalogNumber=\"1756\">%s</Module>\n", n, inner)
	}
	ctags := g.tagList(g.tags, "")
	progs, tasks := "", ""
	taskOf := map[string]string{}
	pn := []string{}
	for i := r.IntN(4); i > 0; i-- {
		pn = append(pn, g.name())
	}
	for i := r.IntN(3); i > 0; i-- {
		tn := g.name()
		sched := ""
		for _, p := range pn {
			if r.IntN(2) == 0 && taskOf[p] == "" {
				taskOf[p] = tn
				sched += fmt.Sprintf("<ScheduledProgram Name=%q/>\n", p)
			}
		}
		if r.IntN(4) > 0 || sched != "" {
			sched = "<ScheduledPrograms>\n" + sched + "</ScheduledPrograms>\n"
		}
		tasks += fmt.Sprintf("<Task Name=%q Type=\"CONTINUOUS\">\n%s</Task>\n", tn, sched)
	}
	for _, p := range pn {
		pt := map[string]any{}
		body := ""
		if r.IntN(5) > 0 {
			body = g.tagList(pt, "program:"+p+".")
		}
		g.tags["program:"+p] = pt
		rout := ""
		for k := r.IntN(3); k > 0; k-- {
			rn := g.name()
			rungs := ""
			// an export of some rungs keeps their numbers.
			skip := max(0, r.IntN(40)-20)
			for q := skip; q < skip+r.IntN(5); q++ {
				c := ""
				if r.IntN(2) == 0 {
					txt := g.text()
					c = "<Comment>\n" + cdata(txt) + "\n</Comment>\n"
					g.rungs[fmt.Sprintf("%s/%s/%s[%d]", taskOf[p], p, rn, q)] = txt
				}
				rungs += fmt.Sprintf("<Rung Number=\"%d\" Type=\"N\">\n%s<Text>\n<![CDATA[NOP();]]>\n</Text>\n</Rung>\n", q, c)
			}
			rout += fmt.Sprintf("<Routine Name=%q Type=\"RLL\">\n<RLLContent>\n%s</RLLContent>\n</Routine>\n", rn, rungs)
		}
		if rout != "" || r.IntN(2) == 0 {
			rout = "<Routines>\n" + rout + "</Routines>\n"
		}
		progs += fmt.Sprintf("<Program Name=%q>\n%s%s</Program>\n", p, body, rout)
	}
	opt := func(tag, body string) string {
		if body == "" && r.IntN(2) == 0 {
			return ""
		}
		return "<" + tag + ">\n" + body + "</" + tag + ">\n"
	}
	return "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<RSLogix5000Content SchemaRevision=\"1.0\" SoftwareRevision=\"35.00\" TargetName=\"X\">\n<Controller Use=\"Target\" Name=\"X\">\n" +
		opt("DataTypes", types) + opt("Modules", mods) + ctags + opt("Programs", progs) + opt("Tasks", tasks) + "</Controller>\n</RSLogix5000Content>\n"
}

func l01Parse(t *rt.T, doc string) (p l5x.RSLogix5000Content, err error) {
	t.Guard("xml", func() { err = xml.Unmarshal([]byte(doc), &p) })
	return p, err
}

func l01Project(t *rt.T) {
	for i := 0; i < 12; i++ {
		g := newLGen(t.R)
		doc := g.project()
		p, err := l01Parse(t, doc)
		if err != nil {
			t.Fail("generator", "the generated document does not parse: %v", err)
			return
		}
		l01Judge(t, g, p, doc)
		// malformed values
		b := newLGen(t.R)
		b.bad = true
		doc = b.project()
		if _, ok := b.tags["malformed"]; ok {
			p, err := l01Parse(t, doc)
			if err != nil {
				continue
			}
			t.Guard("loadtags", func() { _, err = l5x.LoadTags(p) })
			t.Count("malformed", 1)
			if err == nil {
				t.Fail("malformed", "a tag with the value %q is loaded without an error", b.tags["malformed"])
			}
			t.Eval(fmt.Sprintf("malformed %v", b.tags["malformed"]))
		}
	}
}

func l01Judge(t *rt.T, g *lGen, p l5x.RSLogix5000Content, doc string) {
	var tags map[string]any
	var err error
	t.Guard("loadtags", func() { tags, err = l5x.LoadTags(p) })
	if err != nil {
		t.Fail("tags-error", "LoadTags: %v", err)
	} else {
		l01Diff(t, "tags", "", tags, g.tags)
	}
	var com map[string]string
	t.Guard("loadcomments", func() { com, err = l5x.LoadTagComments(p) })
	if err != nil {
		t.Fail("comments-error", "LoadTagComments: %v", err)
	} else {
		for k, want := range g.comments {
			t.Count("comments", 1)
			if got, ok := com[k]; !ok || got != want {
				t.Fail("comment", "the comment of %s is %q (%v), the document says %q", k, got, ok, want)
			}
		}
		seen := map[string]int{}
		for k, v := range com {
			if _, ok := g.comments[k]; ok || v == "" || g.extra[k] {
				continue
			}
			if m := bitName.FindStringSubmatch(k); m != nil {
				if want, ok := g.bits[m[1]]; ok {
					seen[m[1]]++
					if v != want {
						t.Fail("bit-comment", "the comment of %s is %q, the document says %q", k, v, want)
					}
					if pos, ok := g.bitPos[m[1]]; ok {
						t.Count("bit_positions", 1)
						if m[2] != strconv.Itoa(pos) {
							t.Fail("bit-position", "the comment of BIT member %d of a structure that begins with them is under the name %s", pos, k)
						}
					}
					continue
				}
			}
			t.Fail("comment-extra", "LoadTagComments gives %s the comment %q, which is not in the document", k, v)
		}
		for k, v := range g.bits {
			t.Count("comments", 1)
			if v != "" && seen[k] != 1 {
				t.Fail("bit-comment", "the comment %q of the BIT member %s comes %d times", v, k, seen[k])
			}
		}
	}
	var rungs map[string]string
	t.Guard("loadrungs", func() { rungs, err = l5x.LoadRungComments(p) })
	t.Count("rung_comments", len(g.rungs))
	if err != nil || !reflect.DeepEqual(rungs, g.rungs) {
		t.Fail("rungs", "LoadRungComments gives %q (%v), the document has %q", rungs, err, g.rungs)
	}
	var types map[string]*l5x.DataTypeType
	t.Guard("types", func() { types = l5x.GetDataTypeMap(p) })
	if len(types) != len(g.types) {
		t.Fail("types", "GetDataTypeMap gives %d types, the document has %d", len(types), len(g.types))
	}
	for _, ty := range g.types {
		t.Count("types", 1)
		d := types[ty.name]
		if d == nil || d.NameAttr != ty.name || d.Members == nil {
			t.Fail("types", "GetDataTypeMap has no %s", ty.name)
			continue
		}
		seen := 0
		for _, m := range d.Members.Member {
			if m.HiddenAttr == "true" {
				continue
			}
			if seen < len(ty.members) && (m.NameAttr != ty.members[seen].name || m.DataTypeAttr != ty.members[seen].typ) {
				t.Fail("types", "member %d of %s is %s %s, the document has %s %s", seen, ty.name, m.NameAttr, m.DataTypeAttr, ty.members[seen].name, ty.members[seen].typ)
			}
			seen++
		}
		if seen != len(ty.members) {
			t.Fail("types", "%s has %d members, the document has %d", ty.name, seen, len(ty.members))
		}
	}
	for s := range g.shapes {
		t.Eval(s)
	}
}

var bitName = regexp.MustCompile(`^(.*)<(-?\d+)>$`)

func l01Diff(t *rt.T, sig, at string, got, want any) {
	switch w := want.(type) {
	case map[string]any:
		g, ok := got.(map[string]any)
		if !ok {
			t.Fail(sig+":shape", "%s is a %T, the document has a structure", at, got)
			return
		}
		for k, v := range w {
			x, ok := g[k]
			if !ok {
				t.Fail(sig+":missing", "%s.%s is not loaded (want %v)", at, k, v)
				continue
			}
			l01Diff(t, sig, at+"."+k, x, v)
		}
		for k := range g {
			if _, ok := w[k]; !ok {
				t.Fail(sig+":extra", "%s.%s is loaded as %v and not in the document", at, k, g[k])
			}
		}
	case []any:
		g, ok := got.([]any)
		if !ok || len(g) != len(w) {
			t.Fail(sig+":shape", "%s is %T %v, the document has %d elements", at, got, got, len(w))
			return
		}
		for i := range w {
			l01Diff(t, sig, fmt.Sprintf("%s[%d]", at, i), g[i], w[i])
		}
	default:
		t.Count("values", 1)
		if f, ok := want.(float64); ok {
			switch x := got.(type) {
			case float64:
				if x == f || math.IsNaN(x) && math.IsNaN(f) {
					return
				}
			case float32:
				if x == float32(f) {
					return
				}
			}
		}
		if got != want {
			t.Fail(sig+":value", "%s is loaded as %T %v, the document has %T %v", at, got, got, want, want)
		}
	}
}

// l01Numbers: the values of atomic types, one by one, including what is not one.
func l01Numbers(t *rt.T) {
	g := newLGen(t.R)
	for i := 0; i < 3000; i++ {
		typ := lAtoms[t.R.IntN(len(lAtoms))]
		s, want, _ := g.atom(typ)
		var got any
		var err error
		t.Guard("togo", func() { got, err = l5x.L5xTypeToGoType(typ, s) })
		if err != nil {
			t.Fail("number-error", "%s %q: %v", typ, s, err)
			continue
		}
		l01Diff(t, "number", typ+" "+s, got, want)
	}
	for s := range g.shapes {
		t.Eval("number " + s)
	}
	for _, x := range []struct {
		typ, s string
		want   any
	}{
		{"REAL", "1.#QNAN", math.NaN()}, {"REAL", "-1.#QNAN", math.NaN()}, {"REAL", "1.#SNAN", math.NaN()}, {"REAL", "-1.#IND", math.NaN()}, {"REAL", "1.#INF", math.Inf(1)}, {"REAL", "-1.#INF", math.Inf(-1)},
		{"LREAL", "1.5", 1.5}, {"USINT", "255", uint8(255)}, {"UINT", "65535", uint16(65535)}, {"UDINT", "4294967295", uint32(4294967295)}, {"ULINT", "18446744073709551615", uint64(18446744073709551615)},
		{"BIT", "1", true}, {"BOOL", "2#1", true}, {"STRING", "abc", "abc"}, {"DINT", "16#ffff_ffff", int32(-1)}, {"SINT", "'$00'", int8(0)}, {"SINT", "2#1111_1111", int8(-1)},
	} {
		var got any
		var err error
		t.Guard("togo", func() { got, err = l5x.L5xTypeToGoType(x.typ, x.s) })
		if err != nil {
			t.Fail("number-error", "%s %q: %v", x.typ, x.s, err)
			continue
		}
		l01Diff(t, "number", x.typ+" "+x.s, got, x.want)
		t.Eval(x.typ + x.s)
	}
	for _, x := range [][2]string{{"DINT", ""}, {"DINT", "x"}, {"DINT", "1.5"}, {"DINT", "2147483648"}, {"DINT", "-2147483649"}, {"SINT", "128"}, {"SINT", "-129"}, {"INT", "32768"}, {"LINT", "9223372036854775808"},
		{"SINT", "16#100"}, {"INT", "16#"}, {"DINT", "2#012"}, {"DINT", "8#9"}, {"REAL", ""}, {"REAL", "1,5"}, {"REAL", "x"}, {"BOOL", "2"}, {"BOOL", ""}, {"BIT", "yes"}, {"SINT", "'ab'"}, {"SINT", "'$'"}, {"SINT", "'"}, {"DINT", "0x10"}, {"DINT", "1e3"}, {"DINT", " 1"}, {"UDINT", "4294967296"}} {
		var got any
		var err error
		t.Guard("togo", func() { got, err = l5x.L5xTypeToGoType(x[0], x[1]) })
		t.Count("malformed", 1)
		if err == nil {
			t.Fail("malformed-number", "the %s %q is read as %v", x[0], x[1], got)
		}
		t.Eval("malformed " + x[0] + x[1])
	}
}

// l01All runs every loader and expects no crash.
func l01All(t *rt.T, p l5x.RSLogix5000Content, what string) {
	t.Guard("loadtags:"+what, func() { l5x.LoadTags(p) })
	t.Guard("loadcomments:"+what, func() { l5x.LoadTagComments(p) })
	t.Guard("loadrungs:"+what, func() { l5x.LoadRungComments(p) })
	t.Guard("types:"+what, func() {
		m := l5x.GetDataTypeMap(p)
		for n := range m {
			l5x.GetTypeComments(m, n)
		}
	})
	t.Count("damaged", 1)
}

// l01Sections: every optional section missing or empty.
func l01Sections(t *rt.T) {
	l01All(t, nil, "nil")
	l01All(t, &l5x.ProjectType{}, "empty")
	secs := []string{"DataTypes", "Modules", "Tags", "Programs", "Tasks"}
	for m := 0; m < 243; m++ {
		body, k := "", m
		want := map[string]any{}
		for _, s := range secs {
			switch k % 3 {
			case 1:
				body += "<" + s + "/>"
			case 2:
				switch s {
				case "Programs":
					body += `<Programs><Program Name="P"/></Programs>`
					want["program:P"] = map[string]any{}
				case "Tags":
					body += `<Tags><Tag Name="A" DataType="DINT"><Data Format="L5K"/><Data Format="Decorated"><DataValue DataType="DINT" Value="7"/></Data></Tag><Tag Name="B"/></Tags>`
					want["A"] = int32(7)
				case "DataTypes":
					body += `<DataTypes><DataType Name="T"/><DataType Name="U"><Members/></DataType></DataTypes>`
				case "Modules":
					body += `<Modules><Module Name="M"><Communications><Connections/></Communications></Module><Module Name="N"><Communications><Connections><Connection/></Connections></Communications></Module></Modules>`
				case "Tasks":
					body += `<Tasks><Task Name="K"/></Tasks>`
				}
			}
			k /= 3
		}
		p, err := l01Parse(t, "<RSLogix5000Content><Controller>"+body+"</Controller></RSLogix5000Content>")
		if err != nil {
			t.Fail("generator", "%s: %v", body, err)
			continue
		}
		l01All(t, p, "section")
		var got map[string]any
		t.Guard("loadtags", func() { got, err = l5x.LoadTags(p) })
		if err != nil {
			t.Fail("section-error", "LoadTags of %s: %v", body, err)
		} else {
			l01Diff(t, "section", "", got, want)
		}
		t.Eval(fmt.Sprintf("sections %d", m))
	}
	// types that contain themselves, odd targets
	for _, body := range []string{
		`<DataTypes><DataType Name="T"><Members><Member Name="M" DataType="T"/></Members></DataType></DataTypes>`,
		`<DataTypes><DataType Name="T"><Members><Member Name="M" DataType="U"/></Members></DataType><DataType Name="U"><Members><Member Name="M" DataType="T"/><Member Name="N" DataType="T"/></Members></DataType></DataTypes>`,
		`<DataTypes><DataType Name="T"><Members><Member Name="M" DataType="BIT"/><Member Name="N" DataType="BIT" Target="Z"/><Member Name="O" DataType="BIT" Target="9" BitNumber="3"/></Members></DataType></DataTypes>`,
	} {
		p, err := l01Parse(t, "<RSLogix5000Content><Controller>"+body+`<Tags><Tag Name="X" DataType="T"><Description><![CDATA[d]]></Description></Tag></Tags></Controller></RSLogix5000Content>`)
		if err != nil {
			t.Fail("generator", "%v", err)
			continue
		}
		t.Within(20e9, "recursive-type", func() { l01All(t, p, "recursive") })
		t.Eval(body)
	}
}

var (
	elemRe = regexp.MustCompile(`<[A-Z][A-Za-z0-9]*`)
	attRe  = regexp.MustCompile(`[A-Za-z]+="[^"]*"`)
)

// l01Damage: documents with elements or attributes removed, emptied, repeated or changed.
func l01Damage(t *rt.T) {
	r := t.R
	g := newLGen(r)
	base := g.project()
	for i := 0; i < 60; i++ {
		doc := base
		what := ""
		for n := 1 + r.IntN(3); n > 0; n-- {
			switch r.IntN(5) {
			case 0: // rename an element (and so hide it)
				m := elemRe.FindAllString(doc, -1)
				if len(m) == 0 {
					continue
				}
				e := m[r.IntN(len(m))][1:]
				doc = strings.ReplaceAll(strings.ReplaceAll(doc, "<"+e+">", "<Zz>"), "<"+e+" ", "<Zz ")
				doc = strings.ReplaceAll(strings.ReplaceAll(doc, "</"+e+">", "</Zz>"), "<"+e+"/>", "<Zz/>")
				what = "no " + e
			case 1:
				m := attRe.FindAllStringIndex(doc, -1)
				if len(m) == 0 {
					continue
				}
				x := m[r.IntN(len(m))]
				what = "no " + doc[x[0]:x[1]]
				doc = doc[:x[0]] + doc[x[1]:]
			case 2:
				m := attRe.FindAllStringIndex(doc, -1)
				if len(m) == 0 {
					continue
				}
				x := m[r.IntN(len(m))]
				a := doc[x[0]:x[1]]
				k := strings.IndexByte(a, '=')
				v := []string{"", "0", "-1", "99999999999999999999", "STRING", "BIT", "Z", "'", "16#"}[r.IntN(9)]
				doc = doc[:x[0]] + a[:k] + "=\"" + v + "\"" + doc[x[1]:]
				what = a[:k] + "=" + v
			case 3: // cut out a balanced element
				m := elemRe.FindAllStringIndex(doc, -1)
				if len(m) == 0 {
					continue
				}
				x := m[r.IntN(len(m))]
				e := doc[x[0]+1 : x[1]]
				if end := strings.Index(doc[x[0]:], "</"+e+">"); end > 0 {
					doc = doc[:x[0]] + doc[x[0]+end+len(e)+3:]
					what = "cut " + e
				}
			case 4:
				k := r.IntN(len(doc))
				doc = doc[:k] + string(rune(32+r.IntN(90))) + doc[k+1:]
				what = "byte"
			}
		}
		p, err := l01Parse(t, doc)
		if err != nil {
			t.Count("unparsable", 1)
		}
		l01All(t, p, "damaged")
		t.Eval(what)
	}
}

// l01Export: the project in the repository, against a plain reading of its XML.
func l01Export(t *rt.T) {
	b, err := os.ReadFile("/repo/tests/gologix_tests_Program.L5X")
	if err != nil {
		t.Sample(fmt.Sprintf("no export: %v", err))
		return
	}
	type node struct {
		XMLName xml.Name
		Attrs   []xml.Attr `xml:",any,attr"`
		Nodes   []node     `xml:",any"`
		Text    string     `xml:",chardata"`
	}
	attr := func(n node, k string) string {
		for _, a := range n.Attrs {
			if a.Name.Local == k {
				return a.Value
			}
		}
		return ""
	}
	var root node
	if err := xml.Unmarshal(b, &root); err != nil {
		t.Fail("generator", "%v", err)
		return
	}
	kids := func(n node, names ...string) []node {
		cur := []node{n}
		for _, nm := range names {
			next := []node{}
			for _, c := range cur {
				for _, k := range c.Nodes {
					if k.XMLName.Local == nm {
						next = append(next, k)
					}
				}
			}
			cur = next
		}
		return cur
	}
	p, err := l01Parse(t, string(b))
	if err != nil {
		t.Fail("export", "%v", err)
		return
	}
	var tags map[string]any
	t.Guard("loadtags", func() { tags, err = l5x.LoadTags(p) })
	if err != nil {
		t.Fail("export", "LoadTags: %v", err)
		return
	}
	check := func(where string, into map[string]any, ts []node) {
		n := 0
		for _, tg := range ts {
			name := attr(tg, "Name")
			dv := kids(tg, "Data", "DataValue")
			if len(dv) == 1 {
				n++
				if got := fmt.Sprint(into[name]); got != attr(dv[0], "Value") && !(attr(dv[0], "Value") == "1" && got == "true") && !(attr(dv[0], "Value") == "0" && got == "false") {
					if f, err := strconv.ParseFloat(attr(dv[0], "Value"), 64); err != nil || into[name] != f {
						t.Fail("export", "%s%s is loaded as %v, the export has %s", where, name, into[name], attr(dv[0], "Value"))
					}
				}
				t.Count("values", 1)
				t.Eval("export " + name)
			}
			if ar := kids(tg, "Data", "Array"); len(ar) == 1 {
				n++
				if l, ok := into[name].([]any); !ok || len(l) != len(kids(ar[0], "Element")) {
					t.Fail("export", "%s%s is loaded as %T, the export has %d elements", where, name, into[name], len(kids(ar[0], "Element")))
				}
			}
			if st := kids(tg, "Data", "Structure"); len(st) == 1 {
				n++
				if m, ok := into[name].(map[string]any); !ok || len(m) != len(st[0].Nodes) {
					t.Fail("export", "%s%s is loaded as %v, the export has %d members", where, name, into[name], len(st[0].Nodes))
				}
			}
		}
		for k := range into {
			found := strings.HasPrefix(k, "program:")
			for _, tg := range ts {
				found = found || attr(tg, "Name") == k
			}
			if !found {
				t.Fail("export", "%s%s is not in the export", where, k)
			}
		}
	}
	check("", tags, kids(root, "Controller", "Tags", "Tag"))
	for _, pr := range kids(root, "Controller", "Programs", "Program") {
		m, _ := tags["program:"+attr(pr, "Name")].(map[string]any)
		check("program:"+attr(pr, "Name")+".", m, kids(pr, "Tags", "Tag"))
	}
	l01All(t, p, "export")
}
