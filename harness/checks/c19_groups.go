package checks

import (
	"fmt"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C19",
		Rule: "each evaluation is one definition of a tag group that is read for one list of arguments (ReadTagGroup, or AddTagGroup and ReadAllTyped of a data table buffer), its key compared with an independent expansion of the template and its value with the controller model's memory, or one typed accessor compared with the type of the value; " +
			"non-trivial = distinct (how read, type, element class, dimensions, placeholders in the name, argument kinds) or (accessor, type)",
		Assumptions: []string{"two definitions of one group do not expand to the same name", "multi-element values may be delivered as a typed slice or as []any", "Uint32 also takes an int32 (documented)"},
		Cases:       c19Cases,
		Races:       true,
		MinEvents:   []string{"values", "expanded", "accessors", "wrong_accessors", "literal_args", "buffer_groups", "shared_reads", "unresolved"},
	})
}

func c19Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 1500, 12000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("groups-%d", i), Run: c19Groups})
	}
	for i := 0; i < tiered(tier, 500, 4000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("literal-%d", i), Run: c19Literal})
	}
	for i := 0; i < tiered(tier, 100, 600); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("shared-%d", i), Run: c19Shared})
	}
	return cs
}

// stringer is an argument that is not a basic type.
type stringer struct{ s string }

func (s stringer) String() string { return s.s }

// gdef is one definition with the place it means for its arguments.
type gdef struct {
	def   gologix.TagDef
	name  string // expanded
	tag   *plc.Tag
	base  int // byte offset of the member
	off   int // first element
	n     int
	bit   int
	typ   byte // plc code; STRUCT: STRING
	style string
}

func (g gdef) want(w *world) any {
	mem := w.p.Peek(g.tag.Name)[g.base:]
	switch {
	case g.bit >= 0:
		o := g.off * plc.Size(g.tag.Type)
		return mem[o+g.bit/8]>>(g.bit%8)&1 == 1
	case g.typ == plc.STRUCT:
		l := make([]string, g.n)
		for i := range l {
			l[i] = plc.GetString(mem[88*(g.off+i):])
		}
		if g.def.Elements > 1 {
			return l
		}
		return l[0]
	}
	sz := plc.Size(g.typ)
	if g.def.Elements > 1 {
		return goSlice(g.typ, mem[g.off*sz:(g.off+g.n)*sz]).Interface()
	}
	return plc.Value(g.typ, mem[g.off*sz:])
}

func cipOf(code byte) gologix.CIPType {
	if code == plc.STRUCT {
		return gologix.CIPTypeSTRING
	}
	return gologix.CIPType(code)
}

// template replaces parts of a name by placeholders and returns the arguments.
func template(r *rand.Rand, name string, args []any, max int) (string, []any, int) {
	n := 0
	for k := r.IntN(4); k > 0 && len(args) < max; k-- {
		// one of the pieces that are not placeholders yet
		a := r.IntN(len(name))
		b := a + 1 + r.IntN(min(len(name)-a, 6))
		if strings.ContainsAny(name[a:b], "{}") || strings.Count(name[:a], "{") != strings.Count(name[:a], "}") {
			continue
		}
		piece := name[a:b]
		var arg any = piece
		if v, e := strconv.Atoi(piece); e == nil && strconv.Itoa(v) == piece {
			arg = []any{v, int64(v), uint16(v), piece, float64(v), byte(v)}[r.IntN(6)]
			if fmt.Sprint(arg) != piece {
				arg = v
			}
		} else if r.IntN(4) == 0 {
			arg = stringer{piece}
		}
		ph := len(args)
		args = append(args, arg)
		// an argument used before can be used again
		name = name[:a] + fmt.Sprintf("{%d}", ph) + name[b:]
		n++
	}
	return name, args, n
}

// group draws definitions over the tags of a world, all for the same arguments.
func (w *world) group(n, limit int, buffer bool) ([]gdef, []any) {
	r := w.r
	args := []any{}
	defs := []gdef{}
	seen := map[string]bool{}
	tags := w.p.TagList()
	for try := 0; len(defs) < n && try < 50*n; try++ {
		tg := tags[r.IntN(len(tags))]
		g := gdef{tag: tg, bit: -1, n: 1, typ: tg.Type}
		g.name = tg.Name
		if r.IntN(3) == 0 {
			g.name = recase(r, g.name)
		}
		if tg.Type == plc.STRUCT && tg.UDT != plc.StringUDT {
			// a member, maybe of an element, maybe an array
			if len(tg.Dims) > 0 {
				e := r.IntN(tg.Elems())
				g.name += indexText(tg.Dims, e)
				g.base = e * tg.UDT.Size
			}
			m := tg.UDT.Members[r.IntN(len(tg.UDT.Members))]
			g.name += "." + m.Name
			g.base += m.Offset
			g.typ = m.Type
			if m.Len > 0 {
				g.off = r.IntN(m.Len)
				g.n = 1 + r.IntN(m.Len-g.off)
				if r.IntN(3) == 0 {
					g.off = 0
				} else {
					g.name += fmt.Sprintf("[%d]", g.off)
				}
			}
			g.style = "member "
		} else if len(tg.Dims) > 0 {
			last := tg.Dims[len(tg.Dims)-1]
			lin := r.IntN(tg.Elems())
			room := last - lin%last
			if r.IntN(3) > 0 {
				g.n = 1 + r.IntN(room)
				if r.IntN(3) == 0 {
					g.n = room
				}
			}
			if len(tg.Dims) == 1 && r.IntN(5) == 0 {
				// no index: from the first element on
				g.n = min(1+r.IntN(last), last)
				lin = 0
			} else {
				g.name += indexText(tg.Dims, lin)
			}
			g.off = lin
		}
		if tg.Type != plc.STRUCT && tg.Type != plc.BOOL && tg.Type != plc.REAL && tg.Type != plc.LREAL && !buffer && r.IntN(8) == 0 {
			g.n = 1
			g.bit = r.IntN(8 * plc.Size(tg.Type))
			g.name += fmt.Sprintf(".%d", g.bit)
			g.typ = plc.BOOL
		}
		if sz := 88; tg.UDT == plc.StringUDT && g.n*sz > limit || g.typ != plc.STRUCT && g.bit < 0 && g.n*plc.Size(g.typ) > limit {
			continue
		}
		if seen[strings.ToLower(g.name)] {
			continue
		}
		if buffer {
			// no element twice: values are kept by name
			dup := false
			for _, o := range defs {
				if o.tag == tg && o.base == g.base && (g.off < o.off+o.n && o.off < g.off+g.n) {
					dup = true
				}
			}
			if dup {
				continue
			}
		}
		seen[strings.ToLower(g.name)] = true
		g.def.Type = cipOf(g.typ)
		g.def.Elements = g.n
		if g.n == 1 && r.IntN(2) == 0 {
			g.def.Elements = []int{0, -1, 1}[r.IntN(3)]
		}
		k := 0
		g.def.Name, args, k = template(r, g.name, args, 14)
		g.style += fmt.Sprintf("%s%s dims=%d ph=%d", plc.TypeName(g.typ), class(g.n), len(tg.Dims), k)
		defs = append(defs, g)
	}
	if r.IntN(3) == 0 {
		args = append(args, "spare", 7)
	}
	return defs, args
}

func groupWorld(t *rt.T) *world {
	w := newWorld(t)
	r := t.R
	for _, a := range atoms {
		w.addAtomic(a.Code)
		if a.Code != plc.BOOL {
			w.addArray(a.Code, randDims(r)...)
		}
	}
	w.addString()
	w.addStringArray(2 + r.IntN(4))
	u := &plc.UDT{Name: "Station", ID: 0x345, Handle: 0x9ABC, Members: []plc.Member{
		{Name: "Count", Type: plc.DINT}, {Name: "Values", Type: plc.REAL, Len: 6, Offset: 4}, {Name: "Codes", Type: plc.INT, Len: 5, Offset: 28}, {Name: "Level", Type: plc.LREAL, Offset: 40}}, Size: 48}
	w.p.Lock()
	w.p.UDTs[u.ID] = u
	w.p.Programs = append(w.p.Programs, &plc.Program{ID: 77, Name: "Main"})
	w.p.Unlock()
	for _, dims := range [][]int{nil, {4}, {2, 3}} {
		tg := &plc.Tag{Name: w.name(), Type: plc.STRUCT, UDT: u, Dims: dims}
		tg.Data = make([]byte, 48*tg.Elems())
		w.p.Add(tg)
	}
	w.p.Add(&plc.Tag{Name: "Program:Main." + w.name(), Type: plc.DINT, Dims: []int{3, 7}, Data: make([]byte, 84)})
	w.p.Add(&plc.Tag{Name: "Program:Main." + w.name(), Type: plc.REAL, Data: make([]byte, 4)})
	w.freshen()
	return w
}

func (w *world) freshen() {
	for _, tg := range w.p.TagList() {
		if tg.Type == plc.STRUCT && tg.UDT != plc.StringUDT {
			w.p.Poke(tg.Name, 0, randBytes(w.r, len(tg.Data)))
			continue
		}
		if tg.Type == plc.STRUCT {
			b := make([]byte, len(tg.Data))
			for i := 0; i < len(b); i += 88 {
				plc.PutString(b[i:], randString(w.r, 82))
			}
			w.p.Poke(tg.Name, 0, b)
			continue
		}
		w.p.Poke(tg.Name, 0, randData(w.r, tg.Type, tg.Elems()))
	}
}

func tagDefs(defs []gdef) []gologix.TagDef {
	out := []gologix.TagDef{}
	for _, d := range defs {
		out = append(out, d.def)
	}
	return out
}

func c19Judge(t *rt.T, w *world, how string, res *gologix.TagGroupResult, defs []gdef, wants []any, args []any) {
	if len(res.Raw()) != len(defs) {
		t.Fail("keys", "%s of %d definitions with arguments %v gave %d values: %v", how, len(defs), args, len(res.Raw()), rt.SortedKeys(res.Raw()))
		return
	}
	for i, d := range defs {
		v, err := res.Value(d.name)
		if err != nil {
			t.Fail("keys", "%s: definition %+v with arguments %v: %v; there is %v", how, d.def, args, err, rt.SortedKeys(res.Raw()))
			return
		}
		t.Eval(how + " " + d.style)
		t.Count("values", 1)
		if d.def.Elements > 1 {
			t.Count("expanded", 1)
		}
		if !sameList(v, wants[i]) {
			t.Fail("value", "%s: definition %+v with arguments %v (%s) gave %s, the controller has %s", how, d.def, args, d.name, show(v), show(wants[i]))
			return
		}
		c19Access(t, res, d, wants[i])
	}
}

// c19Access uses every typed accessor on a value.
func c19Access(t *rt.T, res *gologix.TagGroupResult, d gdef, want any) {
	type acc struct {
		name string
		get  func(string) (any, error)
		typ  reflect.Type
	}
	accs := []acc{
		{"String", func(n string) (any, error) { return res.String(n) }, tStr},
		{"Bool", func(n string) (any, error) { return res.Bool(n) }, tBool},
		{"Int16", func(n string) (any, error) { return res.Int16(n) }, tI16},
		{"Int32", func(n string) (any, error) { return res.Int32(n) }, tI32},
		{"Uint32", func(n string) (any, error) { return res.Uint32(n) }, tU32},
		{"Float32", func(n string) (any, error) { return res.Float32(n) }, tF32},
		{"Float64", func(n string) (any, error) { return res.Float64(n) }, tF64},
		{"Int32Slice", func(n string) (any, error) { return res.Int32Slice(n) }, reflect.SliceOf(tI32)},
		{"Float32Slice", func(n string) (any, error) { return res.Float32Slice(n) }, reflect.SliceOf(tF32)},
	}
	for _, a := range accs {
		var v any
		var err error
		if !t.Guard(a.name, func() { v, err = a.get(d.name) }) {
			return
		}
		w := want
		fits := reflect.TypeOf(want) == a.typ
		if a.name == "Uint32" && !fits {
			if x, ok := want.(int32); ok {
				fits, w = true, uint32(x)
			}
		}
		t.Eval(a.name + " of " + reflect.TypeOf(want).String())
		if fits {
			t.Count("accessors", 1)
			if err != nil || !same(v, w) {
				t.Fail("accessor", "%s(%s) gave %s, %v; the value is %s", a.name, d.name, show(v), err, show(want))
			}
		} else {
			t.Count("wrong_accessors", 1)
			if err == nil {
				t.Fail("accessor-type", "%s(%s) of a value %s gave %s without an error", a.name, d.name, show(want), show(v))
			}
		}
		if _, err := a.get(d.name + "x"); err == nil {
			t.Fail("accessor-missing", "%s of a name that is not there gave no error", a.name)
		}
	}
}

func c19Groups(t *rt.T) {
	w := groupWorld(t)
	r := t.R
	c := dial(t, w.p, []uint16{0, 500, 4000, 1000}[r.IntN(4)])
	if c == nil {
		return
	}
	if r.IntN(3) == 0 {
		w.p.SetFirmware(byte(19 + r.IntN(16)))
		if err := c.ListAllTags(0); err != nil {
			t.Fail("list", "%v", err)
			return
		}
	}
	for round := 0; round < 6 && !t.Failed(); round++ {
		buffer := r.IntN(3) == 0
		n := []int{1, 2, 5, 12, 40}[r.IntN(5)]
		limit := 300
		if buffer {
			n, limit = min(n, 5), 60
		}
		defs, args := w.group(n, limit, buffer)
		if len(defs) == 0 {
			continue
		}
		given := tagDefs(defs)
		g := gologix.NewTagGroup(given...)
		if r.IntN(2) == 0 {
			// the group is its own
			for i := range given {
				given[i] = gologix.TagDef{Name: "Changed", Type: gologix.CIPTypeSINT, Elements: 3}
			}
			cp := g.Defs()
			for i := range cp {
				cp[i].Name = "Changed"
			}
		}
		before := g.Defs()
		for use := 0; use < 2 && !t.Failed(); use++ {
			w.freshen()
			wants := []any{}
			for _, d := range defs {
				wants = append(wants, d.want(w))
			}
			how := "ReadTagGroup"
			var res *gologix.TagGroupResult
			var err error
			if buffer {
				how = "AddTagGroup"
				t.Guard(how, func() {
					var buf *gologix.DataTableBuffer
					if buf, err = c.NewDataTableBuffer(); err != nil {
						return
					}
					if err = buf.AddTagGroup(g, args...); err == nil {
						res, err = buf.ReadAllTyped()
					}
					if e := buf.Close(); err == nil {
						err = e
					}
				})
				t.Count("buffer_groups", 1)
			} else {
				t.Guard(how, func() { res, err = c.ReadTagGroup(g, args...) })
			}
			if t.Failed() {
				return
			}
			if err != nil {
				t.Fail("error", "%s of %d definitions %+v with arguments %v: %v", how, len(defs), before, args, err)
				return
			}
			c19Judge(t, w, how, res, defs, wants, args)
		}
		if !reflect.DeepEqual(before, g.Defs()) {
			t.Fail("group-changed", "the group was %+v and is %+v after use", before, g.Defs())
		}
		if e := w.p.WireErrors(); len(e) > 0 {
			t.Fail("wire", "%s", e[0])
		}
	}
}

// c19Literal uses arguments that look like placeholders, and placeholders without arguments: each placeholder is
// replaced once, by its own argument.
func c19Literal(t *rt.T) {
	w := newWorld(t)
	r := t.R
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	for i := 0; i < 8 && !t.Failed(); i++ {
		// names of which a wrong substitution would make other tags that exist
		x, y, z := w.name(), w.name(), w.name()
		for _, n := range []string{x, y, z, x + x, x + y, x + z, y + x, y + y, y + z, z + x, z + y, z + z, x + y + z, x + "0", x + "1", x + "10", x + "11", x + "0}", y + "0", y + "1"} {
			if len(n) <= 60 && !strings.Contains(n, "}") {
				w.p.Add(&plc.Tag{Name: n, Type: plc.DINT, Data: randElem(r, plc.DINT)})
			}
		}
		many := []any{}
		for k := 0; k < 13; k++ {
			many = append(many, []string{"u", "v", "w"}[r.IntN(3)]+fmt.Sprint(k))
		}
		many[10], many[11] = y, z
		type lit struct {
			tmpl string
			args []any
			want string
			ok   bool
		}
		cases := []lit{
			{"{0}{1}", []any{"{1}", y}, "{1}" + y, false},
			{x + "{0}", []any{"{1}", y}, x + "{1}", false},
			{"{0}", []any{"{2}", y, z}, "{2}", false},
			{"{1}{0}", []any{x, "{0}"}, "{0}" + x, false},
			{x + "{0}{1}", []any{y}, x + y + "{1}", false},
			{x + "{3}", []any{y}, x + "{3}", false},
			{x + "{0}", nil, x + "{0}", false},
			{"{0}{0}", []any{x}, x + x, true},
			{"{1}{0}", []any{x, y}, y + x, true},
			{"{0}{2}", []any{x, "no", z}, x + z, true},
			{"{10}", many, y, true},
			{"{11}", many, z, true},
			{x + "{10}", many, x + y, true},
			{x, []any{y, z}, x, true},
			{"{0}{1}{2}", []any{x, y, z}, x + y + z, true},
			{"{0}1", []any{x}, x + "1", true},
			{"{0}10", []any{x}, x + "10", true},
			{x + "{0}{1}", []any{1, 0}, x + "10", true},
			{x + "{0}{1}", []any{uint8(1), int16(1)}, x + "11", true},
		}
		l := cases[r.IntN(len(cases))]
		if len(l.want) > 60 {
			continue
		}
		g := gologix.NewTagGroup(gologix.TagDef{Name: l.tmpl, Type: gologix.CIPTypeDINT})
		var res *gologix.TagGroupResult
		var err error
		if !t.Guard("ReadTagGroup", func() { res, err = c.ReadTagGroup(g, l.args...) }) {
			return
		}
		t.Eval("literal " + strings.NewReplacer(x, "x", y, "y", z, "z").Replace(l.tmpl))
		t.Count("literal_args", 1)
		if !l.ok {
			t.Count("unresolved", 1)
			if err == nil {
				t.Fail("substitution", "template %q with arguments %q means %q, which is no tag, but gave %v", l.tmpl, l.args, l.want, res.Raw())
			}
			// the struct tags of ReadMulti follow the same rule
			st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "V", Type: tI32, Tag: reflect.StructTag(`gologix:` + strconv.Quote(l.tmpl))}}))
			if l.args != nil {
				if !t.Guard("ReadMulti", func() { err = c.ReadMulti(st.Interface(), l.args...) }) {
					return
				}
				if err == nil {
					t.Fail("substitution", "ReadMulti of a field %q with arguments %q means %q, which is no tag, but gave %v", l.tmpl, l.args, l.want, st.Elem().Interface())
				}
			}
		} else {
			want := plc.Value(plc.DINT, w.p.Peek(l.want))
			if err != nil {
				t.Fail("error", "template %q with arguments %q: %v", l.tmpl, l.args, err)
				return
			}
			if v, err := res.Int32(l.want); err != nil || v != want {
				t.Fail("substitution", "template %q with arguments %q: %s is %v (%v), the controller has %v; there is %v", l.tmpl, l.args, l.want, v, err, want, res.Raw())
			}
		}
		if !c.Connected() {
			if err := c.Connect(); err != nil {
				t.Fail("reconnect", "%v", err)
			}
		}
		for _, tg := range w.p.TagList() {
			w.p.Remove(tg.Name)
		}
	}
}

// c19Shared uses one group from several goroutines and clients at once.
func c19Shared(t *rt.T) {
	w := groupWorld(t)
	r := t.R
	defs, args := w.group(6, 100, false)
	if len(defs) == 0 {
		return
	}
	wants := []any{}
	for _, d := range defs {
		wants = append(wants, d.want(w))
	}
	g := gologix.NewTagGroup(tagDefs(defs)...)
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		c := dial(t, w.p, 0)
		if c == nil {
			return
		}
		for j := 0; j < 2; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 10; i++ {
					res, err := c.ReadTagGroup(g, args...)
					if err != nil {
						t.Fail("error", "shared group: %v", err)
						return
					}
					t.Count("shared_reads", 1)
					g.Defs()
					for i, d := range defs {
						if v, err := res.Value(d.name); err != nil || !sameList(v, wants[i]) {
							t.Fail("value", "shared group: %s is %s (%v), the controller has %s", d.name, show(v), err, show(wants[i]))
							return
						}
					}
				}
			}()
		}
	}
	_ = r
	wg.Wait()
	t.Eval("shared " + class(len(defs)))
}
