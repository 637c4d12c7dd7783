package checks

import (
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"reflect"
	"strings"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C17",
		Rule: "each evaluation is one discovery (ListAllTags from 0 or from an instance, ListAllPrograms, ListSubTags, ListMembers) of a generated controller whose listings and templates are spread over randomly many partial replies, compared with the controller's own symbol table, programs and templates, repeated after the controller changed; or one discovery answered with a hostile pattern of partial replies, which has to end; " +
			"non-trivial = distinct (call, partial replies used, programs listed or refused, symbols, template size class, nesting) or distinct hostile pattern",
		Assumptions: []string{
			"system symbols are those whose name is empty, starts with two underscores or contains a colon outside the Program: prefix (1756-PM020, page 43); they are not reported",
			"a controller that does not list programs is asked for them through its symbols; those symbols may be reported as well",
			"what is known of a structure stays until the next ListAllTags(0)",
		},
		Cases:     c17Cases,
		MinEvents: []string{"discoveries", "partial_replies", "template_parts", "tags_compared", "members_compared", "fallbacks", "rediscoveries", "hostile", "hostile_errors"},
	})
}

func c17Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 400, 9000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("inventory-%d", i), Run: c17Inventory})
	}
	for i := 0; i < tiered(tier, 70, 1000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("hostile-%d", i), Run: c17Hostile})
	}
	return cs
}

// site is a controller whose symbols, programs and structures change over time.
type site struct {
	t    *rt.T
	r    *rand.Rand
	p    *plc.PLC
	used map[string]bool
	ids  uint16
	inst uint32
	udts []*plc.UDT // those tags are made of

	perProgram map[string]uint32 // the last instance of each program's own symbols, if programs number theirs themselves
}

func (s *site) name() string {
	switch s.r.IntN(12) {
	case 0:
		return uniqueName(s.r, s.used, 40, 40)
	case 1:
		return uniqueName(s.r, s.used, 1, 2)
	}
	return uniqueName(s.r, s.used, 1, 24)
}

func (s *site) freeID() uint16 {
	for {
		s.ids = uint16(s.r.IntN(0xFE0) + 1)
		if s.r.IntN(4) == 0 {
			s.ids = uint16(s.r.IntN(20) + 1)
		}
		if _, ok := s.p.UDTs[s.ids]; !ok {
			return s.ids
		}
	}
}

// addUDT makes a structure, with nested ones.
func (s *site) addUDT(depth int) *plc.UDT {
	r := s.r
	if r.IntN(4) == 0 {
		// derived from a layout
		base := uint16(0)
		free := func() bool {
			for i := base; i < base+80; i++ {
				if _, ok := s.p.UDTs[i]; ok {
					return false
				}
			}
			return true
		}
		for try := 0; try < 20; try++ {
			base = uint16(1 + r.IntN(0xF00))
			if free() {
				n := base
				u := udtOf(randStruct(r, 2), s.name(), &n)
				if n < base+80 {
					s.register(u)
					return u
				}
			}
		}
	}
	u := &plc.UDT{Name: s.name(), ID: s.freeID(), Handle: uint16(r.Uint32())}
	s.p.UDTs[u.ID] = u
	switch r.IntN(6) {
	case 0:
		u.RawName = u.Name
	case 1:
		u.RawName = u.Name + ";n" + strings.Repeat("EBECA", r.IntN(60))
	case 2:
		u.RawName = u.Name + ";"
	}
	n := []int{1, 2, 3, r.IntN(12) + 1, r.IntN(12) + 1, r.IntN(120) + 1, r.IntN(600) + 1}[r.IntN(7)]
	if r.IntN(60) == 0 {
		n = 1500 + r.IntN(500)
	}
	used := map[string]bool{}
	off := 0
	for i := 0; i < n; i++ {
		m := plc.Member{Offset: off}
		m.Name = uniqueName(r, used, 1, []int{4, 20, 40}[r.IntN(3)])
		switch r.IntN(12) {
		case 0:
			m.Name = fmt.Sprintf("ZZZZZZZZZZ%s%d", m.Name, i)
			m.Hidden = true
		case 1:
			m.Name = "__" + m.Name
		}
		size := 0
		switch k := r.IntN(10); {
		case k == 0 && depth > 0 && (len(s.udts) > 0 || len(s.p.UDTs) < 80):
			m.Type = plc.STRUCT
			if (r.IntN(3) == 0 || len(s.p.UDTs) > 80) && len(s.udts) > 0 {
				m.UDT = s.udts[r.IntN(len(s.udts))]
			} else {
				m.UDT = s.addUDT(depth - 1)
			}
			size = m.UDT.Size
		case k == 1:
			m.Type, m.Bit, size = plc.BOOL, r.IntN(8), 1
		default:
			m.Type = atoms[r.IntN(len(atoms))].Code
			if m.Type == plc.BOOL {
				m.Type = plc.DINT
			}
			size = plc.Size(m.Type)
		}
		if m.Type != plc.BOOL && r.IntN(4) == 0 && size < 10000 {
			m.Len = r.IntN(30) + 1
			size *= m.Len
		}
		off += size
		u.Members = append(u.Members, m)
	}
	u.Size = off
	s.udts = append(s.udts, u)
	return u
}

func (s *site) register(u *plc.UDT) {
	s.p.UDTs[u.ID] = u
	s.used[strings.ToLower(u.Name)] = true
	for _, m := range u.Members {
		if m.UDT != nil {
			s.register(m.UDT)
		}
	}
	s.udts = append(s.udts, u)
}

// addTag adds a symbol to a scope ("" or "Program:X.").
func (s *site) addTag(scope string) {
	r := s.r
	tg := &plc.Tag{Name: scope + s.name()}
	switch r.IntN(20) {
	case 0:
		tg.Name, tg.System = scope+"__"+s.name(), r.IntN(2) == 0
	case 1:
		tg.Name, tg.System = scope+"Local:"+s.name()+":I", true
	case 2:
		tg.Name = scope + []string{"Map:", "Task:", "Cxn:", "Routine:"}[r.IntN(4)] + s.name()
		tg.System = true
	case 3:
		if scope != "" {
			tg.Name = scope // no name at all
			for _, x := range s.tags() {
				if x.Name == scope {
					return
				}
			}
		}
	}
	if r.IntN(3) == 0 && len(s.udts) > 0 {
		tg.Type, tg.UDT = plc.STRUCT, s.udts[r.IntN(len(s.udts))]
	} else {
		tg.Type = atoms[r.IntN(len(atoms))].Code
		if tg.Type == plc.BOOL && r.IntN(2) == 0 {
			tg.RawType = uint16(plc.BOOL) | uint16(r.IntN(8))<<8
		}
	}
	if tg.RawType == 0 && r.IntN(3) == 0 {
		for i := 1 + r.IntN(3); i > 0; i-- {
			tg.Dims = append(tg.Dims, 1+r.IntN(9))
		}
	}
	if s.perProgram != nil && scope != "" {
		s.perProgram[scope] += 1 + uint32([]int{0, 0, r.IntN(3), r.IntN(300)}[r.IntN(4)])
		tg.Instance = s.perProgram[scope]
	} else {
		s.inst += 1 + uint32([]int{0, 0, r.IntN(3), r.IntN(300), r.IntN(70000)}[r.IntN(5)])
		tg.Instance = s.inst
	}
	tg.Data = []byte{0} // nothing reads it
	s.p.Add(tg)
}

func (s *site) tags() []*plc.Tag { return s.p.TagList() }

func (s *site) scopes() []string {
	out := []string{"", "", ""}
	for _, p := range s.p.Programs {
		out = append(out, "Program:"+p.Name+".")
	}
	return out
}

func newSite(t *rt.T) *site {
	r := t.R
	s := &site{t: t, r: r, p: newPLC(t), used: map[string]bool{}}
	s.p.Lock()
	s.p.UDTs = map[uint16]*plc.UDT{}
	s.p.Unlock()
	if r.IntN(2) == 0 {
		s.perProgram = map[string]uint32{}
	}
	s.inst = uint32([]int{0, 0, 200, 65500, 1 << 24}[r.IntN(5)])
	for i := r.IntN(6); i > 0; i-- {
		s.addUDT(r.IntN(4))
	}
	for i, id := r.IntN(6), uint32(0); i > 0; i-- {
		s.addProgram(&id)
	}
	for i := []int{0, 1, 5, 30, 120}[r.IntN(5)]; i > 0; i-- {
		sc := s.scopes()
		s.addTag(sc[r.IntN(len(sc))])
	}
	s.pages()
	return s
}

func (s *site) addProgram(id *uint32) {
	r := s.r
	for _, p := range s.p.Programs {
		*id = max(*id, p.ID)
	}
	*id += 1 + uint32([]int{0, r.IntN(3), r.IntN(400), r.IntN(70000)}[r.IntN(4)])
	pr := &plc.Program{ID: *id, Name: s.name()}
	s.p.Lock()
	s.p.Programs = append(s.p.Programs, pr)
	s.p.Unlock()
	// the controller has a symbol for each program too
	s.inst += uint32(1 + r.IntN(4))
	s.p.Add(&plc.Tag{Name: "Program:" + pr.Name, Instance: s.inst, Type: plc.DINT, RawType: 0x1068})
}

// pages changes how the controller spreads its answers over replies.
func (s *site) pages() {
	r := s.r
	limit := []int{0, 0, 1, 2, 3, 1 + r.IntN(20)}[r.IntN(6)]
	style := r.IntN(4)
	rr := rt.NewRand(r.Uint64(), "pages")
	s.p.Lock()
	defer s.p.Unlock()
	s.p.PageLimit = limit
	s.p.FragBytes = nil
	if style > 0 {
		s.p.FragBytes = func(total, off int) int {
			switch style {
			case 1:
				return 1 + rr.IntN(1+total/4)
			case 2:
				return 4 * (1 + rr.IntN(1+total/16))
			}
			return max(total/3, 1)
		}
	}
}

// change alters the controller the way a download or an online edit does.
func (s *site) change() {
	r := s.r
	for i := 1 + r.IntN(6); i > 0; i-- {
		switch r.IntN(6) {
		case 0, 1:
			sc := s.scopes()
			s.addTag(sc[r.IntN(len(sc))])
		case 2:
			ts := s.tags()
			if len(ts) > 0 {
				t := ts[r.IntN(len(ts))]
				if !strings.HasPrefix(t.Name, "Program:") || strings.Contains(t.Name, ".") {
					s.p.Remove(t.Name)
				}
			}
		case 3:
			id := uint32(0)
			s.addProgram(&id)
		case 4:
			if len(s.p.Programs) > 0 {
				k := r.IntN(len(s.p.Programs))
				n := s.p.Programs[k].Name
				s.p.Lock()
				s.p.Programs = append(append([]*plc.Program{}, s.p.Programs[:k]...), s.p.Programs[k+1:]...)
				s.p.Unlock()
				for _, t := range s.tags() {
					if t.Name == "Program:"+n || strings.HasPrefix(t.Name, "Program:"+n+".") {
						s.p.Remove(t.Name)
					}
				}
			}
		case 5:
			// a structure gets other members
			if len(s.udts) > 0 {
				u := s.udts[r.IntN(len(s.udts))]
				s.p.Lock()
				u.Members = append(append([]plc.Member{}, u.Members...), plc.Member{Name: fmt.Sprintf("Added%d", r.Uint32()), Type: plc.REAL, Offset: u.Size})
				u.Size += 4
				u.Handle++
				s.p.Unlock()
			}
		}
	}
	s.pages()
}

// visible says whether a symbol is reported, by the name within its scope.
func visible(name string) bool {
	return name != "" && !strings.HasPrefix(name, "__") && !strings.Contains(name, ":")
}

func (s *site) checkUDT(where string, u *gologix.UDTDescriptor, want *plc.UDT, depth int) {
	t := s.t
	if u == nil {
		t.Fail("template-missing", "%s: no structure, the controller's is %s (template %d)", where, want.Name, want.ID)
		return
	}
	if u.Name != want.Name || u.Instance_ID != uint32(want.ID) || int(u.Info.SizeBytes) != want.Size || u.Info.Handle != want.Handle || int(u.Info.MemberCount) != len(want.Members) || u.Info.SizeWords != plc.TemplateWords(want) {
		t.Fail("template", "%s: structure %q (template %d, %d bytes, handle %#x, %d members), the controller's is %q (template %d, %d bytes, handle %#x, %d members)",
			where, u.Name, u.Instance_ID, u.Info.SizeBytes, u.Info.Handle, u.Info.MemberCount, want.Name, want.ID, want.Size, want.Handle, len(want.Members))
		return
	}
	if len(u.Members) != len(want.Members) {
		t.Fail("members", "%s: %d members listed, the controller's %s has %d", where, len(u.Members), want.Name, len(want.Members))
		return
	}
	raw := plc.TemplateBytes(want)
	le := binary.LittleEndian
	for i, m := range u.Members {
		t.Count("members_compared", 1)
		info, typ, off := le.Uint16(raw[8*i:]), le.Uint16(raw[8*i+2:]), le.Uint32(raw[8*i+4:])
		if m.Name != want.Members[i].Name || m.Info.Info != info || m.Info.Type != typ || m.Info.Offset != off {
			t.Fail("members", "%s: member %d of %s is %q info %#x type %#x offset %d, the controller's is %q info %#x type %#x offset %d",
				where, i, want.Name, m.Name, m.Info.Info, m.Info.Type, m.Info.Offset, want.Members[i].Name, info, typ, off)
			return
		}
		if wu := want.Members[i].UDT; wu == nil {
			if m.UDT != nil {
				t.Fail("members", "%s: member %s of %s is not a structure but has members", where, m.Name, want.Name)
			}
		} else {
			s.checkUDT(where+"."+m.Name, m.UDT, wu, depth+1)
			if t.Failed() {
				return
			}
		}
	}
}

func (s *site) checkTag(key string, k gologix.KnownTag, tg *plc.Tag, scope string, template bool) {
	t := s.t
	t.Count("tags_compared", 1)
	if !strings.EqualFold(k.Name, tg.Name) {
		t.Fail("tag-name", "tag %s is known as %q", tg.Name, k.Name)
	}
	if scope == "" && k.Name != tg.Name {
		t.Fail("tag-name", "tag %s is known as %q", tg.Name, k.Name)
	}
	if uint32(k.Instance) != tg.Instance {
		t.Fail("tag-instance", "tag %s has instance %d, known as %d", tg.Name, tg.Instance, k.Instance)
	}
	if w := uint16(k.Info.Type) | uint16(k.Info.TypeInfo)<<8; w != plc.SymbolType(tg) {
		t.Fail("tag-type", "tag %s has symbol type %#x, known as %#x", tg.Name, plc.SymbolType(tg), w)
	}
	if tg.Type == plc.STRUCT && tg.UDT != nil {
		if id := k.Info.Template_ID(); id != tg.UDT.ID || k.Info.Atomic() {
			t.Fail("tag-template", "tag %s has template %#x, its info says %#x (atomic: %v)", tg.Name, tg.UDT.ID, id, k.Info.Atomic())
		}
	} else if id := k.Info.Template_ID(); tg.Type != plc.STRUCT && plc.SymbolType(tg)&0x9000 == 0 && (id != 0 || !k.Info.Atomic()) {
		t.Fail("tag-template", "tag %s has symbol type %#x, its info says template %#x (atomic: %v)", tg.Name, plc.SymbolType(tg), id, k.Info.Atomic())
	}
	dims := []int{}
	for _, d := range []uint32{k.Info.Dimension1, k.Info.Dimension2, k.Info.Dimension3} {
		if d != 0 {
			dims = append(dims, int(d))
		}
	}
	want := append([]int{}, tg.Dims...)
	if !reflect.DeepEqual(dims, want) || !reflect.DeepEqual(append([]int{}, k.Array_Order...), want) {
		t.Fail("tag-dims", "tag %s has dimensions %v, known with %v and order %v", tg.Name, want, dims, k.Array_Order)
	}
	if scope == "" {
		if k.Parent != nil {
			t.Fail("tag-parent", "tag %s is known as a tag of program %s", tg.Name, k.Parent.Name)
		}
	} else if k.Parent == nil || !strings.EqualFold("Program:"+k.Parent.Name+".", scope) {
		t.Fail("tag-parent", "tag %s is known with program %v", tg.Name, k.Parent)
	}
	if !template {
		return
	}
	if tg.UDT == nil || tg.System {
		if k.UDT != nil && tg.UDT == nil {
			t.Fail("tag-udt", "tag %s has no structure but is known with %s", tg.Name, k.UDT.Name)
		}
		return
	}
	s.checkUDT(tg.Name, k.UDT, tg.UDT, 0)
}

// expected lists the symbols to be reported by the key they are known under, with their scope.
func (s *site) expected() (map[string]*plc.Tag, map[string]string) {
	tags, scope := map[string]*plc.Tag{}, map[string]string{}
	for _, tg := range s.tags() {
		sc, n := "", tg.Name
		if strings.HasPrefix(n, "Program:") {
			i := strings.Index(n, ".")
			if i < 0 {
				continue
			}
			sc, n = n[:i+1], n[i+1:]
		}
		if !visible(n) {
			continue
		}
		tags[strings.ToLower(tg.Name)] = tg
		scope[strings.ToLower(tg.Name)] = sc
	}
	return tags, scope
}

func (s *site) checkAll(c *gologix.Client, fallback bool, what string) {
	t := s.t
	want, scope := s.expected()
	for _, key := range rt.SortedKeys(want) {
		k, ok := c.KnownTags[key]
		if !ok {
			t.Fail("tag-missing", "%s: tag %s (instance %d) is not known; %d of %d are", what, want[key].Name, want[key].Instance, len(c.KnownTags), len(want))
			return
		}
		s.checkTag(key, k, want[key], scope[key], true)
		if t.Failed() {
			return
		}
	}
	for _, key := range rt.SortedKeys(c.KnownTags) {
		if _, ok := want[key]; !ok && !(fallback && strings.HasPrefix(key, "program:") && !strings.Contains(key, ".")) {
			t.Fail("tag-extra", "%s: tag %s is known but the controller does not have it", what, key)
			return
		}
	}
	if len(c.KnownPrograms) != len(s.p.Programs) {
		t.Fail("programs", "%s: %d programs are known, the controller has %d", what, len(c.KnownPrograms), len(s.p.Programs))
		return
	}
	for _, p := range s.p.Programs {
		k := c.KnownPrograms[strings.ToLower(p.Name)]
		if k == nil || k.Name != p.Name || (!fallback && uint32(k.ID) != p.ID) {
			t.Fail("programs", "%s: program %s (%d) is known as %v", what, p.Name, p.ID, k)
			return
		}
	}
	types := map[string]*plc.UDT{}
	for _, tg := range want {
		if tg.UDT != nil && !tg.System {
			types[tg.UDT.Name] = tg.UDT
		}
	}
	for _, n := range rt.SortedKeys(types) {
		u, ok := c.KnownTypes[n]
		if !ok {
			t.Fail("types", "%s: type %s is not known", what, n)
			return
		}
		s.checkUDT("type "+n, &u, types[n], 0)
	}
	all := map[string]bool{}
	for _, u := range s.udts {
		all[u.Name] = true
	}
	for n := range c.KnownTypes {
		if !all[n] {
			t.Fail("types", "%s: type %q is known but the controller does not have it", what, n)
		}
	}
}

func sizeClass(n int) string {
	switch {
	case n == 0:
		return "0"
	case n < 5:
		return "few"
	case n < 50:
		return "some"
	}
	return "many"
}

func c17Inventory(t *rt.T) {
	s := newSite(t)
	r := s.r
	c := dial(t, s.p, []uint16{0, 500, 510, 4000, 1000}[r.IntN(5)])
	if c == nil {
		return
	}
	fallback := r.IntN(3) == 0
	partial, parts := 0, 0
	refusal := []byte{0x05, 0x08, 0x16, 0x0F, 0x04, 0x02, 0x09, 0x0A, 0x0C, 0x10, 0x13, 0x14, 0x1A, 0x1C, 0x26, 0xFF}[r.IntN(16)]
	s.p.Lock()
	s.p.OnReq = func(q *plc.Req) *plc.Action {
		if fallback && q.Service == 0x55 && len(q.Path) == 2 && q.Path[0].Kind == 'C' && q.Path[0].Val == plc.ClassProgram {
			return &plc.Action{Reply: &plc.Reply{Status: refusal}}
		}
		if q.Service == 0x4C && len(q.Path) == 2 && q.Path[0].Kind == 'C' && q.Path[0].Val == 0x6C {
			parts++
		}
		if q.Service == 0x55 {
			partial++
		}
		return nil
	}
	s.p.Unlock()
	for round, rounds := 0, 2+r.IntN(4); round < rounds && !t.Failed(); round++ {
		if round > 0 {
			s.change()
			t.Count("rediscoveries", 1)
		}
		if r.IntN(4) == 0 && !fallback {
			s.alone(c)
			if t.Failed() {
				return
			}
		}
		partial, parts = 0, 0
		var err error
		if !t.Within(60*time.Second, "ListAllTags", func() { err = c.ListAllTags(0) }) {
			return
		}
		t.Count("discoveries", 1)
		want, _ := s.expected()
		t.Eval(fmt.Sprintf("all fallback=%v tags=%s replies=%s parts=%s programs=%d round=%v", fallback, sizeClass(len(want)), sizeClass(partial), sizeClass(parts), len(s.p.Programs), round > 0))
		t.Count("partial_replies", max(partial-1-len(s.p.Programs), 0))
		t.Count("template_parts", parts)
		if fallback {
			t.Count("fallbacks", 1)
		}
		if err != nil {
			t.Fail("error", "ListAllTags of a controller with %d tags, %d programs, %d structures, pages of %d: %v", len(want), len(s.p.Programs), len(s.udts), s.p.PageLimit, err)
			return
		}
		s.checkAll(c, fallback, fmt.Sprintf("round %d", round))
		if r.IntN(3) == 0 && !t.Failed() {
			s.later(c, fallback)
		}
		if e := s.p.WireErrors(); len(e) > 0 {
			t.Fail("wire", "%s", e[0])
		}
	}
}

// later lists from an instance on: what is listed is added to what is known.
func (s *site) later(c *gologix.Client, fallback bool) {
	t, r := s.t, s.r
	// new symbols only, so that everything known before stays right
	for i := r.IntN(5); i > 0; i-- {
		s.addTag("")
	}
	before := s.inst
	from := before
	if ts := s.tags(); len(ts) > 0 {
		from = ts[r.IntN(len(ts))].Instance
	}
	old := map[string]bool{}
	for k := range c.KnownTags {
		old[k] = true
	}
	if from < 2 {
		from = 2
	}
	if err := c.ListAllTags(from); err != nil {
		t.Fail("error", "ListAllTags(%d): %v", from, err)
		return
	}
	t.Eval(fmt.Sprintf("from %v", fallback))
	want, scope := s.expected()
	for _, key := range rt.SortedKeys(want) {
		k, ok := c.KnownTags[key]
		if !ok {
			if old[key] || (scope[key] == "" && want[key].Instance >= from) {
				t.Fail("tag-missing", "after ListAllTags(%d) tag %s (instance %d) is not known", from, want[key].Name, want[key].Instance)
				return
			}
			continue
		}
		s.checkTag(key, k, want[key], scope[key], true)
	}
	for key := range c.KnownTags {
		if _, ok := want[key]; !ok && !(fallback && strings.HasPrefix(key, "program:") && !strings.Contains(key, ".")) {
			t.Fail("tag-extra", "after ListAllTags(%d) tag %s is known but the controller does not have it", from, key)
		}
	}
}

// alone uses the other listing calls on their own.
func (s *site) alone(c *gologix.Client) {
	t, r := s.t, s.r
	err := c.ListAllPrograms()
	if err != nil {
		t.Fail("error", "ListAllPrograms: %v", err)
		return
	}
	t.Eval(fmt.Sprintf("programs %d", len(s.p.Programs)))
	if len(c.KnownPrograms) != len(s.p.Programs) {
		t.Fail("programs", "ListAllPrograms found %d programs, the controller has %d", len(c.KnownPrograms), len(s.p.Programs))
		return
	}
	want, scope := s.expected()
	for _, p := range s.p.Programs {
		k := c.KnownPrograms[strings.ToLower(p.Name)]
		if k == nil || k.Name != p.Name || uint32(k.ID) != p.ID {
			t.Fail("programs", "program %s (%d) is known as %v", p.Name, p.ID, k)
			return
		}
		from := uint32(r.IntN(2))
		if r.IntN(3) == 0 && s.inst > 0 {
			from = uint32(r.IntN(int(min(s.inst, 1<<30)))) + 1
		}
		l, err := c.ListSubTags(k, from)
		if err != nil {
			t.Fail("error", "ListSubTags(%s, %d): %v", p.Name, from, err)
			return
		}
		t.Eval(fmt.Sprintf("subtags %s from=%v", sizeClass(len(l)), from > 1))
		got := map[string]gologix.KnownTag{}
		for _, kt := range l {
			if _, dup := got[strings.ToLower(kt.Name)]; dup {
				t.Fail("tag-twice", "ListSubTags(%s, %d) lists %s twice", p.Name, from, kt.Name)
			}
			got[strings.ToLower(kt.Name)] = kt
		}
		for _, key := range rt.SortedKeys(want) {
			if !strings.EqualFold(scope[key], "Program:"+p.Name+".") || want[key].Instance < from {
				continue
			}
			kt, ok := got[key]
			if !ok {
				t.Fail("tag-missing", "ListSubTags(%s, %d) does not list %s (instance %d)", p.Name, from, key, want[key].Instance)
				return
			}
			delete(got, key)
			s.checkTag(key, kt, want[key], scope[key], false)
		}
		for key := range got {
			t.Fail("tag-extra", "ListSubTags(%s, %d) lists %s", p.Name, from, key)
			return
		}
	}
	if len(s.udts) > 0 {
		// only what was not asked for before: what is known of a structure stays until everything is listed again
		u := s.udts[r.IntN(len(s.udts))]
		if _, ok := c.KnownTypesByID[uint32(u.ID)]; !ok && len(c.KnownTypesByID) == 0 {
			d, err := c.ListMembers(uint32(u.ID))
			if err != nil {
				t.Fail("error", "ListMembers(%d): %v", u.ID, err)
				return
			}
			t.Eval("members")
			s.checkUDT("ListMembers", &d, u, 0)
		}
	}
}

// c17Hostile answers listings with patterns of partial replies that lead nowhere.
func c17Hostile(t *rt.T) {
	r := t.R
	le := binary.LittleEndian
	entry := func(inst uint32, name string, typ uint16) []byte {
		b := le.AppendUint32(nil, inst)
		b = le.AppendUint16(b, uint16(len(name)))
		b = append(b, name...)
		b = le.AppendUint16(b, typ)
		return append(b, make([]byte, 12)...)
	}
	program := func(inst uint32, name string) []byte {
		b := le.AppendUint32(nil, inst)
		b = le.AppendUint32(b, uint32(len(name)))
		return append(b, name...)
	}
	type pattern struct {
		name  string
		fails bool // must be an error
		hook  func(q *plc.Req) *plc.Action
	}
	isList := func(q *plc.Req) bool { return q.Service == 0x55 }
	isProgram := func(q *plc.Req) bool {
		return isList(q) && q.Path[0].Kind == 'C' && q.Path[0].Val == plc.ClassProgram && len(q.Path) == 2
	}
	isTemplate := func(q *plc.Req) bool { return len(q.Path) == 2 && q.Path[0].Kind == 'C' && q.Path[0].Val == 0x6C }
	reply := func(st byte, d []byte) *plc.Action { return &plc.Action{Reply: &plc.Reply{Status: st, Data: d}} }
	k := uint32(1 + r.IntN(1000))
	n := 0
	pats := []pattern{
		{"symbols: more, but nothing", true, func(q *plc.Req) *plc.Action {
			if isList(q) && !isProgram(q) {
				return reply(6, nil)
			}
			return nil
		}},
		{"symbols: the same part again and again", true, func(q *plc.Req) *plc.Action {
			if isList(q) && !isProgram(q) {
				return reply(6, entry(k, "Same", 0xC4))
			}
			return nil
		}},
		{"symbols: instances going back", true, func(q *plc.Req) *plc.Action {
			if isList(q) && !isProgram(q) {
				n++
				return reply(6, append(entry(uint32(max(5000-n, 1)), fmt.Sprintf("T%d", n), 0xC4), entry(uint32(max(4000-n, 1)), fmt.Sprintf("U%d", n), 0xC4)...))
			}
			return nil
		}},
		{"symbols: the last instance there can be", true, func(q *plc.Req) *plc.Action {
			if isList(q) && !isProgram(q) {
				return reply(6, entry(0xFFFFFFFF, "Last", 0xC4))
			}
			return nil
		}},
		{"symbols: a part cut short", true, func(q *plc.Req) *plc.Action {
			if isList(q) && !isProgram(q) {
				e := entry(k, "CutShort", 0xC4)
				return reply(byte(6*(k%2)), e[:1+int(k)%(len(e)-1)])
			}
			return nil
		}},
		{"programs: more, but nothing", true, func(q *plc.Req) *plc.Action {
			if isProgram(q) {
				return reply(6, nil)
			}
			return nil
		}},
		{"programs: the same part again and again", true, func(q *plc.Req) *plc.Action {
			if isProgram(q) {
				return reply(6, program(k, "Main"))
			}
			return nil
		}},
		{"programs: the last instance there can be", true, func(q *plc.Req) *plc.Action {
			if isProgram(q) {
				return reply(6, program(0xFFFFFFFF, "Main"))
			}
			return nil
		}},
		{"programs: a name of 4 GB", true, func(q *plc.Req) *plc.Action {
			if isProgram(q) {
				return reply(0, append(le.AppendUint32(nil, k), 0xFF, 0xFF, 0xFF, byte(r.IntN(256)), 'M', 'a'))
			}
			return nil
		}},
		{"template: contains itself", false, func(q *plc.Req) *plc.Action { return nil }},
		{"template: contains itself, in parts", false, func(q *plc.Req) *plc.Action { return nil }},
		{"template: more, but nothing", false, func(q *plc.Req) *plc.Action {
			if isTemplate(q) && q.Service == 0x4C {
				return reply(6, nil)
			}
			return nil
		}},
		{"template: size of nothing", false, func(q *plc.Req) *plc.Action {
			if isTemplate(q) && q.Service == 3 {
				d := []byte{4, 0, 4, 0, 0, 0}
				d = le.AppendUint32(d, uint32(k%6))
				d = append(d, 5, 0, 0, 0, 4, 0, 0, 0, 2, 0, 0, 0, 1, 0, 1, 0, 0, 0, 1, 0)
				return reply(0, d)
			}
			return nil
		}},
		{"template: 4 billion words, no data", false, func(q *plc.Req) *plc.Action {
			if isTemplate(q) && q.Service == 3 {
				d := []byte{4, 0, 4, 0, 0, 0, 0xFF, 0xFF, 0xFF, 0xFF}
				d = append(d, 5, 0, 0, 0, 4, 0, 0, 0, 2, 0, 0, 0, 0xFF, 0xFF, 1, 0, 0, 0, 1, 0)
				return reply(0, d)
			}
			if isTemplate(q) {
				return reply(byte(6*(k%2)), nil)
			}
			return nil
		}},
		{"template: refused", false, func(q *plc.Req) *plc.Action {
			if isTemplate(q) {
				return reply(5, nil)
			}
			return nil
		}},
	}
	for _, i := range r.Perm(len(pats)) {
		pat := pats[i]
		s := newSite(t)
		s.p.Lock()
		n = 0
		reqs := 0
		s.p.OnReq = func(q *plc.Req) *plc.Action { reqs++; return pat.hook(q) }
		// a template that contains itself, over one step or two
		a := &plc.UDT{Name: "Ouro", ID: 0xFF1, Handle: 1, Size: 8}
		b := &plc.UDT{Name: "Boros", ID: 0xFF2, Handle: 2, Size: 8}
		if r.IntN(2) == 0 {
			a.Members = []plc.Member{{Name: "Self", Type: plc.STRUCT, UDT: a}, {Name: "N", Type: plc.DINT, Offset: 4}}
		} else {
			a.Members = []plc.Member{{Name: "Other", Type: plc.STRUCT, UDT: b}, {Name: "N", Type: plc.DINT, Offset: 4}}
		}
		b.Members = []plc.Member{{Name: "Back", Type: plc.STRUCT, UDT: a}}
		s.p.UDTs[0xFF1], s.p.UDTs[0xFF2] = a, b
		s.p.Unlock()
		s.p.Add(&plc.Tag{Name: "Snake", Instance: s.inst + 1, Type: plc.STRUCT, UDT: a})
		s.p.Add(&plc.Tag{Name: "Plain", Instance: s.inst + 2, Type: plc.DINT})
		c := dial(t, s.p, 0)
		if c == nil {
			return
		}
		var err error
		if !t.Within(30*time.Second, "hostile", func() { err = c.ListAllTags(0) }) {
			return
		}
		t.Count("hostile", 1)
		t.Eval("hostile " + pat.name)
		if err != nil {
			t.Count("hostile_errors", 1)
		}
		if pat.fails && err == nil {
			t.Fail("hostile-accepted", "%s: ListAllTags reports success with %d tags", pat.name, len(c.KnownTags))
		}
		if !pat.fails && err == nil {
			if _, ok := c.KnownTags["plain"]; !ok {
				t.Fail("tag-missing", "%s: tag Plain is not known", pat.name)
			}
		}
		if err == nil {
			for _, key := range []string{"snake"} {
				if k, ok := c.KnownTags[key]; !ok || (k.UDT != nil && k.UDT.Name != "Ouro") {
					t.Fail("tag-missing", "%s: tag Snake is known as %+v", pat.name, k)
				}
			}
		}
		// and the client still discovers the controller once it behaves
		s.p.Lock()
		s.p.OnReq = nil
		s.p.Unlock()
		s.p.Remove("Snake")
		if !c.Connected() {
			if err := c.Connect(); err != nil {
				t.Fail("reconnect", "%s: %v", pat.name, err)
				continue
			}
		}
		if !t.Within(30*time.Second, "ListAllTags", func() { err = c.ListAllTags(0) }) {
			return
		}
		if err != nil {
			t.Fail("error", "ListAllTags after %s: %v", pat.name, err)
			continue
		}
		s.checkAll(c, false, "after "+pat.name)
		c.Disconnect()
		if t.Failed() {
			return
		}
	}
}
