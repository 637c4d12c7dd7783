package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C20",
		Rule: "each evaluation is one step of a random history of data table buffers (adding single tags, references, maps, groups and tagged structs, syncing, removing, reading in all three ways, refused services, closing) after which the buffer's own record is compared with the controller model's buffer, entry by entry, and every value and referenced variable read with the model's memory; " +
			"non-trivial = distinct (step, kinds of tags pending, number class, what happened before: removal, refusal, closing)",
		Assumptions: []string{
			"the controller numbers the tags of a buffer in the order they were added and does not use a number again (the index is documented as sequential over all calls)",
			"a structure read into a string has the layout of a string type (LEN, DATA)",
			"a buffer is used by one goroutine at a time (documented)",
			"a buffer whose values do not fit one reply of the connection gives an error",
		},
		Cases:     c20Cases,
		Races:     true,
		MinEvents: []string{"steps", "values", "refs_checked", "records_compared", "removed", "removed_unsynced", "refused", "closed", "after_close", "large_syncs", "typed_reads", "custom_strings"},
	})
}

func c20Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 2000, 30000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("history-%d", i), Run: c20History})
	}
	for i := 0; i < tiered(tier, 200, 2000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("large-%d", i), Run: c20Large})
	}
	for i := 0; i < tiered(tier, 40, 600); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("parallel-%d", i), Run: c20Parallel})
	}
	for i := 0; i < tiered(tier, 60, 900); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("calls-%d", i), Run: c20Calls})
	}
	cs = append(cs, rt.Case{Name: "structs", Run: c20Structs})
	return cs
}

// dtTag is one tag of a buffer as the user added it.
type dtTag struct {
	name string
	g    gdef
	size int
	refs []any // variables to be set
}

func (d dtTag) raw(w *world) []byte {
	mem := w.p.Peek(d.g.tag.Name)[d.g.base:]
	if d.g.typ == plc.STRUCT {
		return mem[d.size*d.g.off:][:d.size]
	}
	sz := plc.Size(d.g.typ)
	return mem[sz*d.g.off:][:sz]
}

func (d dtTag) value(w *world) any {
	b := d.raw(w)
	if d.g.typ == plc.STRUCT {
		n := min(int(plc.LE.Uint32(b)), d.size-4)
		return string(b[4 : 4+n])
	}
	return plc.Value(d.g.typ, b)
}

// dtGroup is an expansion: a group's definition or a field of a struct.
type dtGroup struct {
	base  string
	names []string
	multi bool
}

// dt is one buffer with what it should hold.
type dt struct {
	t      *rt.T
	w      *world
	c      *gologix.Client
	r      *rand.Rand
	buf    *gologix.DataTableBuffer
	tags   []dtTag
	groups []dtGroup
	plain  map[string]int  // added on its own
	unsure map[string]bool // one of several went, those added on their own and those of a group being mixed
	synced int             // tags[:synced] are at the controller... only counted by place
	bad    int             // pending tags the controller does not have
	closed bool
	hist   []string
	past   string
}

func (d *dt) fail(sig, format string, a ...any) {
	h := d.hist
	if len(h) > 25 {
		h = h[len(h)-25:]
	}
	d.t.Fail(sig, format+"; history: %s", append(a, strings.Join(h, ", "))...)
}

// one draws a single element.
func (d *dt) one() gdef {
	for {
		gs, _ := d.w.group(1, 1000, true)
		g := gs[0]
		if g.n > 1 && !strings.HasSuffix(g.name, "]") {
			continue
		}
		g.n, g.def.Elements = 1, 1
		if d.r.IntN(3) == 0 {
			g.name = recase(d.r, g.name)
		}
		return g
	}
}

func (d *dt) add(name string, g gdef, ref any) {
	tag := dtTag{name: name, g: g, size: 88}
	if g.typ != plc.STRUCT {
		tag.size = plc.Size(g.typ)
	} else if g.tag.UDT != nil && g.base == 0 && g.tag.UDT != plc.StringUDT && !strings.Contains(g.name, ".") {
		tag.size = g.tag.UDT.Size
	}
	if ref != nil {
		tag.refs = []any{ref}
	}
	d.tags = append(d.tags, tag)
}

// compare holds the record of the buffer against the controller's; pending tags may be missing there.
func (d *dt) compare(after string, allSynced bool) {
	if d.t.Failed() || d.closed {
		return
	}
	d.t.Count("records_compared", 1)
	places, ok := d.w.p.BufferPlaces(uint32(d.buf.InstanceID()))
	if !ok {
		d.fail("buffer-gone", "after %s the controller has no buffer %d", after, d.buf.InstanceID())
		return
	}
	rec := d.buf.Tags()
	if len(rec) != len(d.tags) {
		d.fail("record", "after %s the buffer has %d tags, %d were added and not removed", after, len(rec), len(d.tags))
		return
	}
	// what is done to the returned list is done to a copy
	for i, x := range d.buf.Tags() {
		x.Name = "changed"
		mine := d.buf.Tags()
		mine[i] = x
	}
	// as bags of names
	names := map[string]int{}
	for i := range rec {
		names[rec[i].Name]++
		names[d.tags[i].name]--
	}
	for n, k := range names {
		if k != 0 {
			d.fail("record", "after %s the buffer's tags differ from those added by %d of %s", after, k, n)
			return
		}
	}
	byIndex := map[int]gologix.DataTableBufferTag{}
	for _, x := range rec {
		if _, dup := byIndex[int(x.Index())]; dup {
			d.fail("index-twice", "after %s two tags of the buffer have the index %d", after, x.Index())
			return
		}
		byIndex[int(x.Index())] = x
	}
	want := map[string]dtTag{}
	for _, x := range d.tags {
		want[x.name] = x
	}
	for _, pl := range places {
		x, ok := byIndex[pl.Index]
		if !ok {
			d.fail("record", "after %s the controller's buffer has entry %d (%s+%d), the client has none of that index", after, pl.Index, pl.Tag, pl.Off)
			return
		}
		g := want[x.Name]
		off := g.g.base
		if g.g.tag != nil {
			es := g.size
			off += g.g.off * es
		}
		if g.g.tag == nil || !strings.EqualFold(g.g.tag.Name, pl.Tag) || off != pl.Off || g.size != pl.Size || int(x.DataTypeSize) != pl.Size {
			d.fail("record", "after %s entry %d of the controller's buffer is %s+%d (%d bytes), the client's is %s (%d bytes)", after, pl.Index, pl.Tag, pl.Off, pl.Size, x.Name, x.DataTypeSize)
			return
		}
	}
	if allSynced && len(places) != len(rec) {
		d.fail("record", "after %s the controller's buffer has %d entries, the client's %d", after, len(places), len(rec))
	}
}

func (d *dt) pendingBad() bool { return d.bad > 0 }

func (d *dt) missing(name string) bool {
	for _, x := range d.tags {
		if x.name == name && x.g.tag == nil {
			return true
		}
	}
	return false
}

func c20History(t *rt.T) {
	w := groupWorld(t)
	r := t.R
	listed := r.IntN(2) == 0
	if listed {
		// string types of other sizes
		for i, n := range []int{20, 1, 82, 120, 200, 252, 300} {
			size := (4 + n + 3) / 4 * 4
			u := &plc.UDT{Name: fmt.Sprintf("STRING%d", n), ID: uint16(0x500 + i), Handle: uint16(0x7000 + i), Size: size, Members: []plc.Member{{Name: "LEN", Type: plc.DINT}, {Name: "DATA", Type: plc.SINT, Len: n, Offset: 4}}}
			w.p.Lock()
			w.p.UDTs[u.ID] = u
			w.p.Unlock()
			b := make([]byte, size)
			w.p.Add(&plc.Tag{Name: w.name(), Type: plc.STRUCT, UDT: u, Data: b})
		}
	}
	if r.IntN(2) == 0 {
		w.p.SetFirmware(byte(19 + r.IntN(16)))
	}
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	if listed {
		if err := c.ListAllTags(0); err != nil {
			t.Fail("list", "%v", err)
			return
		}
	}
	bufs := []*dt{}
	open := func() *dt {
		buf, err := c.NewDataTableBuffer()
		if err != nil {
			t.Fail("error", "NewDataTableBuffer: %v", err)
			return nil
		}
		d := &dt{t: t, w: w, c: c, r: r, buf: buf, plain: map[string]int{}, unsure: map[string]bool{}}
		bufs = append(bufs, d)
		return d
	}
	if open() == nil {
		return
	}
	created, deleted := 1, 0
	for step := 0; step < 60 && !t.Failed(); step++ {
		if len(bufs) < 3 && r.IntN(12) == 0 {
			created++
			if open() == nil {
				return
			}
			continue
		}
		d := bufs[r.IntN(len(bufs))]
		if d.closed && r.IntN(3) > 0 {
			continue
		}
		t.Count("steps", 1)
		what := d.step()
		if what == "Close" {
			deleted++
		}
		if what == "" || t.Failed() {
			break
		}
		pend := ""
		if d.bad > 0 {
			pend = " bad pending"
		}
		t.Eval(what + pend + " " + class(len(d.tags)) + " " + d.past)
		for _, o := range bufs {
			o.compare(what, false)
		}
		if e := w.p.WireErrors(); len(e) > 0 {
			d.fail("wire", "%s", e[0])
		}
		if w.p.BufCreated != created || w.p.BufDeleted != deleted {
			d.fail("buffers", "after %s the controller has created %d and deleted %d buffers, the client asked for %d and %d", what, w.p.BufCreated, w.p.BufDeleted, created, deleted)
		}
	}
}

// refuse makes the controller refuse the next request of a service.
func (d *dt) refuse(svc byte) func() bool {
	st := []byte{0x01, 0x02, 0x05, 0x0C, 0x10, 0xFF}[d.r.IntN(6)]
	hit := false
	d.w.p.Lock()
	d.w.p.OnReq = func(q *plc.Req) *plc.Action {
		if q.Service == svc && len(q.Path) > 0 && q.Path[0].Val == 0xB2 && !hit {
			hit = true
			return &plc.Action{Reply: &plc.Reply{Status: st}}
		}
		return nil
	}
	d.w.p.Unlock()
	return func() bool {
		d.w.p.Lock()
		d.w.p.OnReq = nil
		d.w.p.Unlock()
		return hit
	}
}

func (d *dt) note(format string, a ...any) { d.hist = append(d.hist, fmt.Sprintf(format, a...)) }

// step does one random thing and checks its own effect.
func (d *dt) step() (what string) {
	t, r, w := d.t, d.r, d.w
	if d.closed {
		return d.afterClose()
	}
	var err error
	switch r.IntN(16) {
	case 0, 1:
		g := d.one()
		if r.IntN(8) == 0 {
			for _, tg := range w.p.TagList() {
				if tg.UDT != nil && strings.HasPrefix(tg.UDT.Name, "STRING") && tg.UDT.Name != "STRING" && r.IntN(3) == 0 {
					g = gdef{tag: tg, name: tg.Name, n: 1, bit: -1, typ: plc.STRUCT}
					g.def.Type = gologix.CIPTypeSTRING
					t.Count("custom_strings", 1)
				}
			}
		}
		typ := g.def.Type
		if g.typ == plc.STRUCT && r.IntN(3) == 0 {
			typ = gologix.CIPTypeStruct
		}
		d.note("AddTag %s", g.name)
		if !t.Guard("AddTag", func() { err = d.buf.AddTag(g.name, typ) }) {
			return ""
		}
		if err != nil {
			d.fail("error", "AddTag(%s, %v): %v", g.name, typ, err)
			return ""
		}
		d.add(g.name, g, nil)
		d.plain[g.name]++
		return "AddTag"
	case 2:
		g := d.one()
		v := reflect.New(tStr)
		if g.typ != plc.STRUCT {
			v = reflect.New(atomOf(g.typ).Go)
		}
		d.note("AddTagRef %s", g.name)
		if !t.Guard("AddTagRef", func() { err = d.buf.AddTagRef(g.name, v.Interface()) }) {
			return ""
		}
		if err != nil {
			d.fail("error", "AddTagRef(%s, %T): %v", g.name, v.Interface(), err)
			return ""
		}
		d.add(g.name, g, v.Interface())
		d.plain[g.name]++
		return "AddTagRef"
	case 3:
		m := map[string]gologix.CIPType{}
		gs := map[string]gdef{}
		for k := r.IntN(6); k > 0; k-- {
			g := d.one()
			m[g.name] = g.def.Type
			gs[g.name] = g
		}
		d.note("AddTags %v", rt.SortedKeys(m))
		if !t.Guard("AddTags", func() { err = d.buf.AddTags(m) }) {
			return ""
		}
		if err != nil {
			d.fail("error", "AddTags(%v): %v", m, err)
			return ""
		}
		for _, n := range rt.SortedKeys(gs) {
			d.add(n, gs[n], nil)
			d.plain[n]++
		}
		return "AddTags"
	case 4, 5:
		return d.addGroup()
	case 6:
		return d.addStruct()
	case 7:
		return d.addBad()
	case 8:
		hit := func() bool { return false }
		refused := r.IntN(5) == 0
		if refused {
			hit = d.refuse(0x4E)
		}
		d.note("SyncTags")
		if !t.Guard("SyncTags", func() { err = d.buf.SyncTags() }) {
			return ""
		}
		if refused && hit() {
			t.Count("refused", 1)
			d.past = "refused"
			if err == nil {
				d.fail("refused-ok", "SyncTags reports success though the controller refused to add the tags")
			}
			return "SyncTags refused"
		}
		if d.pendingBad() {
			if err == nil {
				d.fail("missing-ok", "SyncTags reports success though the controller does not have one of the tags")
			}
			return "SyncTags missing"
		}
		if err != nil {
			d.fail("error", "SyncTags of %d tags: %v", len(d.tags), err)
			return ""
		}
		d.compare("SyncTags", true)
		return "SyncTags"
	case 9, 10:
		return d.remove()
	case 15:
		if r.IntN(4) > 0 {
			return d.read()
		}
		hit := func() bool { return false }
		refused := r.IntN(6) == 0
		if refused {
			hit = d.refuse(0x09)
		}
		d.note("Close")
		if !t.Guard("Close", func() { err = d.buf.Close() }) {
			return ""
		}
		if refused && hit() {
			t.Count("refused", 1)
			if err == nil {
				d.fail("refused-ok", "Close reports success though the controller refused to delete the buffer")
			}
			// nothing more is known of it
			d.closed = true
			return "Close refused"
		}
		if err != nil {
			d.fail("error", "Close: %v", err)
			return ""
		}
		d.closed = true
		t.Count("closed", 1)
		return "Close"
	default:
		return d.read()
	}
}

func (d *dt) read() string {
	t, r, w := d.t, d.r, d.w
	how := []string{"ReadAll", "ReadAllRaw", "ReadAllTyped"}[r.IntN(3)]
	w.freshen()
	for _, tg := range w.p.TagList() {
		if tg.UDT != nil && strings.HasPrefix(tg.UDT.Name, "STRING") && tg.UDT != plc.StringUDT {
			n := tg.UDT.Members[1].Len
			b := make([]byte, tg.UDT.Size)
			k := []int{0, n, r.IntN(n + 1)}[r.IntN(3)]
			plc.LE.PutUint32(b, uint32(k))
			for i := 0; i < k; i++ {
				b[4+i] = byte(32 + r.IntN(90))
			}
			w.p.Poke(tg.Name, 0, b)
		}
	}
	for _, x := range d.tags {
		for _, ref := range x.refs {
			junk(r, reflect.ValueOf(ref).Elem())
		}
	}
	hit := func() bool { return false }
	refused := r.IntN(8) == 0
	svc := byte(0x4C)
	if refused {
		if r.IntN(2) == 0 {
			svc = 0x4E
		}
		hit = d.refuse(svc)
	}
	d.note("%s", how)
	var vals map[string]any
	var raws map[string][]byte
	var typed *gologix.TagGroupResult
	var err error
	ok := t.Guard(how, func() {
		switch how {
		case "ReadAll":
			vals, err = d.buf.ReadAll()
		case "ReadAllRaw":
			raws, err = d.buf.ReadAllRaw()
		case "ReadAllTyped":
			typed, err = d.buf.ReadAllTyped()
			t.Count("typed_reads", 1)
		}
	})
	if !ok {
		return ""
	}
	if refused && hit() {
		t.Count("refused", 1)
		d.past = "refused"
		if err == nil {
			d.fail("refused-ok", "%s reports success though the controller refused service %#x", how, svc)
		}
		return how + " refused"
	}
	if len(d.tags) == 0 {
		if err == nil {
			d.fail("empty-ok", "%s of an empty buffer gave no error", how)
		}
		return how + " empty"
	}
	if d.pendingBad() {
		if err == nil {
			d.fail("missing-ok", "%s reports success though the controller does not have one of the tags", how)
		}
		return how + " missing"
	}
	total := 0
	for _, x := range d.tags {
		total += x.size + 2
	}
	if err != nil {
		if total > 3500 {
			return how + " too much"
		}
		d.fail("error", "%s of %d tags: %v", how, len(d.tags), err)
		return ""
	}
	d.compare(how, true)
	want := map[string]any{}
	wraw := map[string][]byte{}
	for _, x := range d.tags {
		want[x.name] = x.value(w)
		wraw[x.name] = x.raw(w)
	}
	switch how {
	case "ReadAllRaw":
		if len(raws) != len(wraw) {
			d.fail("keys", "ReadAllRaw gave %v, the buffer holds %v", rt.SortedKeys(raws), rt.SortedKeys(wraw))
			return ""
		}
		for n, b := range wraw {
			t.Count("values", 1)
			if !bytes.Equal(raws[n], b) {
				d.fail("value", "ReadAllRaw: %s is %x, the controller has %x", n, raws[n], b)
				return ""
			}
		}
		return how
	case "ReadAllTyped":
		all := want
		w2 := map[string]any{}
		used := map[string]bool{}
		for _, g := range d.groups {
			if !g.multi {
				w2[g.base] = want[g.names[0]]
				used[g.names[0]] = true
				continue
			}
			l := []any{}
			for _, n := range g.names {
				l = append(l, want[n])
				used[n] = true
			}
			w2[g.base] = l
		}
		for n, v := range want {
			if !used[n] {
				w2[n] = v
			} else if d.plain[n] > 0 {
				if _, ok := w2[n]; !ok {
					w2[n] = v
				}
			}
		}
		want = w2
		vals = typed.Raw()
		for n := range d.unsure {
			if v, ok := vals[n]; !ok {
				delete(want, n)
			} else if x, ok := all[n]; ok && want[n] == nil && same(v, x) {
				want[n] = x
			}
		}
	}
	if len(vals) != len(want) {
		d.fail("keys", "%s gave %v, expected %v", how, rt.SortedKeys(vals), rt.SortedKeys(want))
		return ""
	}
	for n, v := range want {
		t.Count("values", 1)
		got, ok := vals[n]
		if !ok {
			d.fail("keys", "%s gave %v, expected %v", how, rt.SortedKeys(vals), rt.SortedKeys(want))
			return ""
		}
		if !sameList(got, v) {
			d.fail("value", "%s: %s is %s, the controller has %s", how, n, show(got), show(v))
			return ""
		}
	}
	for _, x := range d.tags {
		for _, ref := range x.refs {
			t.Count("refs_checked", 1)
			if v := reflect.ValueOf(ref).Elem().Interface(); !same(v, x.value(w)) {
				d.fail("reference", "after %s the variable of %s is %s, the controller has %s", how, x.name, show(v), show(x.value(w)))
				return ""
			}
		}
	}
	return how
}

func (d *dt) remove() string {
	t, r := d.t, d.r
	if len(d.tags) == 0 || r.IntN(10) == 0 {
		d.note("RemoveTag NotThere")
		if err := d.buf.RemoveTag("NotThere"); err == nil {
			d.fail("remove-ok", "RemoveTag of a tag that is not in the buffer gave no error")
		}
		return "RemoveTag unknown"
	}
	i := r.IntN(len(d.tags))
	if d.bad > 0 && r.IntN(2) == 0 {
		for k, x := range d.tags {
			if x.g.tag == nil {
				i = k
			}
		}
	}
	name := d.tags[i].name
	for k := range d.tags {
		if d.tags[k].name == name {
			i = k // the first of them goes
			break
		}
	}
	places, _ := d.w.p.BufferPlaces(uint32(d.buf.InstanceID()))
	rec := d.buf.Tags()
	at := false
	for _, x := range rec {
		if x.Name == name {
			for _, pl := range places {
				at = at || pl.Index == int(x.Index())
			}
			break
		}
	}
	hit := func() bool { return false }
	refused := r.IntN(6) == 0
	if refused {
		hit = d.refuse(0x4F)
	}
	d.note("RemoveTag %s", name)
	var err error
	if !t.Guard("RemoveTag", func() { err = d.buf.RemoveTag(name) }) {
		return ""
	}
	if refused && hit() {
		t.Count("refused", 1)
		d.past = "refused"
		if err == nil {
			d.fail("refused-ok", "RemoveTag reports success though the controller refused")
		}
		return "RemoveTag refused"
	}
	if err != nil {
		d.fail("error", "RemoveTag(%s), at the controller: %v: %v", name, at, err)
		return ""
	}
	t.Count("removed", 1)
	d.past = "removed"
	if !at {
		t.Count("removed_unsynced", 1)
	}
	if d.tags[i].g.tag == nil {
		d.bad--
	}
	if d.plain[name] > 0 {
		n := 0
		for _, x := range d.tags {
			if x.name == name {
				n++
			}
		}
		if d.plain[name] < n {
			d.unsure[name] = true
		}
		d.plain[name]--
	}
	d.tags = append(d.tags[:i:i], d.tags[i+1:]...)
	left := false
	for _, x := range d.tags {
		left = left || x.name == name
	}
	if !left {
		// groups that had it are no longer complete: what is left of them stands on its own
		keep := []dtGroup{}
		for _, g := range d.groups {
			has := false
			for _, n := range g.names {
				has = has || n == name
			}
			if !has {
				keep = append(keep, g)
			}
		}
		d.groups = keep
	}
	return fmt.Sprintf("RemoveTag synced=%v", at)
}

// expand lists the names of a definition's elements.
func (g gdef) expand() []string {
	if g.def.Elements <= 1 {
		return []string{g.name}
	}
	out := []string{}
	prefix, idx := g.name, ""
	last := 0
	if strings.HasSuffix(g.name, "]") {
		i := strings.LastIndex(g.name, "[")
		prefix = g.name[:i]
		inner := strings.Split(g.name[i+1:len(g.name)-1], ",")
		last, _ = strconv.Atoi(inner[len(inner)-1])
		if len(inner) > 1 {
			idx = strings.Join(inner[:len(inner)-1], ",") + ","
		}
	}
	for i := 0; i < g.n; i++ {
		out = append(out, fmt.Sprintf("%s[%s%d]", prefix, idx, last+i))
	}
	return out
}

// addAll records the elements of definitions; those of a group without references are added once each.
func (d *dt) addAll(defs []gdef, refs func(def, elem int) any) {
	seen := map[string]bool{}
	for k, g := range defs {
		names := g.expand()
		keep := []dtGroup{}
		for _, o := range d.groups {
			if o.base != g.name {
				keep = append(keep, o)
			}
		}
		d.groups = append(keep, dtGroup{g.name, names, len(names) > 1 || g.def.Elements > 1})
		for i, n := range names {
			e := g
			e.off += i
			e.n, e.def.Elements = 1, 1
			e.name = n
			if refs != nil {
				d.add(n, e, refs(k, i))
			} else if !seen[n] {
				d.add(n, e, nil)
			}
			seen[n] = true
		}
	}
}

// fresh keeps definitions whose base names are not those of other groups of another extent.
func (d *dt) fresh(defs []gdef) []gdef {
	out := []gdef{}
	for _, g := range defs {
		ok := d.plain[g.name] == 0
		for _, o := range d.groups {
			if o.base == g.name && len(o.names) != len(g.expand()) {
				ok = false
			}
			for _, n := range o.names {
				if n == g.name {
					ok = false
				}
			}
			for _, n := range g.expand() {
				if n == o.base {
					ok = false
				}
			}
		}
		if ok {
			out = append(out, g)
		}
	}
	return out
}

func (d *dt) addGroup() string {
	defs, args := d.w.group(1+d.r.IntN(4), 60, true)
	defs = d.fresh(defs)
	if len(defs) == 0 {
		return "nothing"
	}
	g := gologix.NewTagGroup(tagDefs(defs)...)
	names := []string{}
	for _, x := range defs {
		names = append(names, fmt.Sprintf("%s x%d", x.name, x.def.Elements))
	}
	d.note("AddTagGroup %v", names)
	var err error
	if !d.t.Guard("AddTagGroup", func() { err = d.buf.AddTagGroup(g, args...) }) {
		return ""
	}
	if err != nil {
		d.fail("error", "AddTagGroup(%+v, %v): %v", tagDefs(defs), args, err)
		return ""
	}
	d.addAll(defs, nil)
	return "AddTagGroup"
}

func (d *dt) addStruct() string {
	r := d.r
	defs, args := d.w.group(1+r.IntN(5), 60, true)
	defs = d.fresh(defs)
	if len(defs) == 0 {
		return "nothing"
	}
	fs := []reflect.StructField{}
	pos := []int{}
	for i := range defs {
		if r.IntN(3) == 0 {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("Free%d", i), Type: []reflect.Type{tI32, tStr, reflect.TypeOf(map[string]int{})}[r.IntN(3)]})
		}
		g := &defs[i]
		typ := tStr
		if g.typ != plc.STRUCT {
			typ = atomOf(g.typ).Go
		}
		if g.n > 1 || g.def.Elements > 1 {
			if r.IntN(2) == 0 {
				typ = reflect.ArrayOf(g.n, typ)
			} else {
				typ = reflect.SliceOf(typ)
			}
		}
		pos = append(pos, len(fs))
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("T%d", i), Type: typ, Tag: reflect.StructTag(`gologix:` + strconv.Quote(g.def.Name))})
	}
	v := reflect.New(reflect.StructOf(fs))
	names := []string{}
	for i, g := range defs {
		f := v.Elem().Field(pos[i])
		if f.Kind() == reflect.Slice {
			f.Set(reflect.MakeSlice(f.Type(), g.n, g.n))
		}
		names = append(names, fmt.Sprintf("%s %s", g.name, f.Type()))
	}
	d.note("AddTaggedStruct %v", names)
	if len(args) == 0 {
		args = nil
	}
	var err error
	if !d.t.Guard("AddTaggedStruct", func() { err = d.buf.AddTaggedStruct(v.Interface(), args...) }) {
		return ""
	}
	if err != nil {
		d.fail("error", "AddTaggedStruct(%v, %v): %v", names, args, err)
		return ""
	}
	d.addAll(defs, func(def, elem int) any {
		f := v.Elem().Field(pos[def])
		if f.Kind() == reflect.Slice || f.Kind() == reflect.Array {
			return f.Index(elem).Addr().Interface()
		}
		return f.Addr().Interface()
	})
	return "AddTaggedStruct"
}

// addBad adds what cannot be read: a name or type that cannot be used gives an error and changes nothing, a tag the
// controller does not have makes syncing fail until it is removed.
func (d *dt) addBad() string {
	t, r := d.t, d.r
	before := len(d.buf.Tags())
	var err error
	what := ""
	ok := true
	switch r.IntN(8) {
	case 0, 1, 2:
		if d.bad > 0 && r.IntN(3) > 0 {
			return "nothing"
		}
		n := uniqueName(r, d.w.used, 3, 20)
		d.note("AddTag missing %s", n)
		if err := d.buf.AddTag(n, gologix.CIPTypeDINT); err != nil {
			return "AddTag missing refused"
		}
		d.tags = append(d.tags, dtTag{name: n, size: 4})
		d.plain[n]++
		d.bad++
		return "AddTag missing"
	case 3:
		n := []string{"", "a[", "a[x]", "a.b[1", strings.Repeat("n", 256), "a..b", "a[-1]", "a[4294967296]"}[r.IntN(8)]
		what = fmt.Sprintf("AddTag(%q)", n)
		ok = t.Guard("AddTag", func() { err = d.buf.AddTag(n, gologix.CIPTypeDINT) })
	case 4:
		what = "AddTag of no type"
		ok = t.Guard("AddTag", func() { err = d.buf.AddTag(d.one().name, gologix.CIPTypeUnknown) })
	case 5:
		what = "AddTags with a bad name"
		g := d.one()
		ok = t.Guard("AddTags", func() {
			err = d.buf.AddTags(map[string]gologix.CIPType{g.name: g.def.Type, "bad[": gologix.CIPTypeDINT})
		})
	case 6:
		what = "AddTagGroup with a bad name"
		g := d.one()
		ok = t.Guard("AddTagGroup", func() {
			err = d.buf.AddTagGroup(gologix.NewTagGroup(gologix.TagDef{Name: g.name, Type: g.def.Type}, gologix.TagDef{Name: "bad[{0}", Type: gologix.CIPTypeDINT, Elements: 1 + r.IntN(4)}), "x")
		})
	case 7:
		// a bit is not a value of its own in a buffer; were it taken, it would have to read as the bit
		what = "AddTag of a bit"
		for try := 0; try < 20; try++ {
			g := d.one()
			if g.tag.Type == plc.STRUCT || g.typ == plc.BOOL || g.typ == plc.REAL || g.typ == plc.LREAL {
				continue
			}
			d.note("AddTag bit")
			g.bit = r.IntN(8 * plc.Size(g.typ))
			g.name += fmt.Sprintf(".%d", g.bit)
			buf, e := d.c.NewDataTableBuffer()
			if e != nil {
				d.fail("error", "%v", e)
				return ""
			}
			want := g.want(d.w)
			err = buf.AddTag(g.name, gologix.CIPTypeBOOL)
			if err == nil {
				m, e := buf.ReadAll()
				if e == nil && !same(m[g.name], want) {
					d.fail("bit", "ReadAll of %s gave %v, the controller has %v", g.name, m[g.name], want)
				}
				err = fmt.Errorf("took it")
			}
			buf.Close()
			d.w.p.Lock()
			d.w.p.BufCreated--
			d.w.p.BufDeleted--
			d.w.p.Unlock()
			break
		}
		return "AddTag bit"
	}
	d.note("%s", what)
	if !ok {
		return ""
	}
	if err == nil {
		d.fail("bad-ok", "%s gave no error", what)
		return ""
	}
	if n := len(d.buf.Tags()); n != before {
		d.fail("record", "%s gave an error and changed the number of tags from %d to %d", what, before, n)
	}
	return what[:min(len(what), 12)]
}

func (d *dt) afterClose() string {
	t := d.t
	from := d.w.p.LogLen()
	var err error
	what := ""
	g := d.one()
	ok := true
	none := false
	switch d.r.IntN(9) {
	case 0:
		what = "AddTag"
		ok = t.Guard(what, func() { err = d.buf.AddTag(g.name, g.def.Type) })
	case 1:
		what = "AddTags"
		ok = t.Guard(what, func() { err = d.buf.AddTags(map[string]gologix.CIPType{g.name: g.def.Type}) })
	case 2:
		what = "AddTagGroup"
		ok = t.Guard(what, func() { err = d.buf.AddTagGroup(gologix.NewTagGroup(g.def), "a", "b", "c", "d") })
	case 3:
		what = "SyncTags"
		ok = t.Guard(what, func() { err = d.buf.SyncTags() })
	case 4:
		what = "ReadAll"
		ok = t.Guard(what, func() { _, err = d.buf.ReadAll() })
	case 5:
		what = "ReadAllRaw"
		ok = t.Guard(what, func() { _, err = d.buf.ReadAllRaw() })
	case 6:
		what = "ReadAllTyped"
		ok = t.Guard(what, func() { _, err = d.buf.ReadAllTyped() })
	case 7:
		what = "RemoveTag"
		n := g.name
		if len(d.tags) > 0 {
			n = d.tags[0].name
		}
		ok = t.Guard(what, func() { err = d.buf.RemoveTag(n) })
	case 8:
		what, none = "Close", true
		ok = t.Guard(what, func() { err = d.buf.Close() })
	}
	d.note("%s after close", what)
	t.Count("after_close", 1)
	if !ok {
		return ""
	}
	if none && err != nil {
		d.fail("close-again", "Close of a closed buffer: %v", err)
	}
	if !none && err == nil {
		d.fail("closed-ok", "%s of a closed buffer gave no error", what)
	}
	for _, q := range d.w.p.Requests(from) {
		if len(q.Path) > 0 && q.Path[0].Kind == 'C' && q.Path[0].Val == 0xB2 {
			d.fail("closed-request", "%s of a closed buffer sent service %#x to buffer %s", what, q.Service, plc.PathString(q.Path))
		}
	}
	return what + " closed"
}

// c20Large adds more tags at once than one request can name.
func c20Large(t *rt.T) {
	r := t.R
	w := newWorld(t)
	size := []uint16{0, 500, 1000, 4000}[r.IntN(4)]
	c := dial(t, w.p, size)
	if c == nil {
		return
	}
	cs := int(size)
	if cs == 0 {
		cs = 4000
	}
	n := []int{2, 254, 255, 256, 257, 300, 511, 512, 600, 10 + r.IntN(400)}[r.IntN(10)]
	code := []byte{plc.SINT, plc.INT, plc.DINT}[r.IntN(3)]
	if room := (cs - 100) / plc.Size(code); n > room {
		n = room
	}
	buf, err := c.NewDataTableBuffer()
	if err != nil {
		t.Fail("error", "%v", err)
		return
	}
	arr := w.addArray(code, n)
	long := ""
	if r.IntN(2) == 0 {
		long = strings.Repeat("Long", 9)
	}
	type ent struct {
		name string
		off  int
	}
	ents := []ent{}
	if long == "" && r.IntN(2) == 0 {
		g := gologix.NewTagGroup(gologix.TagDef{Name: "{0}", Type: gologix.CIPType(code), Elements: n})
		err = buf.AddTagGroup(g, arr.Name)
		for i := 0; i < n; i++ {
			ents = append(ents, ent{fmt.Sprintf("%s[%d]", arr.Name, i), i})
		}
	} else {
		m := map[string]gologix.CIPType{}
		for i := 0; i < n; i++ {
			nm := fmt.Sprintf("%s[%d]", arr.Name, i)
			if long != "" {
				tg := w.p.Add(&plc.Tag{Name: fmt.Sprintf("%s%d", long, i), Type: code, Data: randElem(r, code)})
				nm = tg.Name
			}
			m[nm] = gologix.CIPType(code)
			ents = append(ents, ent{nm, i})
		}
		err = buf.AddTags(m)
	}
	if err != nil {
		t.Fail("error", "adding %d tags: %v", n, err)
		return
	}
	t.Count("large_syncs", 1)
	for round := 0; round < 3; round++ {
		w.p.Poke(arr.Name, 0, randData(r, code, n))
		var vals map[string]any
		if !t.Guard("ReadAll", func() { vals, err = buf.ReadAll() }) {
			return
		}
		t.Eval(fmt.Sprintf("large %s size=%d long=%v", class(n), size, long != ""))
		if err != nil {
			batches := n/200 + 2 + n*60/(cs-60)
			if n*plc.Size(code)+2*batches+50 > cs {
				break // the values may not fit one reply
			}
			t.Fail("error", "ReadAll of %d tags (%s, size %d, long %v): %v", n, plc.TypeName(code), cs, long != "", err)
			return
		}
		if len(vals) != n {
			t.Fail("keys", "ReadAll of %d tags gave %d values", n, len(vals))
			return
		}
		for _, e := range ents {
			var want any
			if long != "" {
				want = plc.Value(code, w.p.Peek(e.name))
			} else {
				want = plc.Value(code, w.p.Peek(arr.Name)[plc.Size(code)*e.off:])
			}
			t.Count("values", 1)
			if !same(vals[e.name], want) {
				t.Fail("value", "ReadAll of %d tags: %s is %v, the controller has %v", n, e.name, vals[e.name], want)
				return
			}
		}
		// and some leave
		if round == 0 {
			for k := 0; k < 5 && len(ents) > 1; k++ {
				i := r.IntN(len(ents))
				if err := buf.RemoveTag(ents[i].name); err != nil {
					t.Fail("error", "RemoveTag: %v", err)
					return
				}
				ents = append(ents[:i:i], ents[i+1:]...)
				n--
			}
		}
		n2, _ := w.p.BufferPlaces(uint32(buf.InstanceID()))
		if len(n2) != len(ents) {
			t.Fail("record", "the controller's buffer has %d entries, the client's %d", len(n2), len(ents))
		}
		if round == 0 {
			n = len(ents)
			// Poke needs the whole array
			n = len(ents)
			arrN := arr.Elems()
			w.p.Poke(arr.Name, 0, randData(r, code, arrN))
			continue
		}
		break
	}
	if e := append(w.p.WireErrors(), w.p.SizeErrors()...); len(e) > 0 {
		t.Fail("wire", "%d tags: %s", n, e[0])
	}
	if err := buf.Close(); err != nil {
		t.Fail("error", "Close: %v", err)
	}
}

// c20Parallel uses buffers of one client from several goroutines, one each.
func c20Parallel(t *rt.T) {
	w := groupWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		defs, args := w.group(4, 60, true)
		wants := []any{}
		for _, g := range defs {
			wants = append(wants, g.want(w))
		}
		g := gologix.NewTagGroup(tagDefs(defs)...)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 5; i++ {
				buf, err := c.NewDataTableBuffer()
				if err != nil {
					t.Fail("error", "NewDataTableBuffer: %v", err)
					return
				}
				if err := buf.AddTagGroup(g, args...); err != nil {
					t.Fail("error", "AddTagGroup: %v", err)
					return
				}
				for j := 0; j < 3; j++ {
					res, err := buf.ReadAllTyped()
					if err != nil {
						t.Fail("error", "ReadAllTyped: %v", err)
						return
					}
					for n, d := range defs {
						if v, err := res.Value(d.name); err != nil || !sameList(v, wants[n]) {
							t.Fail("value", "in parallel: %s is %s (%v), the controller has %s", d.name, show(v), err, show(wants[n]))
							return
						}
						t.Count("values", 1)
					}
				}
				if err := buf.Close(); err != nil {
					t.Fail("error", "Close: %v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
	t.Eval("parallel")
	if len(w.p.Buffers()) != 0 {
		t.Fail("buffers", "%d buffers are left at the controller", len(w.p.Buffers()))
	}
}

// DtBase is embedded.
type DtBase struct {
	Note   string
	Common int32 `gologix:"DtCommon"`
	Own    int16 `gologix:"Dt{0}Own"`
}

type dtMachine struct {
	Skip   int32
	Speed  float32 `gologix:"Dt{0}Speed"`
	DtBase `json:"base"`
	Table  [3]int32 `gologix:"Dt{0}Table[1]"`
	One    []int32  `gologix:"Dt{0}Table[0]"`
	Text   string   `gologix:"Dt{0}Text"`
	Again  int32    `gologix:"DtCommon"`
	On     bool     `gologix:"Dt{0}On"`
	Names  []string `gologix:"Dt{0}Names[0]"`
}

// c20Structs uses struct types with embedded structs, arrays, one-element slices and shared tags.
func c20Structs(t *rt.T) {
	r := t.R
	for round := 0; round < 20 && !t.Failed(); round++ {
		w := newWorld(t)
		w.p.Add(&plc.Tag{Name: "DtCommon", Type: plc.DINT, Data: randElem(r, plc.DINT)})
		for k := 1; k <= 3; k++ {
			n := fmt.Sprintf("Dt%d", k)
			w.p.Add(&plc.Tag{Name: n + "Speed", Type: plc.REAL, Data: randElem(r, plc.REAL)})
			w.p.Add(&plc.Tag{Name: n + "Own", Type: plc.INT, Data: randElem(r, plc.INT)})
			w.p.Add(&plc.Tag{Name: n + "Table", Type: plc.DINT, Dims: []int{5}, Data: randData(r, plc.DINT, 5)})
			w.p.Add(&plc.Tag{Name: n + "Text", Type: plc.STRUCT, UDT: plc.StringUDT, Data: make([]byte, 88)})
			w.p.Add(&plc.Tag{Name: n + "Names", Type: plc.STRUCT, UDT: plc.StringUDT, Dims: []int{4}, Data: make([]byte, 352)})
			w.p.Add(&plc.Tag{Name: n + "On", Type: plc.BOOL, Data: randElem(r, plc.BOOL)})
		}
		c := dial(t, w.p, 0)
		if c == nil {
			return
		}
		buf, err := c.NewDataTableBuffer()
		if err != nil {
			t.Fail("error", "%v", err)
			return
		}
		ms := make([]dtMachine, 3)
		order := r.Perm(3)
		order = order[:1+r.IntN(3)]
		for _, k := range order {
			ms[k].Names = make([]string, 1+r.IntN(4))
			ms[k].One = make([]int32, 1)
			ms[k].Skip, ms[k].Note = 4711, "note"
			if !t.Guard("AddTaggedStruct", func() { err = buf.AddTaggedStruct(&ms[k], k+1) }) {
				return
			}
			if err != nil {
				t.Fail("struct-error", "AddTaggedStruct: %v", err)
				return
			}
			if r.IntN(2) == 0 {
				if err := buf.SyncTags(); err != nil {
					t.Fail("error", "SyncTags: %v", err)
				}
			}
		}
		for i := 0; i < 3 && !t.Failed(); i++ {
			w.freshen()
			if i == 1 && r.IntN(2) == 0 {
				if _, err = buf.ReadAllTyped(); err != nil {
					t.Fail("error", "ReadAllTyped of %d structs: %v", len(order), err)
					return
				}
			} else if _, err = buf.ReadAll(); err != nil {
				t.Fail("struct-error", "ReadAll of %d structs: %v", len(order), err)
				return
			}
			t.Eval(fmt.Sprintf("structs %d", len(order)))
			for _, k := range order {
				n := fmt.Sprintf("Dt%d", k+1)
				m := ms[k]
				tab := goSlice(plc.DINT, w.p.Peek(n+"Table")).Interface().([]int32)
				common := plc.Value(plc.DINT, w.p.Peek("DtCommon"))
				names := []string{}
				for j := range m.Names {
					names = append(names, plc.GetString(w.p.Peek(n + "Names")[88*j:]))
				}
				for _, f := range []struct {
					name      string
					got, want any
				}{
					{"Skip", m.Skip, int32(4711)}, {"Note", m.Note, "note"}, {"Common", m.Common, common}, {"Again", m.Again, common},
					{"Own", m.Own, plc.Value(plc.INT, w.p.Peek(n+"Own"))}, {"Speed", m.Speed, plc.Value(plc.REAL, w.p.Peek(n+"Speed"))},
					{"Table", m.Table[:], tab[1:4]}, {"One", m.One, tab[:1]}, {"Text", m.Text, plc.GetString(w.p.Peek(n + "Text"))},
					{"Names", m.Names, names}, {"On", m.On, plc.Value(plc.BOOL, w.p.Peek(n+"On"))},
				} {
					t.Count("refs_checked", 1)
					if !same(f.got, f.want) {
						t.Fail("reference", "after reading %d structs the field %s is %s, it should be %s", len(order), f.name, show(f.got), show(f.want))
					}
				}
			}
		}
		// what cannot hold a value
		before := len(buf.Tags())
		var x dtMachine
		ch := struct {
			C chan int `gologix:"DtCommon"`
		}{}
		un := struct {
			c int32 `gologix:"DtCommon"`
		}{}
		_ = un.c
		nest := struct {
			N struct{ A int32 } `gologix:"DtCommon"`
		}{}
		empty := struct {
			E []int32 `gologix:"Dt1Table[0]"`
		}{}
		for name, v := range map[string]any{"no pointer": x, "nil": nil, "nil pointer": (*dtMachine)(nil), "an int": 5, "a pointer to an int": new(int), "a channel": &ch, "an unexported field": &un, "a struct field": &nest, "no elements": &empty} {
			bb, err := c.NewDataTableBuffer()
			if err != nil {
				t.Fail("error", "%v", err)
				return
			}
			if !t.Guard("AddTaggedStruct", func() { err = bb.AddTaggedStruct(v, 1) }) {
				return
			}
			t.Eval("struct " + name)
			if err == nil {
				// it has to be found when reading
				if !t.Guard("ReadAll", func() { _, err = bb.ReadAll() }) {
					return
				}
				if err == nil {
					t.Fail("struct-ok", "AddTaggedStruct of %s and ReadAll gave no error", name)
				}
			}
			for i, ref := range []any{nil, 5, "x", (*int32)(nil), []int32{1}, new(chan int), struct{ A int }{}} {
				err = nil
				if !t.Guard("AddTagRef", func() { err = bb.AddTagRef("DtCommon", ref) }) {
					return
				}
				if err == nil && i > 0 {
					if !t.Guard("ReadAll", func() { _, err = bb.ReadAll() }) {
						return
					}
					if err == nil {
						t.Fail("ref-ok", "AddTagRef with %T and ReadAll gave no error", ref)
					}
				}
			}
			bb.Close()
		}
		if n := len(buf.Tags()); n != before {
			t.Fail("record", "the buffer had %d tags, it has %d", before, n)
		}
		buf.Close()
		c.Disconnect()
	}
}

// c20Calls: the calls a buffer is made of, on their own.
func c20Calls(t *rt.T) {
	w := newWorld(t)
	r := t.R
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	type entry struct {
		tag        *plc.Tag
		off, size  int
		index, bat int
	}
	type buffer struct {
		id      uint16
		entries []entry
		index   int
		batch   int
	}
	var tags []*plc.Tag
	for i := 0; i < 12; i++ {
		a := atoms[r.IntN(len(atoms))]
		if i%2 == 0 {
			tags = append(tags, w.addAtomic(a.Code))
		} else {
			tags = append(tags, w.addArray(a.Code, 1+r.IntN(300)))
		}
	}
	var bufs []*buffer
	var gone []uint16
	for step := 0; step < 60 && !t.Failed(); step++ {
		what := ""
		k := r.IntN(10)
		if len(bufs) == 0 {
			k = 0
		}
		switch {
		case k == 0:
			what = "create"
			var id uint16
			var err error
			if !t.Guard("create", func() { id, err = c.CreateDataTableBuffer() }) {
				return
			}
			if err != nil {
				t.Fail("calls", "CreateDataTableBuffer: %v", err)
				return
			}
			bufs = append(bufs, &buffer{id: id})
			gone = slices.DeleteFunc(gone, func(x uint16) bool { return x == id })
		case k < 5:
			what = "add"
			b := bufs[r.IntN(len(bufs))]
			tg := tags[r.IntN(len(tags))]
			sz := plc.Size(tg.Type)
			e := entry{tag: tg, size: sz}
			path := tagPath(tg.Name)
			if n := len(tg.Data) / sz; n > 1 {
				i := r.IntN(n)
				e.off = i * sz
				path = tagPath(tg.Name, i)
				e.size = sz * (1 + r.IntN(min(n-i, 20)))
			}
			bad := r.IntN(6)
			switch bad {
			case 0:
				path = tagPath("nosuch")
			case 1:
				path = path[:len(path)-1] // no whole number of words
			case 2:
				path = tagPath(strings.Repeat("a.", 130) + strings.Repeat("b", 20)) // longer than the length byte can say
				for len(path) < 512 {
					path = append(path, tagPath(tg.Name)...)
				}
			}
			var got uint16
			var err error
			if !t.Guard("add", func() { got, err = c.DataTableAddTag(b.id, uint16(e.size), path) }) {
				return
			}
			if bad < 3 {
				what = fmt.Sprintf("add bad %d", bad)
				if err == nil {
					t.Fail("calls", "DataTableAddTag with the path % X (%d bytes) reports success", path[:min(len(path), 40)], len(path))
				}
				break
			}
			if err != nil || int(got) != b.batch+1 {
				t.Fail("calls", "DataTableAddTag(%d, %d, % X) gives %d, %v; the controller's answer was %d", b.id, e.size, path, got, err, b.batch+1)
				return
			}
			b.batch++
			b.index++
			e.index, e.bat = b.index, b.batch
			b.entries = append(b.entries, e)
		case k < 6:
			what = "remove"
			b := bufs[r.IntN(len(bufs))]
			index := 1 + r.IntN(b.index+2)
			i := slices.IndexFunc(b.entries, func(e entry) bool { return e.index == index })
			var err error
			if !t.Guard("remove", func() { err = c.DataTableRemoveTag(b.id, uint16(index)) }) {
				return
			}
			if (err == nil) != (i >= 0) {
				t.Fail("calls", "DataTableRemoveTag(%d, %d): %v; there is such an entry: %v", b.id, index, err, i >= 0)
				return
			}
			what = fmt.Sprintf("remove %v", i >= 0)
			if i >= 0 {
				b.entries = slices.Delete(b.entries, i, i+1)
			}
		case k < 9:
			what = "read"
			b := bufs[r.IntN(len(bufs))]
			for _, e := range b.entries {
				w.p.Poke(e.tag.Name, e.off, randBytes(r, e.size))
			}
			var want []byte
			last := 0
			for _, e := range b.entries {
				if e.bat != last {
					last = e.bat
					want = plc.LE.AppendUint16(want, uint16(last))
				}
				want = append(want, w.p.Peek(e.tag.Name)[e.off:e.off+e.size]...)
			}
			var item *gologix.CIPItem
			var err error
			if !t.Guard("read", func() { item, err = c.DataTableReadBuffer(b.id) }) {
				return
			}
			if err != nil || !bytes.Equal(item.Rest(), want) {
				t.Fail("calls", "DataTableReadBuffer(%d) of %d entries: %v, want % X", b.id, len(b.entries), err, want[:min(len(want), 60)])
				return
			}
			what = fmt.Sprintf("read %s", qclass(len(b.entries)))
		default:
			what = "delete"
			i := r.IntN(len(bufs))
			if !t.Guard("delete", func() {
				if err := c.DeleteDataTableBuffer(bufs[i].id); err != nil {
					t.Fail("calls", "DeleteDataTableBuffer(%d): %v", bufs[i].id, err)
				}
			}) {
				return
			}
			gone = append(gone, bufs[i].id)
			bufs = slices.Delete(bufs, i, i+1)
			id := gone[r.IntN(len(gone))]
			_, err := c.DataTableReadBuffer(id)
			_, err2 := c.DataTableAddTag(id, 1, tagPath(tags[0].Name))
			if err == nil || err2 == nil || c.DataTableRemoveTag(id, 1) == nil || c.DeleteDataTableBuffer(id) == nil {
				t.Fail("calls", "buffer %d is deleted; read %v, add %v", id, err, err2)
			}
		}
		t.Count("calls", 1)
		t.Eval("call " + what)
		have := w.p.Buffers()
		if len(have) != len(bufs) {
			t.Fail("calls", "after %s the controller has %d buffers instead of %d", what, len(have), len(bufs))
			return
		}
		for _, b := range bufs {
			places, ok := w.p.BufferPlaces(uint32(b.id))
			if !ok || len(places) != len(b.entries) {
				t.Fail("calls", "after %s buffer %d has %d entries instead of %d", what, b.id, len(places), len(b.entries))
				return
			}
			for i, e := range b.entries {
				if x := places[i]; x.Tag != lower(e.tag.Name) || x.Off != e.off || x.Size != e.size || x.Index != e.index {
					t.Fail("calls", "after %s entry %d of buffer %d is %+v instead of %d bytes of %s from %d", what, i, b.id, x, e.size, e.tag.Name, e.off)
					return
				}
			}
		}
		if e := w.p.WireErrors(); len(e) > 0 {
			t.Fail("calls-wire", "%s: %s", what, e[0])
			return
		}
	}
}
