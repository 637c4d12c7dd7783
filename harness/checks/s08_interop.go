package checks

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"reflect"
	"slices"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/rt"
)

// S08: the library's client and the library's server understand each other.

func init() {
	register(&rt.Check{
		ID: "S08",
		Rule: "each evaluation is one call of the library's client to the library's server over TCP, its result compared with a model of the provider and the provider's map compared with the model after it; connections that were given up are probed from another session; " +
			"non-trivial = distinct (call, shape of the tag, elements, connection size, outcome)",
		Assumptions: []string{"what the server has no service for (bits written, structures, data table buffers) has to be reported, not done", "no other client touches a provider's map meanwhile"},
		Cases:       s08Cases,
		MinEvents:   []string{"client_reads", "client_writes", "reads_refused", "writes_refused", "multi_reads", "multi_writes", "listings", "described", "unsupported", "reconnects", "connections_probed", "connections_gone", "fragmented", "maps_compared", "connects"},
		Races:       true,
		Exclusive:   true,
		Shards:      1,
	})
}

func s08Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 220, 3500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("history-%d", i), Run: s08History})
	}
	return append(cs, rt.Case{Name: "numbers", Run: s08Numbers})
}

// s08Numbers: a client that listed the tags of a controller of revision 21 or later asks for them by number.
func s08Numbers(t *rt.T) {
	router := gologix.NewRouter()
	router.Handle([]byte{1, 0}, &gologix.MapTagProvider{Data: map[string]any{"alpha": int32(11), "beta": int32(22)}})
	if startServer(t, router, false, func(s *gologix.Server) { s.Attributes[4] = int16(33) }) == nil {
		return
	}
	cl := gologix.NewClient("127.0.0.1")
	cl.Logger = quietLog{}
	cl.SocketTimeout = 15 * time.Second
	if err := cl.Connect(); err != nil {
		t.Fail("connect", "Connect: %v", err)
		return
	}
	defer cl.Disconnect()
	for _, listed := range []bool{false, true} {
		if listed {
			if err := cl.ListAllTags(0); err != nil {
				t.Fail("list", "ListAllTags: %v", err)
				return
			}
		}
		for name, want := range map[string]int32{"alpha": 11, "beta": 22} {
			got := int32(-1)
			err := cl.Read(name, &got)
			t.Eval(fmt.Sprintf("by number %v %v", listed, err == nil))
			switch {
			case err == nil && got != want:
				t.Fail("by-number-value", "%s is %d, Read gives %d (listed: %v)", name, want, got, listed)
			case err != nil && !listed:
				t.Fail("read-failed", "Read(%q): %v", name, err)
			case err != nil && got != -1:
				t.Fail("by-number-value", "Read(%q) fails and gives %d", name, got)
			case err != nil:
				t.Fail("by-number-refused", "revision 33: Read(%q) of an int32 after ListAllTags, which asks for it by symbol number, fails: %v", name, err)
			}
		}
	}
	// the session is still good
	if _, err := cl.ListIdentity(); err != nil {
		t.Fail("identity", "ListIdentity: %v", err)
	}
}

// peer is a client and the provider it talks to.
type peer struct {
	t     *rt.T
	r     *rand.Rand
	srv   *server
	st    *store
	cl    *gologix.Client
	route []byte
	size  uint16
	id    *identity
	up    bool
	left  []uint32 // connections given up
}

func s08History(t *rt.T) {
	r := t.R
	router := gologix.NewRouter()
	id := anyIdentity(r)
	id.gone = 0
	id.words[4] = id.words[4]&0xFF00 | uint16(r.IntN(21)) // by-number reads of later revisions have a case of their own
	for i := 1; i <= 5; i++ {
		id.attrs[gologix.CIPAttribute(i)] = id.words[i]
	}
	id.attrs[6], id.attrs[7] = id.serial, id.name
	var peers []*peer
	for i := 0; i < 1+r.IntN(3); i++ {
		st := newStore(t, r, 3+r.IntN(14), false)
		if r.IntN(3) == 0 { // one that doesn't fit any connection
			n := 1200 + r.IntN(3000)
			a := atomOf(s02Codes[r.IntN(len(s02Codes))])
			c := &cell{key: uniqueName(r, st.names, 1, 24), elem: a.Go, array: true, vals: randElems(r, a.Go, n)}
			st.cells[lower(c.key)] = c
			st.p.Data[c.key] = c.goValue()
		}
		p := &peer{t: t, r: r, st: st, route: []byte{1, byte(i)}, id: id, size: []uint16{200, 500, 504, 511, 1000, 2000, 4000, 4000, 20000, 65000}[r.IntN(10)]}
		if r.IntN(4) == 0 {
			p.route = []byte{1, byte(i), 2, byte(r.IntN(250))}
		}
		router.Handle(p.route, st.p)
		peers = append(peers, p)
	}
	srv := startServer(t, router, false, func(s *gologix.Server) { s.Attributes = id.attrs })
	if srv == nil {
		return
	}
	for _, p := range peers {
		p.srv = srv
		p.cl = gologix.NewClient("127.0.0.1")
		p.cl.Logger = quietLog{}
		p.cl.SocketTimeout = 15 * time.Second
		p.cl.AutoConnect = r.IntN(2) == 0
		p.cl.ConnectionSize = p.size
		p.cl.KeepAliveAutoStart = r.IntN(3) == 0
		p.cl.KeepAliveFrequency = 50 * time.Millisecond
		if len(p.route) > 2 || p.route[1] != 0 || r.IntN(2) == 0 { // else it is where it always is
			text := ""
			for i, b := range p.route {
				if i > 0 {
					text += ","
				}
				text += strconv.Itoa(int(b))
			}
			path, err := gologix.ParsePath(text)
			if err != nil {
				t.Fail("path", "ParsePath(%q): %v", text, err)
				return
			}
			p.cl.Controller.Path = bytes.NewBuffer(path.Bytes())
		}
		if !p.connect() {
			return
		}
		t.Cleanup(func() { p.cl.Disconnect() })
	}
	// somebody else works on another provider all the while.
	noise := newNoise(t, router, srv)
	defer noise()
	for i := 30 + r.IntN(50); i > 0 && !t.Failed(); i-- {
		p := peers[r.IntN(len(peers))]
		if !p.up && r.IntN(2) == 0 && !p.connect() {
			return
		}
		if !p.step() {
			return
		}
		if r.IntN(4) == 0 {
			for _, o := range peers {
				if o != p && !o.st.settle("what another client did", nil) {
					return
				}
			}
		}
	}
	for _, p := range peers {
		if p.up && !t.Failed() && !p.disconnect() {
			return
		}
	}
}

// newNoise is a client that keeps going; the result stops it.
func newNoise(t *rt.T, router *gologix.PathRouter, srv *server) func() {
	p := &gologix.MapTagProvider{Data: map[string]any{"n": int32(0), "a": make([]int32, 900)}}
	router.Handle([]byte{1, 77}, p)
	cl := gologix.NewClient("127.0.0.1")
	cl.Logger = quietLog{}
	cl.Controller.Path = bytes.NewBuffer([]byte{1, 77})
	cl.SocketTimeout = 15 * time.Second
	if err := cl.Connect(); err != nil {
		t.Fail("connect", "Connect: %v", err)
		return func() {}
	}
	var stop atomic.Bool
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer cl.Disconnect()
		for n := int32(1); !stop.Load(); n++ {
			if err := cl.Write("n", n); err != nil {
				t.Fail("noise", "Write: %v", err)
				return
			}
			var got int32
			if err := cl.Read("n", &got); err != nil || got != n {
				t.Fail("noise", "%d was written, %d is read: %v", n, got, err)
				return
			}
			a := make([]int32, 900)
			if err := cl.Read("a", a); err != nil {
				t.Fail("noise", "reading an array: %v", err)
				return
			}
			time.Sleep(time.Millisecond)
		}
	}()
	return func() { stop.Store(true); <-done }
}

func (p *peer) connect() bool {
	t := p.t
	begin := time.Now()
	if err := p.cl.Connect(); err != nil {
		t.Fail("connect", "Connect on route % X with size %d: %v", p.route, p.size, err)
		return false
	}
	if d := time.Since(begin); d > 8*time.Second {
		t.Fail("connect-slow", "Connect took %v", d)
		return false
	}
	t.Count("connects", 1)
	p.up = true
	return true
}

// disconnect disconnects one way or the other and looks whether the server still has the connection.
func (p *peer) disconnect() bool {
	t, r := p.t, p.r
	ot := p.cl.OTNetworkConnectionID
	c := p.srv.session(t, 0)
	if c == nil {
		return false
	}
	defer c.c.Close()
	probe := &sopen{c: c, ot: ot, route: p.route, size: 4000}
	open := func() (bool, error) {
		probe.seq++
		f, err := c.roundtrip(0x70, connectedData(ot, probe.seq, 1, attrPath(0x64, 1, -1), nil))
		if err != nil {
			return false, err
		}
		rep, err := parseReply(f)
		return rep.ok(), err
	}
	if p.size > 300 {
		is, err := open()
		if err != nil || !is {
			t.Fail("probe", "the client's connection %#x can't be seen: %v", ot, err)
			return false
		}
		t.Count("connections_probed", 1)
	}
	p.up = false
	how := "Disconnect"
	begin := time.Now()
	if r.IntN(4) == 0 {
		how = "closing the socket"
		p.cl.DebugCloseConn()
		if err := p.cl.Disconnect(); r.IntN(2) == 0 && err != nil {
			t.Count("disconnect_errors", 1)
		}
	} else if err := p.cl.Disconnect(); err != nil {
		t.Fail("disconnect", "Disconnect: %v", err)
		return false
	}
	if d := time.Since(begin); d > 8*time.Second {
		t.Fail("disconnect-slow", "%s took %v", how, d)
		return false
	}
	wait := 8 * time.Second
	if !soon(wait, func() bool {
		is, err := open()
		return err == nil && !is
	}) {
		t.Fail("left-behind", "after %s the server still has connection %#x", how, ot)
		return false
	}
	t.Count("connections_gone", 1)
	t.Eval("gone after " + how)
	return true
}

func (p *peer) step() bool {
	switch k := p.r.IntN(24); {
	case !p.up && k < 12:
		return true
	case k == 0:
		if !p.up {
			return true
		}
		if !p.disconnect() {
			return false
		}
		p.t.Count("reconnects", 1)
		return p.connect()
	case !p.up:
		if !p.cl.AutoConnect { // everything fails, and says so
			var x int32
			if err := p.cl.Read("whatever", &x); err == nil {
				p.t.Fail("unconnected", "Read succeeds without a connection")
				return false
			}
			return true
		}
		p.up = true
		return p.read()
	case k < 8:
		return p.read()
	case k < 13:
		return p.write()
	case k < 16:
		return p.readSeveral()
	case k < 18:
		return p.writeSeveral()
	case k < 20:
		return p.list()
	case k < 22:
		return p.describe()
	}
	return p.unsupported()
}

// callName is what a client calls it.
func callName(name string, idx int) string {
	if idx < 0 {
		return name
	}
	return fmt.Sprintf("%s[%d]", name, idx)
}

func (p *peer) pick() *cell {
	keys := rt.SortedKeys(p.st.cells)
	return p.st.cells[keys[p.r.IntN(len(keys))]]
}

// span draws a place in a tag with a number of elements; bad ones aren't there.
func (p *peer) span(c *cell, bad bool) (name string, idx, qty int) {
	r := p.r
	name = recase(r, c.key)
	idx, qty = -1, 1
	if c.array && len(c.vals) > 0 {
		qty = 1 + r.IntN(len(c.vals))
		if r.IntN(2) == 0 {
			qty = min(qty, 1+r.IntN(5))
		}
		if r.IntN(3) > 0 {
			idx = r.IntN(len(c.vals) - qty + 1)
		}
		if c.key[len(c.key)-1] == ']' { // an index of such a name can't be written
			idx = -1
		}
	}
	if bad {
		switch r.IntN(4) {
		case 0:
			name = uniqueName(r, p.st.names, 5, 30)
		case 1:
			if idx < 0 {
				idx = 0
			}
			idx += len(c.vals)
		case 2:
			qty = len(c.vals) + 1
			if idx > 0 {
				qty -= idx
			}
		case 3:
			name += "." + randName(r, 1, 8)
		}
		if name[len(name)-1] == ']' {
			idx = -1
		}
	}
	return name, idx, qty
}

func (p *peer) read() bool {
	t, r := p.t, p.r
	c := p.pick()
	name, idx, qty := p.span(c, r.IntN(5) == 0)
	want := p.st.read(name, idx, qty)
	tag := callName(name, idx)
	v := reflect.New(c.elem)
	if qty > 1 || c.array && r.IntN(3) == 0 {
		v = reflect.New(reflect.SliceOf(c.elem))
		v.Elem().Set(reflect.MakeSlice(v.Elem().Type(), qty, qty))
	}
	junk(r, v.Elem())
	api := "Read"
	var err error
	var got []any
	single := gologix.CIPTypeUnknown
	if c.elem != tBool {
		single, _ = gologix.GoVarToCIPType(reflect.Zero(c.elem).Interface())
	}
	ok := true
	if r.IntN(4) == 0 && single != gologix.CIPTypeUnknown {
		api = "Read_single"
		var x any
		ok = t.Guard(api, func() { x, err = p.cl.Read_single(tag, single, uint16(qty)) })
		got = elemsOf(x)
		if c.elem == tStr { // strings come as bytes from this one
			if qty == 1 {
				got = []any{x}
			}
			for i := range got {
				if b, ok := got[i].([]byte); ok {
					got[i] = string(b)
				}
			}
		}
	} else {
		ok = t.Guard(api, func() {
			if v.Elem().Kind() == reflect.Slice {
				err = p.cl.Read(tag, v.Elem().Interface())
				return
			}
			err = p.cl.Read(tag, v.Interface())
		})
		got = elemsOf(v.Elem().Interface())
	}
	if !ok {
		return false
	}
	t.Count("client_reads", 1)
	what := fmt.Sprintf("%s(%q) of %d %v over a connection of %d", api, tag, qty, c.elem, p.size)
	t.Eval(fmt.Sprintf("%s %s %s size %d %v", api, c.shape(), qclass(qty), p.size, err == nil))
	if want == nil || len(want) > 0 && reflect.TypeOf(want[0]) != c.elem {
		t.Count("reads_refused", 1)
		if err == nil {
			t.Fail("read-accepted", "%s reports success: %s", what, show(got))
			return false
		}
		return p.st.settle(what, nil)
	}
	if err != nil && c.elem == tBool && v.Elem().Kind() == reflect.Slice { // the client has no bool arrays
		t.Count("bool_arrays", 1)
		return p.st.settle(what, nil)
	}
	if err != nil && c.elem == tStr && 88*qty+20 > int(p.size) { // the client doesn't put parts of structures together
		t.Count("long_strings", 1)
		return p.st.settle(what, nil)
	}
	if err != nil {
		t.Fail("read-failed", "%s: %v; the tag is %s of %s", what, err, c.shape(), p.st.length(c))
		return false
	}
	if len(wireElems(want)) > int(p.size) {
		t.Count("fragmented", 1)
	}
	if !same(got, want) {
		t.Fail("read-value", "%s gives %s, the tag has %s", what, show(got), show(want))
		return false
	}
	return p.st.settle(what, nil)
}

// elemsOf is a value's elements.
func elemsOf(v any) []any {
	rv := reflect.ValueOf(v)
	if rv.IsValid() && (rv.Kind() == reflect.Slice || rv.Kind() == reflect.Array) {
		l := []any{}
		for i := 0; i < rv.Len(); i++ {
			l = append(l, rv.Index(i).Interface())
		}
		return l
	}
	return []any{v}
}

// packedValue is one value or a slice of them.
func packedValue(elem reflect.Type, vals []any, slice bool) any {
	if len(vals) == 1 && !slice {
		return vals[0]
	}
	return (&cell{elem: elem, array: true, vals: vals}).goValue()
}

func (p *peer) write() bool {
	t, r := p.t, p.r
	c := p.pick()
	name, idx, qty := p.span(c, r.IntN(5) == 0)
	size := 88
	if c.elem != tStr {
		size = int(c.elem.Size())
	}
	if qty*size > int(p.size)-100 && r.IntN(6) > 0 {
		qty = max(1, (int(p.size)-100)/size)
	}
	vals := randElems(r, c.elem, qty)
	fate, after := p.st.write(name, idx, vals)
	tag := callName(name, idx)
	fits := qty*size+len(tag)*2+40 <= int(p.size)
	v := packedValue(c.elem, vals, r.IntN(3) == 0)
	api := "Write"
	var err error
	var ok bool
	if r.IntN(4) == 0 {
		api = "WriteMap"
		ok = t.Guard(api, func() { err = p.cl.WriteMap(map[string]any{tag: v}) })
	} else {
		ok = t.Guard(api, func() { err = p.cl.Write(tag, v) })
	}
	if !ok {
		return false
	}
	t.Count("client_writes", 1)
	what := fmt.Sprintf("%s(%q, %s) over a connection of %d", api, tag, show(v), p.size)
	t.Eval(fmt.Sprintf("%s %s %s size %d %v", api, c.shape(), qclass(qty), p.size, err == nil))
	switch {
	case err == nil && fate == mustRefuse:
		t.Fail("write-accepted", "%s reports success; the tag is %s of %s", what, c.shape(), p.st.length(c))
		return false
	case err != nil && fate == mustAccept && fits && !(c.elem == tBool && reflect.TypeOf(v).Kind() == reflect.Slice):
		t.Fail("write-failed", "%s: %v; the tag is %s of %s", what, err, c.shape(), p.st.length(c))
		return false
	case err != nil:
		t.Count("writes_refused", 1)
		after = nil
	}
	return p.st.settle(what, after)
}

// several draws places in different tags.
func (p *peer) several(n, room int) []slot {
	var l []slot
	used := map[*cell]bool{}
	for tries := 0; len(l) < n && tries < 3*n; tries++ {
		c := p.pick()
		if used[c] || c.array && len(c.vals) == 0 {
			continue
		}
		used[c] = true
		name, idx, qty := p.span(c, false)
		if c.elem == tBool { // the client has no bool arrays
			qty = 1
		}
		size := 88
		if c.elem != tStr {
			size = int(c.elem.Size())
		}
		qty = min(qty, max(1, (room-len(name)*2-40)/size))
		tag := callName(name, idx)
		s := slot{name: tag, elem: reflect.Zero(c.elem).Interface(), elems: qty, bytes: qty*size + 2*len(tag), kind: c.shape()}
		s.zero = s.elem
		vals := p.st.read(name, idx, qty)
		s.want = vals[0]
		if qty > 1 {
			s.zero = reflect.MakeSlice(reflect.SliceOf(c.elem), qty, qty).Interface()
			s.want = packedValue(c.elem, vals, true)
		}
		l = append(l, s)
	}
	return l
}

func (p *peer) readSeveral() bool {
	t, r := p.t, p.r
	slots := p.several(1+r.IntN(8), int(p.size))
	if len(slots) == 0 {
		return true
	}
	api := multiAPIs[r.IntN(len(multiAPIs))]
	if r.IntN(6) == 0 { // many, the same ones several times
		n := 20 + r.IntN(600)
		for len(slots) < n {
			slots = append(slots, p.several(8, 100)...)
		}
		seen := map[string]bool{}
		slots = slices.DeleteFunc(slots, func(s slot) bool { // some have each name once
			if api != "ReadMultiMap" && api != "ReadMap" && api != "ReadTagGroup" {
				return false
			}
			was := seen[s.name]
			seen[s.name] = true
			return was
		})
		t.Count("long_multi_reads", 1)
	}
	bad := r.IntN(6) == 0 && api != "ReadTagGroup"
	if bad {
		i := r.IntN(len(slots))
		slots[i].name = uniqueName(r, p.st.names, 5, 20)
	}
	got, err, ok := multiRead(t, p.cl, api, slots)
	if !ok {
		return false
	}
	t.Count("multi_reads", 1)
	kinds := ""
	for _, s := range slots {
		kinds += " " + s.kind
	}
	t.Eval(fmt.Sprintf("%s%s size %d %v", api, kinds, p.size, err == nil))
	what := fmt.Sprintf("%s of %d tags over a connection of %d", api, len(slots), p.size)
	if bad {
		if err == nil {
			t.Fail("read-accepted", "%s reports success, one of them isn't there", what)
			return false
		}
		return p.st.settle(what, nil)
	}
	if err != nil {
		t.Fail("read-failed", "%s: %v;%s", what, err, kinds)
		return false
	}
	for i, s := range slots {
		if !same(elemsOf(got[i]), elemsOf(s.want)) {
			t.Fail("read-value", "%s: %s gives %s, the tag has %s", what, s.name, show(got[i]), show(s.want))
			return false
		}
	}
	return p.st.settle(what, nil)
}

func (p *peer) writeSeveral() bool {
	t, r := p.t, p.r
	slots := p.several(1+r.IntN(6), min(int(p.size), 300)/2)
	if len(slots) == 0 {
		return true
	}
	m := map[string]any{}
	var fs []reflect.StructField
	var afters []*cell
	for i, s := range slots {
		e := reflect.TypeOf(s.elem)
		vals := randElems(r, e, s.elems)
		v := packedValue(e, vals, false)
		m[s.name] = v
		fs = append(fs, reflect.StructField{Name: fmt.Sprintf("T%d", i), Type: reflect.TypeOf(v), Tag: reflect.StructTag(`gologix:` + strconv.Quote(s.name))})
		// where it goes
		name, idx := s.name, -1
		if c := p.st.cells[lower(name)]; c == nil {
			k := lastIndex(name)
			idx, _ = strconv.Atoi(name[k+1 : len(name)-1])
			name = name[:k]
		}
		fate, after := p.st.write(name, idx, vals)
		if fate != mustAccept {
			t.Fail("harness", "%s", s.name)
			return false
		}
		afters = append(afters, after)
	}
	api := "WriteMap"
	var err error
	var ok bool
	if r.IntN(2) == 0 {
		api = "WriteMulti"
		v := reflect.New(reflect.StructOf(fs)).Elem()
		for i, s := range slots {
			v.Field(i).Set(reflect.ValueOf(m[s.name]))
		}
		ok = t.Guard(api, func() { err = p.cl.WriteMulti(v.Interface()) })
	} else {
		ok = t.Guard(api, func() { err = p.cl.WriteMap(m) })
	}
	if !ok {
		return false
	}
	t.Count("multi_writes", 1)
	kinds := ""
	for _, s := range slots {
		kinds += " " + s.kind
	}
	t.Eval(fmt.Sprintf("%s%s size %d %v", api, kinds, p.size, err == nil))
	what := fmt.Sprintf("%s of %v over a connection of %d", api, show(m), p.size)
	if err != nil {
		t.Fail("write-failed", "%s: %v;%s", what, err, kinds)
		return false
	}
	for _, a := range afters {
		p.st.cells[lower(a.key)] = a
	}
	return p.st.settle(what, nil)
}

func lastIndex(s string) int {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == '[' {
			return i
		}
	}
	return -1
}

func (p *peer) list() bool {
	t := p.t
	for k := range p.cl.KnownTags {
		delete(p.cl.KnownTags, k)
	}
	var err error
	if !t.Guard("ListAllTags", func() { err = p.cl.ListAllTags(0) }) {
		return false
	}
	t.Count("listings", 1)
	t.Eval(fmt.Sprintf("ListAllTags %s size %d %v", qclass(len(p.st.cells)), p.size, err == nil))
	if err != nil {
		t.Fail("list", "ListAllTags of %d tags over a connection of %d: %v", len(p.st.cells), p.size, err)
		return false
	}
	if len(p.cl.KnownTags) != len(p.st.cells) {
		t.Fail("list", "ListAllTags found %d of %d tags", len(p.cl.KnownTags), len(p.st.cells))
		return false
	}
	for k, c := range p.st.cells {
		kt, ok := p.cl.KnownTags[k]
		if !ok {
			kt, ok = p.cl.KnownTags[c.key]
		}
		if !ok || kt.Name != c.key {
			t.Fail("list", "ListAllTags found %q as %+v", c.key, kt)
			return false
		}
		if c.elem != tStr && atomGo(byte(kt.Info.Type)) != c.elem {
			t.Fail("list-type", "ListAllTags found %q as %v, its elements are %v", c.key, kt.Info.Type, c.elem)
			return false
		}
	}
	return p.st.settle("ListAllTags", nil)
}

func (p *peer) describe() bool {
	t, r := p.t, p.r
	t.Count("described", 1)
	switch r.IntN(4) {
	case 0:
		got, err := p.cl.ListIdentity()
		if err != nil || got.ProductName != string(shortString(p.id.name)[1:]) || got.SerialNumber != p.id.serial || uint16(got.Vendor) != p.id.words[1] {
			t.Fail("identity", "ListIdentity: %+v %v, configured is %v", got, err, p.id.attrs)
			return false
		}
	case 1:
		got, err := p.cl.ListServices()
		if err != nil || len(got) != 1 || got[0].Name != "Communications" {
			t.Fail("services", "ListServices: %+v %v", got, err)
			return false
		}
	case 2:
		a := gologix.CIPAttribute(1 + r.IntN(255))
		v, there := p.id.attrs[a]
		if r.IntN(2) == 0 {
			a = gologix.CIPAttribute(1 + r.IntN(7))
			v, there = p.id.attrs[a]
		}
		item, err := p.cl.GetAttrSingle(gologix.CipObject_Identity, 1, a)
		if !there || len(wireAttr(v))+6 > int(p.size) {
			if !there && err == nil {
				t.Fail("attribute", "GetAttrSingle of %d, which there is not: % X", a, item.Data)
				return false
			}
			break
		}
		if err != nil || !bytes.Equal(item.Rest(), wireAttr(v)) {
			t.Fail("attribute", "GetAttrSingle of %d, which is %v: %v %v", a, v, item, err)
			return false
		}
	case 3:
		item, err := p.cl.GenericCIPMessage(gologix.CIPService_GetAttributeAll, []byte{0x20, 1, 0x24, 1}, nil)
		want := p.id.all()
		if len(want)+6 > int(p.size) {
			break
		}
		if err != nil || !bytes.Equal(item.Rest(), want) {
			t.Fail("generic", "GenericCIPMessage Get Attributes All: %v %v, configured is %s", item, err, hexs(want))
			return false
		}
	}
	t.Eval("describe " + p.id.shape())
	return true
}

// unsupported does what the server has no service for.
func (p *peer) unsupported() bool {
	t, r := p.t, p.r
	t.Count("unsupported", 1)
	c := p.pick()
	var err error
	what := ""
	ok := true
	switch r.IntN(5) {
	case 0:
		if c.elem == tStr || c.elem == tBool || c.elem == tF32 || c.elem == tF64 || c.array {
			return true
		}
		what = fmt.Sprintf("Write(%q.1, true)", c.key)
		ok = t.Guard(what, func() { err = p.cl.Write(c.key+".1", true) })
	case 1:
		what = "CreateDataTableBuffer"
		ok = t.Guard(what, func() { _, err = p.cl.CreateDataTableBuffer() })
	case 2:
		what = "GetControllerPropList"
		ok = t.Guard(what, func() { _, err = p.cl.GetControllerPropList() })
	case 3:
		what = "ListMembers"
		ok = t.Guard(what, func() { _, err = p.cl.ListMembers(uint32(r.IntN(4000))) })
	case 4:
		type s struct {
			A, B int32
			C    [3]int16
		}
		var v s
		if c.elem == tStr { // which is a structure
			return true
		}
		what = fmt.Sprintf("Read(%q, struct)", c.key)
		ok = t.Guard(what, func() { err = p.cl.Read(c.key, &v) })
		if err == nil {
			t.Fail("unsupported", "%s reports success: %+v", what, v)
			return false
		}
	}
	if !ok {
		return false
	}
	t.Eval("unsupported " + what[:6])
	if err == nil {
		t.Fail("unsupported", "%s reports success", what)
		return false
	}
	// the session is still good
	return p.st.settle(what, nil) && p.read()
}
