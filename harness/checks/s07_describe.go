package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/rand/v2"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

// S07: a server describes itself the same way however it is asked: as it was configured.

func init() {
	register(&rt.Check{
		ID: "S07",
		Rule: "each evaluation is one reply of a real server that describes it (identity by ListIdentity, Get Attributes All, Get Attribute Single; services; symbols; tags by number), taken apart byte by byte and compared with what was configured; " +
			"non-trivial = distinct (service, way of asking, identity shape, tags, attributes asked for, connection size, status)",
		Assumptions: []string{"a description that doesn't fit a small connection may be refused instead"},
		Cases:       s07Cases,
		MinEvents:   []string{"identities", "list_identity", "list_services", "all_attributes", "single_attributes", "missing_attributes", "symbol_lists", "symbols_seen", "numbered_tags", "renumbered", "client_lists"},
		Exclusive:   true,
		Shards:      1,
	})
}

func s07Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 60, 1500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("identity-%d", i), Run: s07Identity})
	}
	for i := 0; i < tiered(tier, 60, 1500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("symbols-%d", i), Run: s07Symbols})
	}
	return cs
}

// identity is what a server is told it is.
type identity struct {
	words  [6]uint16 // 1 to 5
	serial uint32
	name   string
	attrs  map[gologix.CIPAttribute]any
	gone   int // attribute there is not, 0 if they are all there
}

func anyWord(r *rand.Rand) uint16 {
	return []uint16{0, 1, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, uint16(r.Uint32()), uint16(r.Uint32()), uint16(r.Uint32())}[r.IntN(12)]
}

func anyIdentity(r *rand.Rand) *identity {
	id := &identity{serial: r.Uint32(), attrs: map[gologix.CIPAttribute]any{}}
	for i := 1; i <= 5; i++ {
		w := anyWord(r)
		id.words[i] = w
		if r.IntN(2) == 0 {
			id.attrs[gologix.CIPAttribute(i)] = w
		} else {
			id.attrs[gologix.CIPAttribute(i)] = int16(w)
		}
	}
	if r.IntN(4) == 0 {
		id.serial = []uint32{0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}[r.IntN(5)]
	}
	id.attrs[6] = id.serial
	n := []int{0, 1, 2, 7, 31, 32, 33, 34, 127, 128, 254, 255, 256, 300, 1000}[r.IntN(15)]
	if r.IntN(3) == 0 {
		n = r.IntN(260)
	}
	var name strings.Builder
	for name.Len() < n {
		name.WriteByte(byte(1 + r.IntN(255)))
	}
	id.name = name.String()
	id.attrs[7] = id.name
	// others that only Get Attribute Single tells.
	for k := r.IntN(4); k > 0; k-- {
		a := gologix.CIPAttribute(8 + r.IntN(240))
		switch r.IntN(8) {
		case 0:
			id.attrs[a] = byte(r.Uint32())
		case 1:
			id.attrs[a] = int8(r.Uint32())
		case 2:
			id.attrs[a] = anyWord(r)
		case 3:
			id.attrs[a] = int32(r.Uint32())
		case 4:
			id.attrs[a] = r.Uint64()
		case 5:
			id.attrs[a] = float32(r.NormFloat64())
		case 6:
			id.attrs[a] = strings.Repeat("x", r.IntN(50))
		case 7:
			id.attrs[a] = int16(anyWord(r))
		}
	}
	if r.IntN(5) == 0 {
		id.gone = 1 + r.IntN(7)
		delete(id.attrs, gologix.CIPAttribute(id.gone))
	}
	return id
}

// shortString is a string as one byte of length and that many characters.
func shortString(s string) []byte {
	if len(s) > 255 {
		s = s[:255]
	}
	return append([]byte{byte(len(s))}, s...)
}

// wireAttr is an attribute's value alone.
func wireAttr(v any) []byte {
	switch x := v.(type) {
	case string:
		return shortString(x)
	case float32:
		return plc.LE.AppendUint32(nil, math.Float32bits(x))
	}
	rv := reflect.ValueOf(v)
	if rv.CanInt() {
		return plc.LE.AppendUint64(nil, uint64(rv.Int()))[:rv.Type().Size()]
	}
	return plc.LE.AppendUint64(nil, rv.Uint())[:rv.Type().Size()]
}

// all is what Get Attributes All of the identity object returns.
func (id *identity) all() []byte {
	var b []byte
	for _, w := range id.words[1:] {
		b = plc.LE.AppendUint16(b, w)
	}
	b = plc.LE.AppendUint32(b, id.serial)
	return append(b, shortString(id.name)...)
}

func (id *identity) shape() string {
	return fmt.Sprintf("name %d gone %d %d attributes", len(id.name), id.gone, len(id.attrs))
}

func s07Identity(t *rt.T) {
	r := t.R
	id := anyIdentity(r)
	router := gologix.NewRouter()
	p := &gologix.MapTagProvider{Data: map[string]any{"tag": int32(1)}}
	route := []byte{1, 0}
	router.Handle(route, p)
	srv := startServer(t, router, false, func(s *gologix.Server) {
		if r.IntN(2) == 0 {
			s.Attributes = id.attrs
			return
		}
		for k := range s.Attributes {
			delete(s.Attributes, k)
		}
		for k, v := range id.attrs {
			s.Attributes[k] = v
		}
	})
	if srv == nil {
		return
	}
	t.Count("identities", 1)
	var wg sync.WaitGroup
	for g := 0; g < 1+r.IntN(3); g++ {
		r := rt.NewRand(r.Uint64(), "asker")
		c := srv.session(t, r.Uint32())
		if c == nil {
			break
		}
		conn := c.class3(t, r, route, []int{60, 100, 300, 500, 4000}[r.IntN(5)])
		if conn == nil {
			break
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 40 && !t.Failed(); k++ {
				s07Ask(t, r, id, conn, route)
			}
		}()
	}
	// who hasn't registered may ask what it is, too.
	if c, err := srv.dialFrom(""); err == nil {
		for k := 0; k < 4 && !t.Failed(); k++ {
			if k%2 == 0 {
				s07ListIdentity(t, id, c, "unregistered")
			} else {
				s07ListServices(t, c, "unregistered")
			}
		}
		c.c.Close()
	}
	wg.Wait()
	if t.Failed() {
		return
	}
	// the library's own client.
	local := fmt.Sprintf("127.0.%d.%d", r.IntN(200), 1+r.IntN(200))
	cl := gologix.NewClient(local)
	cl.Logger = discardLogger
	cl.SocketTimeout = 10 * time.Second
	if err := cl.Connect(); err != nil {
		t.Fail("connect", "Connect(%s): %v", local, err)
		return
	}
	defer cl.Disconnect()
	t.Count("client_lists", 1)
	got, err := cl.ListIdentity()
	switch {
	case id.gone != 0:
		if err == nil {
			t.Fail("client-identity", "ListIdentity returns %+v although attribute %d isn't there", *got, id.gone)
			return
		}
	case err != nil:
		t.Fail("client-identity", "ListIdentity with %s: %v", id.shape(), err)
		return
	default:
		name := string(shortString(id.name)[1:])
		ip := net.ParseIP(local).To4()
		addr := uint32(ip[0])<<24 | uint32(ip[1])<<16 | uint32(ip[2])<<8 | uint32(ip[3])
		if got.EncapProtocolVersion != 1 || uint16(got.Vendor) != id.words[1] || uint16(got.DeviceType) != id.words[2] || got.ProductCode != id.words[3] || got.Revision != id.words[4] ||
			got.Status != id.words[5] || got.SerialNumber != id.serial || got.ProductName != name || got.SocketAddress.Family != 2 || got.SocketAddress.Port != 44818 || got.SocketAddress.Address != addr {
			t.Fail("client-identity", "ListIdentity of %s returns %+v, configured is %v", local, *got, id.attrs)
			return
		}
	}
	t.Eval("client ListIdentity " + id.shape())
	svcs, err := cl.ListServices()
	if err != nil || len(svcs) != 1 || svcs[0].Name != "Communications" || svcs[0].EncapProtocolVersion != 1 || svcs[0].Capabilities&0x120 != 0x120 {
		t.Fail("client-services", "ListServices: %+v %v", svcs, err)
		return
	}
	t.Eval("client ListServices")
}

// s07Ask asks once.
func s07Ask(t *rt.T, r *rand.Rand, id *identity, conn *sopen, route []byte) {
	c := conn.c
	switch k := r.IntN(10); {
	case k == 0:
		s07ListIdentity(t, id, c, "registered")
		return
	case k == 1:
		s07ListServices(t, c, "registered")
		return
	case k < 6:
		attr := 1 + r.IntN(7)
		if r.IntN(2) == 0 {
			attr = 1 + r.IntN(255)
		}
		if r.IntN(3) == 0 {
			keys := []int{}
			for a := range id.attrs {
				keys = append(keys, int(a))
			}
			sort.Ints(keys)
			attr = keys[r.IntN(len(keys))]
		}
		class, inst := 1, 1
		if r.IntN(10) == 0 {
			class = []int{2, 3, 0x65, 0xF5}[r.IntN(4)]
		} else if r.IntN(10) == 0 {
			inst = []int{0, 2, 255, 256}[r.IntN(4)]
		}
		rep, how, err := s07Send(r, conn, route, 0x0E, attrPath(class, inst, attr))
		what := fmt.Sprintf("%s Get Attribute Single of %d/%d/%d", how, class, inst, attr)
		if err != nil {
			t.Fail("reply", "%s: %v", what, err)
			return
		}
		t.Count("single_attributes", 1)
		v, there := id.attrs[gologix.CIPAttribute(attr)]
		if class != 1 || inst != 1 || !there {
			t.Count("missing_attributes", 1)
			if rep.ok() || len(rep.data) > 0 {
				t.Fail("missing", "%s: there is no such attribute, the reply is %s", what, rep)
			}
			t.Eval(fmt.Sprintf("single %s missing %#x", how, rep.status))
			return
		}
		s07Compare(t, what, how, conn, rep, wireAttr(v))
		t.Eval(fmt.Sprintf("single %s %T %d %#x", how, v, len(wireAttr(v)), rep.status))
		return
	}
	class, want := 1, id.all()
	if r.IntN(2) == 0 {
		class, want = 0x64, shortString(id.name)
	}
	there := id.gone == 0 || class == 0x64 && id.gone != 7
	inst := 1
	if r.IntN(12) == 0 {
		inst, there = []int{0, 2, 256}[r.IntN(3)], false
	}
	rep, how, err := s07Send(r, conn, route, 1, attrPath(class, inst, -1))
	what := fmt.Sprintf("%s Get Attributes All of %#x/%d", how, class, inst)
	if err != nil {
		t.Fail("reply", "%s with %s: %v", what, id.shape(), err)
		return
	}
	t.Count("all_attributes", 1)
	t.Eval(fmt.Sprintf("all %#x %s %s %d %#x", class, how, id.shape(), conn.size, rep.status))
	if !there {
		if rep.ok() || len(rep.data) > 0 {
			t.Fail("missing", "%s with %s: the reply is %s", what, id.shape(), rep)
		}
		return
	}
	s07Compare(t, what, how, conn, rep, want)
}

// s07Send sends a request one of the ways there are.
func s07Send(r *rand.Rand, conn *sopen, route []byte, svc byte, path []byte) (rep sreply, how string, err error) {
	switch r.IntN(3) {
	case 0:
		rep, err = conn.request(svc, path, nil)
		if err == nil && rep.size > conn.size {
			err = fmt.Errorf("reply of %d bytes over a connection of %d", rep.size, conn.size)
		}
		return rep, "connected", err
	case 1:
		rep, err = conn.c.direct(cipRequest(svc, path, nil))
		return rep, "direct", err
	}
	rep, err = conn.c.direct(wrap(cipRequest(svc, path, nil), route))
	return rep, "wrapped", err
}

func s07Compare(t *rt.T, what, how string, conn *sopen, rep sreply, want []byte) {
	if how == "connected" && len(want)+6 > conn.size {
		t.Count("too_long", 1)
		if rep.ok() {
			t.Fail("incomplete", "%s over a connection of %d: %s, what is configured takes %d bytes", what, conn.size, rep, len(want))
		}
		return
	}
	if !rep.ok() || !bytes.Equal(rep.data, want) {
		t.Fail("value", "%s: %s, configured is %s", what, rep, hexs(want))
	}
}

func s07ListIdentity(t *rt.T, id *identity, c *sconn, how string) {
	f, err := c.roundtrip(0x63, nil)
	if err != nil {
		t.Fail("list-identity", "%s ListIdentity: %v", how, err)
		return
	}
	t.Count("list_identity", 1)
	t.Eval("list identity " + how + " " + id.shape())
	if id.gone != 0 {
		if f.status == 0 {
			t.Fail("missing", "ListIdentity without attribute %d: %s", id.gone, hexs(f.data))
		}
		return
	}
	ip := c.c.RemoteAddr().(*net.TCPAddr).IP.To4()
	b := []byte{1, 0, 0, 2, 0xAF, 0x12, ip[0], ip[1], ip[2], ip[3], 0, 0, 0, 0, 0, 0, 0, 0}
	b = append(b, id.all()...)
	n := len(b) + 1 // the state, which isn't configured
	want := append([]byte{1, 0, 0x0C, 0, byte(n), byte(n >> 8)}, b...)
	if f.status != 0 || len(f.data) != len(want)+1 || !bytes.Equal(f.data[:len(want)], want) {
		t.Fail("list-identity", "%s ListIdentity: status %#x, %s, configured is %s and a state", how, f.status, hexs(f.data), hexs(want))
	}
}

func s07ListServices(t *rt.T, c *sconn, how string) {
	f, err := c.roundtrip(0x04, nil)
	if err != nil {
		t.Fail("list-services", "%s ListServices: %v", how, err)
		return
	}
	t.Count("list_services", 1)
	t.Eval("list services " + how)
	want := append([]byte{1, 0, 0, 1, 20, 0, 1, 0}, 0x20, 1)
	want = append(want, "Communications\x00\x00"...)
	if f.status != 0 || len(f.data) != len(want) || !bytes.Equal(f.data[:8], want[:8]) || !bytes.Equal(f.data[10:], want[10:]) || plc.LE.Uint16(f.data[8:])&0x120 != 0x120 {
		t.Fail("list-services", "%s ListServices: status %#x, %s", how, f.status, hexs(f.data))
	}
}

// listedTags is a provider that isn't the library's.
type listedTags struct {
	*gologix.MapTagProvider
	tags []gologix.ServerTagInfo
}

func (l *listedTags) TagList() []gologix.ServerTagInfo { return l.tags }

// attrSize is how many bytes a symbol's attribute takes, 0 for the name.
var s07Attrs = map[uint16]int{1: 0, 2: 2, 3: 4, 5: 4, 6: 4, 8: 12, 10: 1}

func s07Symbols(t *rt.T) {
	r := t.R
	n := r.IntN(20)
	if r.IntN(3) == 0 {
		n = r.IntN(400)
	}
	if r.IntN(12) == 0 {
		n = 500 + r.IntN(800)
	}
	st := newStore(t, r, n, false)
	types := map[string]uint16{}       // exactly
	elems := map[string]reflect.Type{} // any type that has these values
	names := []string{}
	for _, k := range rt.SortedKeys(st.cells) {
		c := st.cells[k]
		names = append(names, c.key)
		if c.elem != tStr {
			elems[c.key] = c.elem
		}
	}
	var p gologix.CIPEndpoint = st.p
	own := r.IntN(4) == 0
	if own {
		l := &listedTags{MapTagProvider: st.p}
		for _, k := range names {
			ty := gologix.CIPType(0xC1 + r.IntN(10))
			types[k] = uint16(ty)
			l.tags = append(l.tags, gologix.ServerTagInfo{Name: k, Type: ty})
		}
		r.Shuffle(len(l.tags), func(i, j int) { l.tags[i], l.tags[j] = l.tags[j], l.tags[i] })
		p = l
	}
	router := gologix.NewRouter()
	route := []byte{1, 0}
	if r.IntN(4) == 0 {
		route = freeRoute(r, map[string]bool{})
	}
	router.Handle(route, p)
	// a provider with the same names numbers them the same.
	twinRoute := []byte{9, byte(r.IntN(255)), 1, 7}
	twin := &gologix.MapTagProvider{Data: map[string]any{}}
	for _, i := range r.Perm(len(names)) {
		twin.Data[names[i]] = int32(i)
	}
	router.Handle(twinRoute, twin)
	srv := startServer(t, router, false, nil)
	if srv == nil {
		return
	}
	c := srv.session(t, 0)
	if c == nil {
		return
	}
	numbers := map[string]uint32{}
	byNumber := map[uint32]string{}
	for k := 0; k < 12 && !t.Failed(); k++ {
		to := route
		if k > 8 {
			to = twinRoute
		}
		size := []int{100, 120, 200, 500, 511, 2000, 4000}[r.IntN(7)]
		if n > 200 {
			size = max(size, 200)
		}
		conn := c.class3(t, r, to, size)
		if conn == nil {
			return
		}
		got := s07List(t, r, conn, k == 0)
		if got == nil {
			return
		}
		conn.close()
		t.Count("symbol_lists", 1)
		if got.start > 0 { // only what comes from there on
			for name, inst := range numbers {
				if inst < uint32(got.start) {
					continue
				}
				if got.byName != nil && got.byName[name] != inst {
					t.Fail("from", "%s has number %d, a listing from %d has it as %d", name, inst, got.start, got.byName[name])
					return
				}
				if !got.insts[inst] {
					t.Fail("from", "%s has number %d, a listing from %d doesn't have it", name, inst, got.start)
					return
				}
			}
		} else if len(got.insts) != len(names) {
			t.Fail("count", "%d tags, a listing with attributes %v over a connection of %d has %d", len(names), got.attrs, size, len(got.insts))
			return
		}
		for inst := range got.insts {
			if k > 0 && byNumber[inst] == "" {
				t.Fail("number", "a listing has number %d, which no tag has", inst)
				return
			}
		}
		for name, inst := range got.byName {
			if k == 0 {
				numbers[name] = inst
				if byNumber[inst] != "" {
					t.Fail("number", "%s and %s both have number %d", name, byNumber[inst], inst)
					return
				}
				byNumber[inst] = name
			}
			if numbers[name] != inst || inst == 0 {
				t.Fail("number", "%s has number %d, and in another listing %d", name, numbers[name], inst)
				return
			}
			t.Count("symbols_seen", 1)
		}
		if k == 0 {
			for _, name := range names {
				if numbers[name] == 0 {
					t.Fail("name", "no symbol is %q", name)
					return
				}
			}
		}
		if k > 8 {
			t.Count("renumbered", 1)
		} else {
			strType := -1
			for name, ty := range got.types {
				want, known := types[name]
				if e := elems[name]; !known && e != nil {
					if atomGo(byte(ty&^0x6000)) != e || ty&^0x6000 > 0xFF {
						t.Fail("type", "%s has type %#x, its elements are %v", name, ty, e)
						return
					}
					continue
				}
				if !known { // a string, and they are all alike
					if strType >= 0 && strType != int(ty) || ty >= 0xC1 && ty <= 0xCB {
						t.Fail("type", "the string %s has type %#x, another one %#x", name, ty, strType)
						return
					}
					strType = int(ty)
				} else if ty != want {
					t.Fail("type", "%s has type %#x, not %#x", name, ty, want)
					return
				}
			}
		}
		t.Eval(fmt.Sprintf("symbols %d from %d %v size %d own %v", n, got.start, got.attrs, size, own))
	}
	// a connection too small for a symbol: it is refused, or there are replies that get on.
	if !t.Failed() {
		size := 16 + r.IntN(70)
		conn := c.class3(t, r, route, size)
		if conn == nil {
			return
		}
		for start := 1; start <= len(names); {
			rep, err := conn.request(0x55, []byte{0x20, 0x6B, 0x25, 0, byte(start), byte(start >> 8)}, []byte{2, 0, 1, 0, 2, 0})
			what := fmt.Sprintf("listing %d symbols from %d over a connection of %d", len(names), start, size)
			if err != nil || rep.size > size {
				t.Fail("small", "%s: %v %v", what, rep, err)
				return
			}
			if rep.status != 0 && rep.status != 6 {
				t.Count("small_refused", 1)
				break
			}
			last := 0
			for d := rep.data; len(d) > 0; {
				if len(d) < 8 || len(d) < 8+int(plc.LE.Uint16(d[4:])) || int(plc.LE.Uint32(d)) < start {
					t.Fail("small", "%s: the reply ends with % X", what, d)
					return
				}
				last = int(plc.LE.Uint32(d))
				if name := string(d[6 : 6+int(plc.LE.Uint16(d[4:]))]); byNumber[uint32(last)] != name {
					t.Fail("small", "%s: number %d is %q, not %q", what, last, name, byNumber[uint32(last)])
					return
				}
				d = d[8+int(plc.LE.Uint16(d[4:])):]
			}
			if rep.status == 6 && last == 0 || rep.status == 0 && last < len(names) {
				t.Fail("small", "%s: status %d and the last is %d", what, rep.status, last)
				return
			}
			t.Count("small_lists", 1)
			if rep.status == 0 {
				break
			}
			start = last + 1
		}
		conn.close()
	}
	if route[0] != 1 || t.Failed() {
		return
	}
	// the same numbers as attributes.
	ask := names
	if len(ask) > 60 {
		r.Shuffle(len(ask), func(i, j int) { ask[i], ask[j] = ask[j], ask[i] })
		ask = ask[:60]
	}
	for _, name := range ask {
		o := &oper{name: name, idx: -1, qty: 1}
		rep, err := c.direct(cipRequest(0x0E, attrPath(0xC8, int(numbers[name]), 1), nil))
		if r.IntN(3) == 0 {
			rep, err = c.direct(wrap(cipRequest(0x0E, attrPath(0xC8, int(numbers[name]), 1), nil), route))
		}
		if err != nil {
			t.Fail("reply", "attribute of %s: %v", name, err)
			return
		}
		if !st.judge(o, "bridge", rep, true) {
			return
		}
		t.Count("numbered_tags", 1)
	}
	for _, inst := range []int{0, len(names) + 1, 65535} {
		rep, err := c.direct(cipRequest(0x0E, attrPath(0xC8, inst, 1), nil))
		if err != nil || rep.ok() {
			t.Fail("bridge-unknown", "tag number %d of %d: %v %v", inst, len(names), rep, err)
			return
		}
	}
}

// listing is what was collected of one.
type listing struct {
	attrs  []uint16
	start  uint16
	insts  map[uint32]bool
	byName map[string]uint32
	types  map[string]uint16
}

// s07List lists symbols from somewhere on with some attributes.
func s07List(t *rt.T, r *rand.Rand, conn *sopen, plain bool) *listing {
	l := &listing{attrs: []uint16{1, 2}, insts: map[uint32]bool{}}
	ask := []byte{2, 0, 1, 0, 2, 0}
	if !plain {
		switch r.IntN(5) {
		case 0: // what is standard
			ask = nil
		case 1:
			l.attrs = nil
			for _, i := range r.Perm(7)[:1+r.IntN(7)] {
				l.attrs = append(l.attrs, []uint16{1, 2, 3, 5, 6, 8, 10}[i])
			}
			ask = plc.LE.AppendUint16(nil, uint16(len(l.attrs)))
			for _, a := range l.attrs {
				ask = plc.LE.AppendUint16(ask, a)
			}
		case 2:
			l.start = uint16(1 + r.IntN(30))
		case 3:
			l.start = uint16(r.IntN(500))
		}
	}
	named, typed := false, false
	for _, a := range l.attrs {
		named = named || a == 1
		typed = typed || a == 2
	}
	if named {
		l.byName = map[string]uint32{}
		if typed {
			l.types = map[string]uint16{}
		}
	}
	start := l.start
	for {
		path := []byte{0x20, 0x6B, 0x25, 0, byte(start), byte(start >> 8)}
		if start < 256 && r.IntN(2) == 0 {
			path = []byte{0x20, 0x6B, 0x24, byte(start)}
		}
		rep, err := conn.request(0x55, path, ask)
		what := fmt.Sprintf("listing symbols from %d with attributes % X over a connection of %d", start, ask, conn.size)
		if err != nil || rep.status != 0 && rep.status != 6 || rep.size > conn.size {
			t.Fail("symbols", "%s: %v %v (%d bytes)", what, rep, err, rep.size)
			return nil
		}
		d := rep.data
		last := -1
		for len(d) > 0 {
			if len(d) < 4 {
				t.Fail("symbols", "%s: the reply ends with % X", what, d)
				return nil
			}
			inst := plc.LE.Uint32(d)
			d = d[4:]
			if int64(inst) <= int64(last) || inst < uint32(start) || l.insts[inst] {
				t.Fail("symbols", "%s: number %d after %d", what, inst, last)
				return nil
			}
			last = int(inst)
			l.insts[inst] = true
			name, ty := "", uint16(0)
			for _, a := range l.attrs {
				n := s07Attrs[a]
				if a == 1 {
					if len(d) < 2 {
						t.Fail("symbols", "%s: the reply ends with % X", what, d)
						return nil
					}
					n = int(plc.LE.Uint16(d)) + 2
				}
				if len(d) < n {
					t.Fail("symbols", "%s: the reply ends with % X", what, d)
					return nil
				}
				switch a {
				case 1:
					name = string(d[2:n])
				case 2:
					ty = plc.LE.Uint16(d)
				}
				d = d[n:]
			}
			if named {
				if _, dup := l.byName[name]; dup {
					t.Fail("twice", "%s: %q comes twice", what, name)
					return nil
				}
				l.byName[name] = inst
				if typed {
					l.types[name] = ty
				}
			}
		}
		if rep.status == 0 {
			return l
		}
		if last < 0 {
			t.Fail("symbols", "%s: nothing, and there is more", what)
			return nil
		}
		start = uint16(last + 1)
	}
}
