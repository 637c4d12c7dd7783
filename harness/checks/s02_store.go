package checks

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"
	"regexp"
	"sort"
	"strings"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "S02",
		Rule: "each evaluation is one operation of a random history (reads, fragmented reads, writes, multiple services, attribute bridge, local calls) on a real server's map tag provider; its reply is compared with a sequential model, and so is the whole map after it; " +
			"non-trivial = distinct (operation, way it was sent, type and shape of the tag, outcome)",
		Assumptions: []string{"operations are sequential", "no more than 32767 elements are read at once (providers are asked for a signed 16 bit number of them)", "a write of another number type that can hold the value may be accepted or refused", "writing a whole tag that isn't there creates it, as documented"},
		Cases:       s02Cases,
		MinEvents:   []string{"operations", "reads_ok", "reads_refused", "writes_ok", "writes_refused", "maps_compared", "bridge_operations", "multi_services", "partial_reads", "tags_created", "conversions_accepted", "local_operations"},
		Exclusive:   true,
		Shards:      1,
	})
}

func s02Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 250, 6000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("history-%d", i), Run: func(t *rt.T) { s02History(t, false) }})
	}
	for i := 0; i < tiered(tier, 14, 500); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("wide-%d", i), Run: func(t *rt.T) { s02History(t, true) }})
	}
	return cs
}

var s02Codes = []byte{plc.BOOL, plc.SINT, plc.INT, plc.DINT, plc.LINT, plc.USINT, plc.UINT, plc.UDINT, plc.ULINT, plc.REAL, plc.LREAL}

func lower(s string) string { return strings.ToLower(s) }

// atomGo is the Go type of a type code's values, nil if it isn't one.
func atomGo(code byte) reflect.Type {
	for _, a := range atoms {
		if a.Code == code {
			return a.Go
		}
	}
	return nil
}

// cell is a tag of the model.
type cell struct {
	key   string // in the map
	elem  reflect.Type
	array bool
	vals  []any // one if it isn't an array
}

// wireElem is how an element goes over the wire.
func wireElem(v any) []byte {
	switch x := v.(type) {
	case string:
		b := make([]byte, 88)
		plc.LE.PutUint32(b, uint32(len(x)))
		copy(b[4:86], x)
		return b
	case bool:
		if x {
			return []byte{1}
		}
		return []byte{0}
	}
	rv := reflect.ValueOf(v)
	var u uint64
	switch {
	case rv.CanInt():
		u = uint64(rv.Int())
	case rv.CanUint():
		u = rv.Uint()
	case rv.Kind() == reflect.Float32:
		u = uint64(math.Float32bits(float32(rv.Float())))
	default:
		u = math.Float64bits(rv.Float())
	}
	return plc.LE.AppendUint64(nil, u)[:rv.Type().Size()]
}

func wireElems(vals []any) []byte {
	var b []byte
	for _, v := range vals {
		b = append(b, wireElem(v)...)
	}
	return b
}

// goValue is what the map has for the cell.
func (c *cell) goValue() any {
	if !c.array {
		return c.vals[0]
	}
	// what append leaves: room, and old elements, behind the end.
	room := reflect.MakeSlice(reflect.SliceOf(c.elem), len(c.vals)+len(c.vals)%4, len(c.vals)+len(c.vals)%4)
	for i := len(c.vals); i < room.Len() && len(c.vals) > 0; i++ {
		room.Index(i).Set(reflect.ValueOf(c.vals[0]))
	}
	s := room.Slice(0, len(c.vals))
	for i := range c.vals {
		s.Index(i).Set(reflect.ValueOf(c.vals[i]))
	}
	return s.Interface()
}

func (c *cell) shape() string {
	if c == nil {
		return "none"
	}
	if c.array {
		return "[]" + c.elem.String()
	}
	return c.elem.String()
}

// store is the model of a provider.
type store struct {
	t     *rt.T
	r     *rand.Rand
	p     *gologix.MapTagProvider
	cells map[string]*cell // by lower case name
	names map[string]bool
	wide  bool // some arrays have tens of thousands of elements
}

// negative is an index no array has, as part of a name.
var negative = regexp.MustCompile(`\[-\d+\]$`)

func (s *store) find(name string, idx int) (*cell, int) {
	if idx >= 0 {
		// a key that is all of the name takes precedence.
		if c := s.cells[lower(fmt.Sprintf("%s[%d]", name, idx))]; c != nil {
			return c, -1
		}
	}
	return s.cells[lower(name)], idx
}

// read is what a read has to return, nil if it has to be refused.
func (s *store) read(name string, idx, qty int) []any {
	c, idx := s.find(name, idx)
	if c == nil || qty < 1 {
		return nil
	}
	if !c.array {
		if idx >= 0 || qty != 1 {
			return nil
		}
		return c.vals
	}
	i := max(idx, 0)
	if i+qty > len(c.vals) {
		return nil
	}
	return c.vals[i : i+qty]
}

const (
	mustAccept = iota
	mustRefuse
	mayConvert
)

// convertible says whether a value can become one of the type.
func convertible(v any, to reflect.Type) int {
	from := reflect.TypeOf(v)
	if from == to {
		return mustAccept
	}
	if from == tStr || to == tStr {
		return mustRefuse
	}
	if from == tBool || to == tBool {
		return mayConvert
	}
	f, ok := number(v)
	if !ok { // NaN or infinite
		if to.Kind() == reflect.Float32 || to.Kind() == reflect.Float64 {
			return mayConvert
		}
		return mustRefuse
	}
	switch to.Kind() {
	case reflect.Float32, reflect.Float64:
		return mayConvert
	}
	if !f.IsInt() {
		return mustRefuse
	}
	n, _ := f.Int(nil)
	bits := int(to.Size()) * 8
	lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(bits))
	if to.Kind() >= reflect.Int && to.Kind() <= reflect.Int64 {
		hi.Rsh(hi, 1)
		lo.Neg(hi)
	}
	if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
		return mustRefuse
	}
	return mayConvert
}

// number is a value as an exact number, if it is one.
func number(v any) (*big.Float, bool) {
	rv := reflect.ValueOf(v)
	f := new(big.Float).SetPrec(200)
	switch {
	case rv.CanInt():
		return f.SetInt64(rv.Int()), true
	case rv.CanUint():
		return f.SetUint64(rv.Uint()), true
	case rv.CanFloat():
		x := rv.Float()
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return nil, false
		}
		return f.SetFloat64(x), true
	case rv.Kind() == reflect.Bool:
		if rv.Bool() {
			return f.SetInt64(1), true
		}
		return f, true
	}
	return nil, false
}

// sameNumber: got is v, as near as its type allows.
func sameNumber(v, got any) bool {
	a, ok1 := number(v)
	b, ok2 := number(got)
	if !ok1 || !ok2 {
		x, y := reflect.ValueOf(v), reflect.ValueOf(got)
		if !x.CanFloat() || !y.CanFloat() {
			return false
		}
		return math.IsNaN(x.Float()) == math.IsNaN(y.Float()) && (math.IsNaN(x.Float()) || x.Float() == y.Float())
	}
	if reflect.TypeOf(got) == tBool || reflect.TypeOf(v) == tBool {
		return (a.Sign() != 0) == (b.Sign() != 0)
	}
	switch reflect.TypeOf(got) {
	case tF32:
		x, _ := a.Float32()
		return x == got.(float32)
	case tF64:
		x, _ := a.Float64()
		return x == got.(float64)
	}
	return a.Cmp(b) == 0
}

// write is what a write has to do: fate, and what the tag has after it if it is accepted. Where conversion is possible
// cell.vals has the values before conversion.
func (s *store) write(name string, idx int, vals []any) (fate int, after *cell) {
	c, idx := s.find(name, idx)
	if c == nil {
		if idx >= 0 || negative.MatchString(name) {
			return mustRefuse, nil
		}
		return mustAccept, &cell{key: lower(name), elem: reflect.TypeOf(vals[0]), array: len(vals) > 1, vals: vals}
	}
	n := *c
	n.vals = append([]any{}, c.vals...)
	if !c.array && (idx >= 0 || len(vals) != 1) {
		return mustRefuse, nil
	}
	i := max(idx, 0)
	if i+len(vals) > len(n.vals) {
		return mustRefuse, nil
	}
	for k, v := range vals {
		switch convertible(v, c.elem) {
		case mustRefuse:
			return mustRefuse, nil
		case mayConvert:
			fate = mayConvert
		}
		n.vals[i+k] = v
	}
	return fate, &n
}

// snapshot copies the provider's map.
func (s *store) snapshot() map[string]any {
	s.p.Mutex.Lock()
	defer s.p.Mutex.Unlock()
	m := map[string]any{}
	for k, v := range s.p.Data {
		rv := reflect.ValueOf(v)
		if rv.IsValid() && rv.Kind() == reflect.Slice {
			c := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
			reflect.Copy(c, rv)
			v = c.Interface()
		}
		m[k] = v
	}
	return m
}

// settle makes the model have what an accepted write leaves, and compares the map with it. after is nil if nothing may
// have changed.
func (s *store) settle(what string, after *cell) bool {
	t := s.t
	m := s.snapshot()
	if after != nil {
		if _, ok := s.cells[lower(after.key)]; !ok {
			t.Count("tags_created", 1)
			// whatever case the new key has
			for k := range m {
				if strings.EqualFold(k, after.key) {
					after.key = k
				}
			}
		}
		got, ok := m[after.key]
		if !ok {
			t.Fail("lost", "%s: afterwards there is no tag %s", what, after.key)
			return false
		}
		// take over converted values once they are known to be right.
		rv := reflect.ValueOf(got)
		for i, v := range after.vals {
			if reflect.TypeOf(v) == after.elem {
				continue
			}
			e := rv
			if after.array {
				if rv.Kind() != reflect.Slice || i >= rv.Len() {
					break
				}
				e = rv.Index(i)
			}
			if e.Type() == after.elem && sameNumber(v, e.Interface()) {
				after.vals[i] = e.Interface()
				t.Count("conversions_accepted", 1)
				continue
			}
			t.Fail("converted", "%s: %s of element %d was accepted and became %s (the tag is %s)", what, show(v), i, show(e.Interface()), after.shape())
			return false
		}
		s.cells[lower(after.key)] = after
	}
	t.Count("maps_compared", 1)
	if len(m) != len(s.cells) {
		t.Fail("tags", "%s: afterwards there are %d tags instead of %d: %v", what, len(m), len(s.cells), rt.SortedKeys(m))
		return false
	}
	for _, c := range s.cells {
		if got, ok := m[c.key]; !ok || !same(got, c.goValue()) {
			t.Fail("contents", "%s: afterwards tag %s is %T %s instead of %T %s", what, c.key, got, show(got), c.goValue(), show(c.goValue()))
			return false
		}
	}
	return true
}

// oper is one read or write.
type oper struct {
	write  bool
	name   string
	idx    int // -1 without
	qty    int
	frag   bool
	offset int // bytes
	vals   []any
	code   byte
	cut    bool // without part of the data
}

func (o *oper) String() string {
	n := o.name
	if o.idx >= 0 {
		n = fmt.Sprintf("%s[%d]", n, o.idx)
	}
	if o.write {
		return fmt.Sprintf("write %s = %d of type %#x %s", n, len(o.vals), o.code, show(o.vals))
	}
	if o.frag {
		return fmt.Sprintf("read %d of %s from byte %d", o.qty, n, o.offset)
	}
	return fmt.Sprintf("read %d of %s", o.qty, n)
}

func (o *oper) path() []byte {
	if o.idx >= 0 {
		return tagPath(o.name, o.idx)
	}
	return tagPath(o.name)
}

// typed is the data of a write.
func (o *oper) typed() []byte {
	var b []byte
	if o.code == 0xA0 {
		b = []byte{0xA0, 2, 0xCE, 0x0F}
	} else {
		b = []byte{o.code, 0}
	}
	b = plc.LE.AppendUint16(b, uint16(len(o.vals)))
	b = append(b, wireElems(o.vals)...)
	if o.cut {
		b = b[:len(b)-1-len(wireElem(o.vals[0]))/8*3]
	}
	return b
}

func (o *oper) msg() []byte {
	if o.write {
		return cipRequest(0x4D, o.path(), o.typed())
	}
	d := plc.LE.AppendUint16(nil, uint16(o.qty))
	if o.frag {
		return cipRequest(0x52, o.path(), plc.LE.AppendUint32(d, uint32(o.offset)))
	}
	return cipRequest(0x4C, o.path(), d)
}

// anyOper makes an operation on some tag.
func (s *store) anyOper() *oper {
	r := s.r
	c := &cell{key: uniqueName(r, map[string]bool{}, 1, 12), elem: atomOf(plc.DINT).Go, vals: []any{int32(0)}}
	if keys := rt.SortedKeys(s.cells); len(keys) > 0 {
		c = s.cells[keys[r.IntN(len(keys))]]
	}
	o := &oper{name: recase(r, c.key), idx: -1}
	if i := strings.LastIndexByte(o.name, '['); i >= 0 && !strings.Contains(o.name[i:], ",") && r.IntN(2) == 0 {
		// as a name and an index
		fmt.Sscanf(o.name[i:], "[%d]", &o.idx)
		o.name = o.name[:i]
	}
	n := len(c.vals)
	if r.IntN(12) == 0 {
		o.name = uniqueName(r, map[string]bool{}, 1, 12) // most likely none there is
		if r.IntN(2) == 0 && !strings.Contains(c.key, "[") {
			o.name = c.key + "x"
		}
	}
	// an index after another would be another index of the same array.
	if o.idx < 0 && !strings.HasSuffix(o.name, "]") && (c.array && r.IntN(2) == 0 || r.IntN(10) == 0) {
		switch r.IntN(6) {
		case 0:
			o.idx = n + r.IntN(3)
		case 1:
			o.idx = []int{255, 256, 65535, 65536, 1 << 31, 1<<32 - 1}[r.IntN(6)]
		default:
			o.idx = r.IntN(max(1, n))
		}
	}
	if o.idx < 0 && !strings.ContainsAny(o.name, "[]") && r.IntN(20) == 0 {
		o.name += []string{"[-1]", "[-2]", "[-0001]", "[-32768]", "[-2147483648]", "[-9223372036854775808]"}[r.IntN(6)]
	}
	left := max(1, n-max(0, o.idx))
	switch r.IntN(8) {
	case 0:
		o.qty = left
	case 1:
		o.qty = left + 1
	case 2:
		o.qty = r.IntN(3)
	case 3:
		o.qty = []int{0, 32767, 32768, 65535, 256}[r.IntN(5)]
	default:
		o.qty = 1 + r.IntN(left)
	}
	if n > 32767 { // more can't be asked for
		o.qty = min(o.qty, 32767)
	}
	if r.IntN(2) == 0 {
		if o.frag = r.IntN(3) == 0; o.frag {
			sz := 1
			if len(c.vals) > 0 {
				sz = len(wireElem(c.vals[0]))
			}
			o.offset = sz * r.IntN(max(1, o.qty%1000)+2)
			if s.wide {
				o.offset = sz * r.IntN(min(max(1, o.qty), n)+2)
			}
			if r.IntN(2) == 0 {
				o.offset = 0
			}
		}
		return o
	}
	o.write = true
	o.qty = min(o.qty, left+1, 900)
	o.qty = max(o.qty, 1)
	if s.wide {
		if r.IntN(3) == 0 {
			o.qty = min(left, 1+r.IntN(7000))
		}
		if r.IntN(6) == 0 && left < 7000 {
			n := []int{2, 100, 255, 256, 257, 300, 512}[r.IntN(7)]
			if o.qty = left + n; n > left && r.IntN(2) == 0 {
				o.qty = n
			}
		}
	}
	elem := c.elem
	if r.IntN(5) == 0 {
		elem = append([]reflect.Type{tStr}, func() (ts []reflect.Type) {
			for _, code := range s02Codes {
				ts = append(ts, atomOf(code).Go)
			}
			return
		}()...)[r.IntN(1+len(s02Codes))]
	}
	if elem == tStr {
		o.qty = min(o.qty, 40)
		o.code = 0xA0
	} else {
		codes := []byte{}
		for _, a := range atoms {
			if a.Go == elem {
				codes = append(codes, a.Code)
			}
		}
		o.code = codes[r.IntN(len(codes))]
	}
	o.vals = randElems(r, elem, o.qty)
	if elem != c.elem && elem != tStr && elem != tBool && r.IntN(2) == 0 {
		for i := range o.vals { // numbers that most types can hold
			o.vals[i] = reflect.ValueOf(r.IntN(100)).Convert(elem).Interface()
		}
	}
	o.cut = r.IntN(15) == 0
	return o
}

func randElems(r *rand.Rand, elem reflect.Type, n int) []any {
	vals := make([]any, n)
	for i := range vals {
		if elem == tStr {
			vals[i] = randString(r, 82)
			continue
		}
		for _, code := range s02Codes {
			if atomOf(code).Go == elem {
				vals[i] = plc.Value(code, randElem(r, code))
			}
		}
	}
	return vals
}

// judge compares a reply with the model and moves the model on. ok is false if the case has to end.
func (s *store) judge(o *oper, how string, rep sreply, room bool) bool {
	t := s.t
	c, _ := s.find(o.name, o.idx)
	t.Count("operations", 1)
	shape := c.shape()
	defer func() {
		t.Eval(fmt.Sprintf("%s %v frag=%v %s idx=%v %d %#x", how, o.write, o.frag, shape, o.idx >= 0, rep.status, o.code))
	}()
	what := how + " " + o.String()
	if o.write {
		fate, after := s.write(o.name, o.idx, o.vals)
		if o.cut {
			what += " cut short"
			fate, after = mustRefuse, nil
		}
		if rep.ok() && fate == mustRefuse {
			t.Fail("write-accepted", "%s is accepted, the tag is %s of %s", what, shape, s.length(c))
			return false
		}
		if !rep.ok() && fate == mustAccept {
			t.Fail("write-refused", "%s is refused with status %#x, the tag is %s of %s", what, rep.status, shape, s.length(c))
			return false
		}
		if !rep.ok() {
			after = nil
			t.Count("writes_refused", 1)
		} else {
			t.Count("writes_ok", 1)
			if len(rep.data) != 0 {
				t.Fail("write-reply", "%s is answered with data % X", what, rep.data)
			}
		}
		return s.settle(what, after)
	}
	want := s.read(o.name, o.idx, o.qty)
	data := wireElems(want)
	if o.frag && want != nil {
		if o.offset > 0 && o.offset >= len(data) {
			want = nil
		} else {
			data = data[o.offset:]
		}
	}
	if want == nil {
		t.Count("reads_refused", 1)
		if rep.ok() || rep.status == 6 {
			t.Fail("read-accepted", "%s returns %s, the tag is %s of %s", what, hexs(rep.data), shape, s.length(c))
			return false
		}
		return s.settle(what, nil)
	}
	if !room && rep.status == 0x11 {
		return true // there was no room left for it
	}
	if rep.status != 0 && rep.status != 6 {
		t.Fail("read-refused", "%s is refused with status %#x, the tag is %s of %s", what, rep.status, shape, s.length(c))
		return false
	}
	t.Count("reads_ok", 1)
	got, ok := s.typeOf(what, rep.data, reflect.TypeOf(want[0]))
	if !ok {
		return false
	}
	if rep.ok() && !bytes.Equal(got, data) {
		t.Fail("read-data", "%s returns %s, not %s (tag is %s)", what, hexs(got), hexs(data), shape)
		return false
	}
	if rep.status == 6 {
		t.Count("partial_reads", 1)
		if len(got) == 0 || len(got) >= len(data) || !bytes.HasPrefix(data, got) {
			t.Fail("read-data", "partial %s returns %s, not the start of %s (tag is %s)", what, hexs(got), hexs(data), shape)
			return false
		}
	}
	return s.settle(what, nil)
}

func (s *store) length(c *cell) string {
	if c == nil {
		return "nothing"
	}
	return fmt.Sprintf("length %d", len(c.vals))
}

// typeOf takes the type off read data.
func (s *store) typeOf(what string, data []byte, elem reflect.Type) ([]byte, bool) {
	if elem == tStr {
		if bytes.HasPrefix(data, []byte{0xA0, 2, 0xCE, 0x0F}) {
			return data[4:], true
		}
	} else if len(data) >= 2 && data[1] == 0 && atomGo(data[0]) == elem {
		return data[2:], true
	}
	s.t.Fail("read-type", "%s says its type is % X, the tag's elements are %v", what, data[:min(4, len(data))], elem)
	return nil, false
}

func newStore(t *rt.T, r *rand.Rand, tags int, wide bool) *store {
	s := &store{t: t, r: r, wide: wide, p: &gologix.MapTagProvider{}, cells: map[string]*cell{}, names: map[string]bool{}}
	if tags > 0 || r.IntN(2) == 0 {
		s.p.Data = map[string]any{}
	}
	for i := 0; i < tags; i++ {
		name := uniqueName(r, s.names, 1, 24)
		switch r.IntN(8) {
		case 0:
			name += "." + uniqueName(r, s.names, 1, 8)
		case 1:
			name += fmt.Sprintf("[%d]", r.IntN(70000))
		case 2:
			name += fmt.Sprintf("[%d,%d]", r.IntN(300), r.IntN(5))
		}
		c := &cell{key: name, array: r.IntN(3) > 0}
		if r.IntN(2) == 0 {
			c.key = lower(name)
		}
		elem := tStr
		if r.IntN(5) > 0 {
			elem = atomOf(s02Codes[r.IntN(len(s02Codes))]).Go
		}
		n := 1
		if c.array {
			n = r.IntN(12)
			if r.IntN(4) == 0 {
				n = 80 + r.IntN(400)
			}
			if wide && r.IntN(4) == 0 {
				n = []int{255, 256, 257, 511, 512, 8191, 8192, 8193, 16384, 30000, 32767, 32768, 40000, 65536}[r.IntN(14)]
			}
			if elem == tStr {
				n = min(n, 30)
				if wide && r.IntN(4) == 0 {
					n = 700 + r.IntN(300)
				}
			}
		}
		c.elem = elem
		c.vals = randElems(r, elem, n)
		s.cells[lower(name)] = c
		s.p.Data[c.key] = c.goValue()
	}
	return s
}

// symbols lists the tags over a connection.
func symbols(conn *sopen) ([]symbol, error) {
	var out []symbol
	start := uint16(0)
	for {
		rep, err := conn.request(0x55, []byte{0x20, 0x6B, 0x25, 0, byte(start), byte(start >> 8)}, []byte{2, 0, 1, 0, 2, 0})
		if err != nil {
			return nil, err
		}
		if rep.status != 0 && rep.status != 6 {
			return nil, fmt.Errorf("symbol listing from %d: %v", start, rep)
		}
		if rep.size > conn.size {
			return nil, fmt.Errorf("symbol listing: reply of %d bytes over a connection of %d", rep.size, conn.size)
		}
		d := rep.data
		n := 0
		for len(d) > 0 {
			if len(d) < 6 || len(d) < 8+int(plc.LE.Uint16(d[4:])) {
				return nil, fmt.Errorf("symbol listing from %d ends with % X", start, d)
			}
			l := int(plc.LE.Uint16(d[4:]))
			y := symbol{plc.LE.Uint32(d), string(d[6 : 6+l]), plc.LE.Uint16(d[6+l:])}
			d = d[8+l:]
			if len(out) > 0 && y.inst <= out[len(out)-1].inst || y.inst < uint32(start) {
				return nil, fmt.Errorf("symbol listing from %d has instance %d after the ones up to there", start, y.inst)
			}
			out = append(out, y)
			n++
		}
		if rep.status == 0 {
			return out, nil
		}
		if n == 0 {
			return nil, fmt.Errorf("symbol listing from %d has nothing in it and says there is more", start)
		}
		start = uint16(out[len(out)-1].inst + 1)
	}
}

type symbol struct {
	inst uint32
	name string
	typ  uint16
}

func s02History(t *rt.T, wide bool) {
	r := t.R
	tags := 4 + r.IntN(12)
	if r.IntN(8) == 0 {
		tags = 0 // it starts out empty
	}
	s := newStore(t, r, tags, wide)
	router := gologix.NewRouter()
	if r.IntN(8) == 0 {
		router = &gologix.PathRouter{}
	}
	route := []byte{1, 0}
	if r.IntN(3) == 0 {
		route = freeRoute(r, map[string]bool{})
	}
	bridge := route[0] == 1
	router.Handle(route, s.p)
	// another provider with tags of the same names, which must not be touched.
	other := newStore(t, r, 0, wide)
	if len(s.cells) > 0 && other.p.Data == nil {
		other.p.Data = map[string]any{}
	}
	for _, k := range rt.SortedKeys(s.cells) {
		c := s.cells[k]
		n := *c
		n.vals = randElems(r, c.elem, len(c.vals))
		other.cells[k] = &n
		other.p.Data[n.key] = n.goValue()
	}
	otherRoute := []byte{15, 7}
	router.Handle(otherRoute, other.p)
	srv := startServer(t, router, false, nil)
	if srv == nil {
		return
	}
	conns := []*sopen{}
	for i := 0; i < 1+r.IntN(3); i++ {
		c := srv.session(t, 0)
		if c == nil {
			return
		}
		size := []int{200, 500, 511, 1000, 4000}[r.IntN(5)]
		if wide {
			size = []int{511, 4000, 4002, 20000, 60000, 65500}[r.IntN(6)]
		}
		conn := c.class3(t, r, route, size)
		if conn == nil {
			return
		}
		conns = append(conns, conn)
	}
	otherConn := conns[0].c.class3(t, r, otherRoute, 500)
	if otherConn == nil {
		return
	}
	for i := 30 + r.IntN(60); i > 0; i-- {
		conn := conns[r.IntN(len(conns))]
		o := s.anyOper()
		for o.write && conn.size < len(o.msg())+6 { // it wouldn't be sent over this connection
			o = s.anyOper()
		}
		st, how, thisConn := s, "connected", conn
		if r.IntN(12) == 0 {
			st, how, thisConn = other, "connected to another provider", otherConn
			o = other.anyOper()
		}
		var rep sreply
		var err error
		switch k := r.IntN(12); {
		case k < 5:
			m := o.msg()
			rep, err = thisConn.request(m[0], o.path(), m[2+len(o.path()):])
			if err == nil && rep.size > thisConn.size {
				err = fmt.Errorf("reply of %d bytes over a connection of %d", rep.size, thisConn.size)
			}
			if err == nil && !st.judge(o, how, rep, true) {
				return
			}
			if err == nil && rep.status == 6 && !st.readOn(o, thisConn, rep) {
				return
			}
		case k < 7:
			if len(o.msg()) > 60000 {
				continue
			}
			to := route
			if st == other {
				to = otherRoute
			}
			rep, err = conn.c.direct(wrap(o.msg(), to))
			if err == nil && !st.judge(o, "un"+how, rep, true) {
				return
			}
		case k < 9:
			ops := []*oper{o}
			for len(ops) < 1+r.IntN(5) {
				ops = append(ops, st.anyOper())
			}
			var msgs [][]byte
			for _, o := range ops {
				msgs = append(msgs, o.msg())
			}
			if wide && len(multiData(msgs...))+12 > thisConn.size {
				continue
			}
			rep, err = thisConn.request(0x0A, msgRouter, multiData(msgs...))
			if err != nil {
				break
			}
			t.Count("multi_services", 1)
			var reps []sreply
			reps, err = multiReplies(rep.data, len(ops))
			if err != nil {
				break
			}
			// the map can only be compared when all of it has been done.
			if !st.judgeAll(ops, reps) {
				return
			}
		case k < 10 && bridge && st == s:
			if !s.bridge(conn) {
				return
			}
		default:
			if !st.local(o) {
				return
			}
		}
		if err != nil {
			t.Fail("reply", "%s %s: %v", how, o, err)
			return
		}
	}
	other.settle("operations on the provider of another route", nil)
	s.settle("operations on the provider of another route", nil)
}

// readOn fetches what did not fit.
func (s *store) readOn(o *oper, conn *sopen, rep sreply) bool {
	want := wireElems(s.read(o.name, o.idx, o.qty))
	elem := reflect.TypeOf(s.read(o.name, o.idx, o.qty)[0])
	got, _ := s.typeOf(o.String(), rep.data, elem)
	pos := o.offset + len(got)
	for n := 0; rep.status == 6; n++ {
		d := plc.LE.AppendUint32(plc.LE.AppendUint16(nil, uint16(o.qty)), uint32(pos))
		var err error
		rep, err = conn.request(0x52, o.path(), d)
		if err != nil || rep.status != 0 && rep.status != 6 {
			s.t.Fail("read-on", "%s: reading on from byte %d of %d: %v %v", o, pos, len(want), rep, err)
			return false
		}
		got, ok := s.typeOf(o.String(), rep.data, elem)
		if !ok {
			return false
		}
		if !bytes.HasPrefix(want[pos:], got) || len(got) == 0 || rep.ok() != (pos+len(got) == len(want)) {
			s.t.Fail("read-on", "%s: reading on from byte %d of %d returns %s with status %d", o, pos, len(want), hexs(got), rep.status)
			return false
		}
		pos += len(got)
	}
	return true
}

// judgeAll judges the services of one request, which are done in order.
func (s *store) judgeAll(ops []*oper, reps []sreply) bool {
	// only the last comparison sees the map when it is like the model; so go through the writes without comparing first.
	final := s.snapshot()
	saved := s.p
	defer func() { s.p = saved }()
	for i, o := range ops {
		if reps[i].svc != o.msg()[0]|0x80 {
			s.t.Fail("multi-service", "reply %d of multiple services names service %#x, the request is to %s", i, reps[i].svc, o)
			return false
		}
		// stand in a map like the model is after this operation, but with what a write converted taken from a trial.
		trial := &gologix.MapTagProvider{Data: map[string]any{}}
		for _, c := range s.cells {
			trial.Data[c.key] = c.goValue()
		}
		if o.write && reps[i].ok() {
			if fate, after := s.write(o.name, o.idx, o.vals); fate != mustRefuse && !o.cut {
				if _, there := s.cells[lower(after.key)]; !there {
					for k := range final {
						if strings.EqualFold(k, after.key) {
							after.key = k
						}
					}
				}
				vals := append([]any{}, after.vals...)
				for k, v := range vals {
					if reflect.TypeOf(v) != after.elem {
						vals[k] = convertNumber(v, after.elem)
					}
				}
				trial.Data[after.key] = (&cell{elem: after.elem, array: after.array, vals: vals}).goValue()
			}
		}
		s.p = trial
		if !s.judge(o, "multi", reps[i], false) {
			return false
		}
	}
	s.p = saved
	return s.settle("multiple services", nil)
}

// convertNumber is what a value becomes that was accepted although it is of another type.
func convertNumber(v any, to reflect.Type) any {
	rv := reflect.ValueOf(v)
	if to == tBool {
		n, _ := number(v)
		return n.Sign() != 0
	}
	if rv.Kind() == reflect.Bool {
		n, _ := number(v)
		i, _ := n.Int64()
		return reflect.ValueOf(i).Convert(to).Interface()
	}
	return rv.Convert(to).Interface()
}

// bridge gets or sets a tag by its number.
func (s *store) bridge(conn *sopen) bool {
	t, r := s.t, s.r
	list, err := symbols(conn)
	if err != nil {
		t.Fail("symbols", "%v", err)
		return false
	}
	sort.SliceStable(list, func(i, j int) bool { return list[i].inst < list[j].inst })
	if len(list) != len(s.cells) {
		t.Fail("symbols", "there are %d symbols and %d tags", len(list), len(s.cells))
		return false
	}
	if len(list) == 0 {
		t.Count("empty_lists", 1)
		return true
	}
	t.Count("bridge_operations", 1)
	y := list[r.IntN(len(list))]
	o := s.anyOper()
	o.name, o.idx, o.frag = y.name, -1, false
	if r.IntN(8) == 0 {
		// what is no attribute of a tag.
		path := attrPath(0xC8, int(y.inst), []int{0, 2, 3, 2 + r.IntN(254)}[r.IntN(4)])
		switch r.IntN(6) {
		case 0, 1:
			path = append(attrPath(0xC8, int(y.inst), 1), 0x28, byte(r.IntN(4)))
		case 2:
			path = append(path[:len(path)-2], 0x31, 0, 1, 1)
		}
		svc, data := byte(0x0E), []byte(nil)
		if o.write {
			svc, data = 0x10, o.typed()
		}
		rep, err := conn.c.direct(cipRequest(svc, path, data))
		if err != nil {
			t.Fail("reply", "service %#x of path % X: %v", svc, path, err)
			return false
		}
		if rep.ok() {
			t.Fail("bridge-path", "service %#x of path % X, which is no attribute of a tag, gives %s", svc, path, hexs(rep.data))
			return false
		}
		t.Count("bridge_refusals", 1)
		return s.settle("an attribute a tag doesn't have", nil)
	}
	if o.write {
		rep, err := conn.c.direct(cipRequest(0x10, attrPath(0xC8, int(y.inst), 1), o.typed()))
		if err != nil {
			t.Fail("reply", "setting attribute of %d (%s): %v", y.inst, o, err)
			return false
		}
		return s.judge(o, "bridge", rep, true)
	}
	o.qty = 1
	inst := int(y.inst)
	if r.IntN(8) == 0 {
		inst = len(list) + 1 + r.IntN(5)
		if r.IntN(2) == 0 {
			inst = 0
		}
	}
	rep, err := conn.c.direct(cipRequest(0x0E, attrPath(0xC8, inst, 1), nil))
	if err != nil {
		t.Fail("reply", "getting attribute of %d: %v", inst, err)
		return false
	}
	if inst != int(y.inst) {
		if rep.ok() {
			t.Fail("bridge-unknown", "tag number %d of %d is %s", inst, len(list), hexs(rep.data))
			return false
		}
		return s.settle("getting a tag there is not", nil)
	}
	return s.judge(o, "bridge", rep, true)
}

// local calls the provider directly.
func (s *store) local(o *oper) bool {
	t := s.t
	if o.idx >= 0 && o.idx > 1<<20 {
		return true
	}
	name := o.name
	if o.idx >= 0 {
		name = fmt.Sprintf("%s[%d]", name, o.idx)
	}
	t.Count("local_operations", 1)
	if !o.write {
		if o.qty > 32767 {
			return true
		}
		got, err := s.p.TagRead(name, int16(o.qty))
		want := s.read(o.name, o.idx, o.qty)
		t.Eval(fmt.Sprintf("local read %T %v", got, err == nil))
		if want == nil {
			if err == nil {
				t.Fail("read-accepted", "TagRead(%q, %d) returns %s", name, o.qty, show(got))
				return false
			}
			return s.settle("TagRead", nil)
		}
		if err != nil {
			t.Fail("read-refused", "TagRead(%q, %d): %v", name, o.qty, err)
			return false
		}
		rv := reflect.ValueOf(got)
		vals := []any{got}
		if rv.Kind() == reflect.Slice {
			vals = nil
			for i := 0; i < rv.Len(); i++ {
				vals = append(vals, rv.Index(i).Interface())
			}
		}
		if !same(vals, want) {
			t.Fail("read-data", "TagRead(%q, %d) returns %s, not %s", name, o.qty, show(got), show(want))
			return false
		}
		if rv.Kind() == reflect.Slice { // what the caller does with it is its own business
			for i := 0; i < rv.Len(); i++ {
				rv.Index(i).SetZero()
			}
		}
		return s.settle("changing what TagRead returned", nil)
	}
	if o.cut {
		return true
	}
	fate, after := s.write(o.name, o.idx, o.vals)
	var v any = append([]any{}, o.vals...)
	if len(o.vals) == 1 {
		v = o.vals[0]
	}
	err := s.p.TagWrite(name, v)
	t.Eval(fmt.Sprintf("local write %T %v %v", v, fate, err == nil))
	what := fmt.Sprintf("TagWrite(%q, %s)", name, show(v))
	if err == nil && fate == mustRefuse || err != nil && fate == mustAccept {
		t.Fail("local-write", "%s: %v", what, err)
		return false
	}
	if err != nil {
		after = nil
	}
	return s.settle(what, after)
}
