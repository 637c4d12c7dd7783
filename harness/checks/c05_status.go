package checks

import (
	"fmt"
	"math/rand/v2"
	"strings"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C05",
		Rule: "each evaluation is one client operation during which the controller model rejected exactly one kind of request (CIP status with 0 to 2 extended words, or an encapsulation status), followed by an undisturbed operation on the same client; " +
			"non-trivial = distinct (operation, rejected service and its position, status)",
		Assumptions: []string{"status 6 on reads and listings means more data and is covered by C04 and C17", "a structure whose template is refused may be listed without its members", "a controller that refuses to list programs is asked for them through its symbols"},
		Cases:       c05Cases,
		MinEvents:   []string{"rejections", "operations_failed", "operations_after", "inner_rejections", "encapsulation_rejections", "attribute_rejections"},
	})
}

// reqKey names a request well enough to reject it again when it is repeated.
func reqKey(q *plc.Req) string { return fmt.Sprintf("%x/%x", q.Service, q.PathRaw) }

// trace runs an operation undisturbed and returns the services it asked for.
func (w *opWorld) trace(t *rt.T, c *gologix.Client, o op, r *rand.Rand) ([]*plc.Req, bool) {
	n := w.p.LogLen()
	_ = n
	qs := []*plc.Req{}
	w.p.Lock()
	w.p.OnReq = func(q *plc.Req) *plc.Action { qs = append(qs, q); return nil }
	w.p.OnCmd = w.p.OnReq
	w.p.Unlock()
	err, bad := o.Run(w, c, r)
	w.p.Lock()
	w.p.OnReq, w.p.OnCmd = nil, nil
	w.p.Unlock()
	if err != nil || bad != "" {
		t.Fail("undisturbed:"+o.Name, "%s on an undisturbed controller: %v %s", o.Name, err, bad)
		return nil, false
	}
	return qs, true
}

func c05Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for _, o := range ops() {
		for k := 0; k < tiered(tier, 2, 80); k++ {
			cs = append(cs, rt.Case{Name: fmt.Sprintf("%s-%d", o.Name, k), Run: func(t *rt.T) { c05Op(t, o, k, tiered(tier, 2, 80)) }})
		}
	}
	for i := 0; i < tiered(tier, 16, 60); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("mixed-%d", i), Run: c05Mixed})
	}
	cs = append(cs, rt.Case{Name: "attribute-status", Run: c05AttrStatus})
	return cs
}

func c05Status(r *rand.Rand, skip6 bool) (byte, []uint16) {
	for {
		s := byte(1 + r.IntN(255))
		if r.IntN(2) == 0 {
			s = []byte{1, 2, 3, 4, 5, 8, 0x0A, 0x0C, 0x0F, 0x10, 0x13, 0x14, 0x15, 0x16, 0x1C, 0x1E, 0x1F, 0x20, 0x26, 0xFF, 0x80}[r.IntN(21)]
		}
		if s == 6 && skip6 {
			continue
		}
		ext := make([]uint16, r.IntN(3))
		for i := range ext {
			ext[i] = uint16(r.Uint32())
		}
		if s == 0xFF && len(ext) == 0 {
			ext = []uint16{0x2105}
		}
		return s, ext
	}
}

// c05Op goes through every status with every request an operation makes.
func c05Op(t *rt.T, o op, part, parts int) {
	w := newOpWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	for i := 0; i < 256; i++ {
		if i%parts != part {
			continue
		}
		ext := make([]uint16, t.R.IntN(3))
		for j := range ext {
			ext[j] = uint16(t.R.Uint32())
		}
		var st byte
		if i == 0 {
			st, ext = 0xFF, []uint16{0x2105}
		} else {
			st = byte(i)
		}
		if c = c05Once(t, w, c, o, st, ext, t.R.IntN(5)); c == nil {
			return
		}
	}
	for i, st := range []byte{0x0A, 0x1E, 0x06, 0x01, 0x05, 0x08, 0xFF, 0x80, 0x11, 0x0C, 0x16, 0x20} {
		// a status next to the data of a success
		if i%parts == part {
			if c = c05Once(t, w, c, o, st, make([]uint16, i/8), 4); c == nil {
				return
			}
		}
	}
	for i := 0; i < 24/parts; i++ {
		if c = c05Encap(t, w, c, o); c == nil {
			return
		}
	}
}

// more says whether status 6 announces more data for a service, or is otherwise not a failure.
func partialService(s byte) bool {
	return s == 0x4C || s == 0x52 || s == 0x55 || s == 0x4B
}

func c05Once(t *rt.T, w *opWorld, c *gologix.Client, o op, st byte, ext []uint16, mode int) *gologix.Client {
	w.shuffle(t.R)
	qs, ok := w.trace(t, c, o, t.R)
	if !ok {
		return nil
	}
	// which request to reject
	cand := []int{}
	for i, q := range qs {
		if q.Service == 0 {
			continue // an encapsulation command without a service
		}
		if st == 6 && (partialService(q.Service) || q.Service == 0x0A) {
			continue
		}
		cand = append(cand, i)
	}
	if len(cand) == 0 {
		return c
	}
	victim := cand[t.R.IntN(len(cand))]
	if t.R.IntN(3) == 0 {
		victim = cand[len(cand)-1]
	}
	// reject the same service at the same position: repetitions of the operation may address other tags
	service, nth := qs[victim].Service, 0
	for _, q := range qs[:victim] {
		if q.Service == service {
			nth++
		}
	}
	withData := mode == 3
	keep := mode == 4
	for _, q := range qs {
		switch q.Service {
		case 0x01, 0x03, 0x0E, 0x4C, 0x52, 0x55, 0x0A:
		default:
			keep = false // it may change something
		}
	}
	var hit *plc.Req
	key := ""
	inner := false
	seen := 0
	outer := 0
	w.p.Lock()
	opened := w.p.Opened
	w.p.OnReq = func(q *plc.Req) *plc.Action {
		if q.Service == 0x0A {
			outer++
		}
		reject := false
		if hit == nil && q.Service == service {
			if seen == nth {
				hit, key, reject = q, reqKey(q), true
				inner = q.In
			}
			seen++
		} else if hit != nil && reqKey(q) == key {
			reject = true // also when it is tried again
		}
		if !reject {
			return nil
		}
		rep := plc.Reply{Status: st, Ext: ext}
		if keep {
			rep.Keep = true
			t.Count("status_with_full_data", 1)
		}
		if withData {
			rep.Data = []byte{0xC4, 0, 1, 2, 3, 4, 5, 6, 7, 8}
		}
		return &plc.Action{Reply: &rep}
	}
	w.p.Unlock()
	var err error
	var bad string
	what := ""
	t.Guard("panic:"+o.Name, func() { err, bad = o.Run(w, c, t.R) })
	w.p.Lock()
	w.p.OnReq = nil
	w.p.Unlock()
	if hit == nil {
		return c
	}
	what = fmt.Sprintf("%s with service %#x on %s answered with status %#x %x (data %v, usual data %v)", o.Name, hit.Service, plc.PathString(hit.Path), st, ext, withData, keep)
	t.Eval(fmt.Sprintf("%s/%x.%d/%v/%x/%d/%v", o.Name, service, min(nth, 4), inner, st, len(ext), keep))
	t.Count("rejections", 1)
	if inner {
		t.Count("inner_rejections", 1)
	}
	if err != nil {
		t.Count("operations_failed", 1)
	} else if o.Tolerant == nil || !o.Tolerant(hit) {
		t.Fail(fmt.Sprintf("success:%s:%x", o.Name, service), "%s returned no error", what)
	}
	if bad != "" {
		t.Fail(fmt.Sprintf("value:%s:%x", o.Name, service), "%s: %s", what, bad)
	}
	if !c.Connected() {
		t.Fail("disconnected:"+o.Name, "%s left the client disconnected", what)
		return nil
	}
	// and the client goes on
	w.shuffle(t.R)
	next := o
	if t.R.IntN(2) == 0 {
		next = ops()[t.R.IntN(len(ops()))]
	}
	err, bad = next.Run(w, c, t.R)
	if err != nil || bad != "" {
		t.Fail("after:"+o.Name, "after %s, %s gives %v %s", what, next.Name, err, bad)
		return nil
	}
	t.Count("operations_after", 1)
	w.p.Lock()
	again := w.p.Opened != opened
	w.p.Unlock()
	if again {
		t.Fail("reconnected:"+o.Name, "after %s the client opened a new connection", what)
	}
	return c
}

// c05Encap answers one of the frames of an operation with an encapsulation status.
func c05Encap(t *rt.T, w *opWorld, c *gologix.Client, o op) *gologix.Client {
	w.shuffle(t.R)
	frames := 0
	count := func(q *plc.Req) *plc.Action {
		if !q.In {
			frames++
		}
		return nil
	}
	w.p.Lock()
	w.p.OnReq, w.p.OnCmd = count, count
	w.p.Unlock()
	err, bad := o.Run(w, c, t.R)
	if err != nil || bad != "" {
		t.Fail("undisturbed:"+o.Name, "%s on an undisturbed controller: %v %s", o.Name, err, bad)
		return nil
	}
	if frames == 0 {
		return c // answered from what the client knows already
	}
	victim := t.R.IntN(frames)
	st := []uint32{1, 2, 3, 0x64, 0x65, 0x69, 0x6A, 0xFFFFFFFF, 0x100, 1 << 16, 1 << 31, uint32(1 + t.R.IntN(1<<30))}[t.R.IntN(12)]
	i := 0
	var hit *plc.Req
	f := func(q *plc.Req) *plc.Action {
		if q.In {
			return nil
		}
		i++
		if i-1 == victim {
			hit = q
			return &plc.Action{EIPStatus: st}
		}
		return nil
	}
	w.p.Lock()
	w.p.OnReq, w.p.OnCmd = f, f
	w.p.Unlock()
	t.Guard("panic:"+o.Name, func() { err, bad = o.Run(w, c, t.R) })
	w.p.Lock()
	w.p.OnReq, w.p.OnCmd = nil, nil
	w.p.Unlock()
	if hit == nil {
		return c
	}
	what := fmt.Sprintf("%s with service %#x (command %#x) answered with encapsulation status %#x", o.Name, hit.Service, hit.Cmd, st)
	t.Eval(fmt.Sprintf("%s/encap/%x/%d/%x", o.Name, hit.Service, min(victim, 4), min(st, 0x100)))
	t.Count("encapsulation_rejections", 1)
	if err == nil && (o.Tolerant == nil || !o.Tolerant(hit)) {
		t.Fail(fmt.Sprintf("encap-success:%s:%x", o.Name, hit.Service), "%s returned no error", what)
	}
	if bad != "" && !strings.HasPrefix(o.Kind, "write") {
		t.Fail(fmt.Sprintf("encap-value:%s:%x", o.Name, hit.Service), "%s: %s", what, bad)
	}
	if !c.Connected() {
		if err := c.Connect(); err != nil {
			t.Fail("encap-connect:"+o.Name, "after %s the client cannot connect again: %v", what, err)
			return nil
		}
	}
	w.shuffle(t.R)
	err, bad = o.Run(w, c, t.R)
	if err != nil || bad != "" {
		t.Fail("encap-after:"+o.Name, "after %s, %s gives %v %s", what, o.Name, err, bad)
		return nil
	}
	t.Count("operations_after", 1)
	return c
}

// c05Mixed rejects several services of a stream of operations.
func c05Mixed(t *rt.T) {
	w := newOpWorld(t)
	c := dial(t, w.p, uint16([]int{0, 511, 1000}[t.R.IntN(3)]))
	if c == nil {
		return
	}
	l := ops()
	for k := 0; k < 60; k++ {
		o := l[t.R.IntN(len(l))]
		st, ext := c05Status(t.R, true)
		if c = c05Once(t, w, c, o, st, ext, t.R.IntN(5)); c == nil {
			return
		}
	}
}

// c05AttrStatus: a status of a single attribute inside a successful list reply is reported too where the library interprets it.
func c05AttrStatus(t *rt.T) {
	w := newOpWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	for _, name := range []string{"172/1/1", "172/1/2", "172/1/3", "172/1/4", "172/1/10"} {
		w.shuffle(t.R)
		w.p.Lock()
		delete(w.p.Attrs, name)
		w.p.Unlock()
		v, err := c.GetControllerPropList()
		t.Count("attribute_rejections", 1)
		t.Eval("attribute/" + name)
		if err == nil {
			t.Fail("attribute:GetControllerPropList", "attribute %s is not supported by the controller, GetControllerPropList returned %+v", name, v)
		}
	}
	w.shuffle(t.R)
	if err, bad := opNamed("GetControllerPropList").Run(w, c, t.R); err != nil || bad != "" {
		t.Fail("after:attribute", "after unsupported attributes: %v %s", err, bad)
	}
}
