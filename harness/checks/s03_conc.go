package checks

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "S03",
		Rule: "each evaluation is one operation on the tags of one map provider made while other connections and local callers use them; intervals and values go into a history per tag that porcupine checks for linearizability, " +
			"arrays and strings that are only ever replaced whole have to be of one write, the race detector watches the server; non-trivial = distinct (operation, way, number of connections, operations overlapping it)",
		Assumptions: []string{"an array read in one reply is one operation, its parts fetched with several requests are not"},
		Cases:       s03Cases,
		MinEvents:   []string{"operations", "overlapping_operations", "array_reads", "string_reads", "local_operations", "histories_checked", "enumerations", "map_changes", "connections_opened", "orders_seen"},
		Races:       true,
		Exclusive:   true,
		Shards:      1,
	})
}

func s03Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 300, 5000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("clients-%d", i), Run: s03Clients})
	}
	return cs
}

var s03 struct {
	sync.Mutex
	srv    *server
	router *gologix.PathRouter
}

// s03Server is one server for all cases: its fields can't be read while it runs without racing with it.
func s03Server(t *rt.T) *server {
	s03.Lock()
	defer s03.Unlock()
	if s03.srv == nil {
		s03.router = gologix.NewRouter()
		s03.srv = startServer(t, s03.router, true, nil)
	}
	return s03.srv
}

// stampText is a string that tells which write it is of, all along.
func stampText(v int32) string {
	s := ""
	for len(s) < 60 {
		s += fmt.Sprintf("%07d/", v)
	}
	return s
}

func textStamp(s string) (int32, bool) {
	parts := strings.Split(s, "/")
	n, err := strconv.Atoi(parts[0])
	return int32(n), err == nil && s == stampText(int32(n))
}

// s03Access is one connection's, or a local caller's, way to the tags.
type s03Access struct {
	conn  *sopen // nil for local
	p     *gologix.MapTagProvider
	route []byte
}

func (a *s03Access) read(r *rand.Rand, name string, idx, n int) (way string, elems [][]byte, err error) {
	o := &oper{name: recase(r, name), idx: idx, qty: n}
	if a.conn == nil {
		full := o.name
		if idx >= 0 {
			full = fmt.Sprintf("%s[%d]", o.name, idx)
		}
		v, err := a.p.TagRead(full, int16(n))
		if err != nil {
			return "local", nil, err
		}
		switch x := v.(type) {
		case []int32:
			for _, e := range x {
				elems = append(elems, wireElem(e))
			}
		default:
			elems = append(elems, wireElem(v))
		}
		return "local", elems, nil
	}
	var data []byte
	switch r.IntN(5) {
	case 0:
		way = "unconnected"
		rep, err := a.conn.c.direct(wrap(o.msg(), a.route))
		if err != nil || !rep.ok() {
			return way, nil, fmt.Errorf("%v %v", rep, err)
		}
		data = rep.data
	case 1:
		way = "multi"
		rep, err := a.conn.request(0x0A, msgRouter, multiData(o.msg()))
		if err != nil || !rep.ok() {
			return way, nil, fmt.Errorf("%v %v", rep, err)
		}
		reps, err := multiReplies(rep.data, 1)
		if err != nil {
			return way, nil, err
		}
		data = reps[0].data
	default:
		way = "connected"
		m := o.msg()
		rep, err := a.conn.request(m[0], o.path(), m[2+len(o.path()):])
		if err != nil || !rep.ok() {
			return way, nil, fmt.Errorf("%v %v", rep, err)
		}
		data = rep.data
	}
	head, size := 2, 4
	if len(data) > 0 && data[0] == 0xA0 {
		head, size = 4, 88
	}
	if len(data) != head+n*size {
		return way, nil, fmt.Errorf("read of %d elements returns %s", n, hexs(data))
	}
	for d := data[head:]; len(d) > 0; d = d[size:] {
		elems = append(elems, d[:size])
	}
	return way, elems, nil
}

func (a *s03Access) write(r *rand.Rand, name string, idx int, vals []any) (way string, err error) {
	o := &oper{write: true, name: recase(r, name), idx: idx, vals: vals, code: plc.DINT}
	if _, ok := vals[0].(string); ok {
		o.code = 0xA0
	}
	if a.conn == nil {
		full := o.name
		if idx >= 0 {
			full = fmt.Sprintf("%s[%d]", o.name, idx)
		}
		if len(vals) == 1 {
			return "local", a.p.TagWrite(full, vals[0])
		}
		return "local", a.p.TagWrite(full, vals)
	}
	var rep sreply
	switch r.IntN(5) {
	case 0:
		way = "unconnected"
		rep, err = a.conn.c.direct(wrap(o.msg(), a.route))
	case 1:
		way = "multi"
		rep, err = a.conn.request(0x0A, msgRouter, multiData(o.msg()))
	default:
		way = "connected"
		m := o.msg()
		rep, err = a.conn.request(m[0], o.path(), m[2+len(o.path()):])
	}
	if err == nil && !rep.ok() {
		err = fmt.Errorf("refused: %v", rep)
	}
	return way, err
}

func s03Clients(t *rt.T) {
	r := t.R
	srv := s03Server(t)
	if srv == nil {
		return
	}
	arrayLen := []int{60, 300, 900}[r.IntN(3)]
	zeros := func() []int32 { return make([]int32, arrayLen) }
	p := &gologix.MapTagProvider{Data: map[string]any{
		"reg0": int32(0), "reg1": int32(0), "whole": zeros(), "other": zeros(), "elements": zeros(), "text": stampText(0),
		"texts": []string{stampText(0), stampText(0)},
	}}
	for i := r.IntN(40); i > 0; i-- {
		p.Data[fmt.Sprintf("fixed%d", i)] = int32(i)
	}
	route := []byte{byte(2 + r.IntN(13)), byte(r.IntN(256))}
	if r.IntN(3) == 0 {
		route = []byte{1, 0}
	}
	srv.router.Handle(route, p)
	h := newHistory()
	var stamp, running, order atomic.Int64
	next := func() int32 { return int32(stamp.Add(1)) }

	nconn, nlocal := 2+r.IntN(6), r.IntN(3)
	var accesses []*s03Access
	for i := 0; i < nconn; i++ {
		c := srv.session(t, 0)
		if c == nil {
			return
		}
		conn := c.class3(t, r, route, 4000)
		if conn == nil {
			return
		}
		t.Count("connections_opened", 1)
		accesses = append(accesses, &s03Access{conn: conn, p: p, route: route})
		if r.IntN(4) == 0 { // a second connection over the same TCP connection can't be used at the same time
			conn2 := c.class3(t, r, route, 4000)
			if conn2 == nil {
				return
			}
			accesses[len(accesses)-1].conn = conn2
		}
	}
	for i := 0; i < nlocal; i++ {
		accesses = append(accesses, &s03Access{p: p, route: route})
	}
	whole := func(elems [][]byte) (int32, bool) {
		v := int32(plc.LE.Uint32(elems[0]))
		for _, e := range elems {
			if int32(plc.LE.Uint32(e)) != v {
				return v, false
			}
		}
		return v, true
	}
	text := func(e []byte) (int32, bool) {
		return textStamp(string(e[4 : 4+min(84, plc.LE.Uint32(e))]))
	}
	var doneMu sync.Mutex
	var done []string
	worker := func(g int, a *s03Access, r *rand.Rand, n int) {
		for i := 0; i < n && !t.Failed(); i++ {
			overlap := running.Add(1)
			o := order.Add(1)
			call := h.now()
			var way, what string
			var err error
			tag := ""
			in := regIn{}
			var out int32
			pure := true
			switch r.IntN(10) {
			case 0, 1:
				what = "write"
				tag = fmt.Sprintf("reg%d", r.IntN(2))
				in = regIn{write: true, val: next()}
				way, err = a.write(r, tag, -1, []any{in.val})
			case 2, 3:
				what = "read"
				tag = fmt.Sprintf("reg%d", r.IntN(2))
				var e [][]byte
				way, e, err = a.read(r, tag, -1, 1)
				if err == nil {
					out = int32(plc.LE.Uint32(e[0]))
				}
			case 4:
				what = "write array"
				tag = []string{"whole", "other"}[r.IntN(2)]
				in = regIn{write: true, val: next()}
				vals := make([]any, arrayLen)
				for i := range vals {
					vals[i] = in.val
				}
				way, err = a.write(r, tag, []int{-1, 0}[r.IntN(2)], vals)
			case 5, 6:
				what = "read array"
				tag = []string{"whole", "other"}[r.IntN(2)]
				var e [][]byte
				way, e, err = a.read(r, tag, []int{-1, 0}[r.IntN(2)], arrayLen)
				if err == nil {
					var one bool
					if out, one = whole(e); !one {
						t.Fail("torn-array", "%s read of an array that is only written whole returns %s", way, showElems(e))
					}
					t.Count("array_reads", 1)
				}
			case 7:
				i := r.IntN(3) * 20
				tag = fmt.Sprintf("elements[%d]", i)
				if r.IntN(2) == 0 {
					what = "write element"
					in = regIn{write: true, val: next()}
					way, err = a.write(r, "elements", i, []any{in.val})
				} else {
					what = "read element"
					var e [][]byte
					way, e, err = a.read(r, "elements", i, 1)
					if err == nil {
						out = int32(plc.LE.Uint32(e[0]))
					}
				}
			case 8:
				tag = "text"
				if r.IntN(2) == 0 {
					what = "write string"
					in = regIn{write: true, val: next()}
					way, err = a.write(r, tag, -1, []any{stampText(in.val)})
				} else {
					what = "read string"
					var e [][]byte
					way, e, err = a.read(r, tag, -1, 1)
					if err == nil {
						var one bool
						if out, one = text(e[0]); !one {
							t.Fail("torn-string", "%s read of a string returns %q", way, e[0])
						}
						t.Count("string_reads", 1)
					}
				}
			case 9:
				pure = false
				switch k := r.IntN(4); {
				case k == 0 && a.conn != nil:
					what, way = "enumerate", "connected"
					var list []symbol
					list, err = symbols(a.conn)
					seen := 0
					for _, y := range list {
						if y.name == "reg0" || y.name == "text" || y.name == "whole" {
							seen++
						}
					}
					if err == nil && seen != 3 {
						err = fmt.Errorf("a listing has %d of 3 tags: %v", seen, list)
					}
					t.Count("enumerations", 1)
				case k == 1:
					what, way = "enumerate", "local"
					if len(p.TagList()) < 7 {
						err = fmt.Errorf("TagList is too short")
					}
					t.Count("enumerations", 1)
				case k == 2:
					what, way = "change map", "local"
					p.Mutex.Lock()
					name := fmt.Sprintf("noise%d", r.IntN(20))
					if _, ok := p.Data[name]; ok {
						delete(p.Data, name)
					} else {
						p.Data[name] = int32(i)
					}
					p.Mutex.Unlock()
					t.Count("map_changes", 1)
				default:
					what, way = "register route", "local"
					srv.router.Handle([]byte{byte(2 + r.IntN(13)), byte(r.IntN(256)), 1, byte(g)}, p)
				}
			}
			ret := h.now()
			running.Add(-1)
			t.Count("operations", 1)
			if way == "local" {
				t.Count("local_operations", 1)
			}
			if order.Load() != o || overlap > 1 {
				t.Count("overlapping_operations", 1)
			}
			if err != nil {
				t.Fail("operation", "%s %s of %s: %v", way, what, tag, err)
				return
			}
			if pure {
				h.add(tag, g, in, out, call, ret)
			}
			t.Eval(fmt.Sprintf("%s %s %d %d", way, what, nconn, overlap))
			doneMu.Lock()
			done = append(done, fmt.Sprintf("%d%s", g, what))
			doneMu.Unlock()
		}
	}
	stop := make(chan struct{})
	var side sync.WaitGroup
	// connections come and go in the meantime.
	side.Add(1)
	cr := rt.NewRand(r.Uint64(), "churn")
	go func() {
		defer side.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(time.Duration(cr.IntN(4)) * time.Millisecond):
			}
			c, err := srv.dialFrom("")
			if err != nil {
				t.Fail("churn", "cannot connect: %v", err)
				return
			}
			if err := c.register(0); err != nil {
				t.Fail("churn", "registering a session: %v", err)
			} else if conn, rep, err := c.open(openReq{to: cr.Uint32() | 1, serial: uint16(cr.Uint32()), vendor: 9, orig: cr.Uint32(), size: 500, trigger: 0xA3, otRPI: 1000, toRPI: 1000, path: append(append([]byte{}, route...), msgRouter...)}, route); err != nil || !rep.ok() {
				t.Fail("churn", "forward open: %v %v", rep, err)
			} else {
				t.Count("connections_opened", 1)
				if cr.IntN(2) == 0 {
					if rep, err := conn.close(); err != nil || !rep.ok() {
						t.Fail("churn", "forward close: %v %v", rep, err)
					}
				}
			}
			c.c.Close()
		}
	}()
	var wg sync.WaitGroup
	for g, a := range accesses {
		wr := rt.NewRand(r.Uint64(), "worker")
		n := 50 + r.IntN(120)
		wg.Add(1)
		go func() { defer wg.Done(); worker(g, a, wr, n) }()
	}
	t.Within(120*time.Second, "operations", wg.Wait)
	close(stop)
	side.Wait()
	if t.Failed() {
		return
	}
	t.Count("orders_seen", 1)
	t.Eval("order " + strings.Join(done, ","))
	h.check(t, "not-linearizable")
}

func showElems(e [][]byte) string {
	var b []string
	for _, x := range e {
		b = append(b, fmt.Sprint(int32(plc.LE.Uint32(x))))
	}
	return strings.Join(b, " ")
}
