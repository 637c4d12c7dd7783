package checks

import (
	"bytes"
	"context"
	"fmt"
	"math/rand/v2"
	"net"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "S06",
		Rule: "each evaluation is one packet produced by a real server and taken off the originator's port, or one packet consumed by it and watched in the provider or at a subscriber, while values are set and read concurrently; all values are stamped, so a torn, stale or foreign one shows; " +
			"non-trivial = distinct (provider, data type, connections, subscribers, direction, event)",
		Assumptions: []string{"a subscriber is sent what comes while it waits for it, as its channel has no buffer", "each originator has an address of its own", "packets to one's own machine arrive in order"},
		Cases:       s06Cases,
		MinEvents:   []string{"packets_produced", "packets_consumed", "values_set", "values_delivered", "subscriber_values", "stops_checked", "foreign_packets", "concurrent_reads", "connections", "tag_requests", "one_way_providers", "late_subscribers"},
		Races:       true,
		Exclusive:   true,
		Shards:      1,
	})
}

func s06Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{}
	for i := 0; i < tiered(tier, 24, 700); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("produce-%d", i), Run: s06Produce})
	}
	for i := 0; i < tiered(tier, 24, 700); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("consume-%d", i), Run: s06Consume})
	}
	for i := 0; i < tiered(tier, 1, 6); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("long-%d", i), Run: s06Long})
	}
	return cs
}

var s06 struct {
	sync.Mutex
	srv *server
	sub int // routes and addresses handed out
}

func s06Server(t *rt.T) *server {
	s06.Lock()
	defer s06.Unlock()
	if s06.srv == nil {
		s06.srv = startServer(t, gologix.NewRouter(), true, nil)
		if s06.srv != nil {
			shareUDP()
		}
	}
	return s06.srv
}

// shareUDP lets originators of this machine use the port the server uses, on addresses of their own. It looks for the
// socket itself because the server's field for it can't be read without racing with the server.
func shareUDP() {
	for fd := 3; fd < 4096; fd++ {
		ty, err := syscall.GetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_TYPE)
		if err != nil || ty != syscall.SOCK_DGRAM {
			continue
		}
		sa, err := syscall.Getsockname(fd)
		if err != nil {
			continue
		}
		port := 0
		switch x := sa.(type) {
		case *syscall.SockaddrInet4:
			port = x.Port
		case *syscall.SockaddrInet6:
			port = x.Port
		}
		if port == 2222 {
			syscall.SetsockoptInt(fd, syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
		}
	}
}

// originator is where a server's packets for one address arrive.
type originator struct {
	ip string
	u  net.PacketConn
}

func newOriginator(t *rt.T) *originator {
	s06.Lock()
	s06.sub++
	o := &originator{ip: fmt.Sprintf("127.0.%d.%d", 1+s06.sub/200%200, 2+s06.sub%200)}
	s06.Unlock()
	lc := net.ListenConfig{Control: func(n, ad string, c syscall.RawConn) error {
		var e error
		c.Control(func(fd uintptr) {
			e = syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_REUSEADDR, 1)
			syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, 4<<20)
		})
		return e
	}}
	var err error
	o.u, err = lc.ListenPacket(context.Background(), "udp4", o.ip+":2222")
	if err != nil {
		t.Count("tap_unavailable", 1)
		t.Sample(map[string]any{"tap": err.Error()})
		return nil
	}
	t.Cleanup(func() { o.u.Close() })
	return o
}

// What is exchanged: every type's values say in all their parts which value they are.
type (
	ioSmall struct{ A int32 }
	ioMixed struct {
		A int16
		B int32
		C [7]int16
		D float32
		E uint32
		F int64
	}
	ioNested struct {
		A int32
		B ioSmall
		C [3]ioSmall
		D [4]float64
	}
	ioBig  struct{ A [120]int32 }
	ioHuge struct{ A [350]int32 }
	ioMax  struct{ A [1000]int32 }
)

type ioKind[T any] struct {
	name string
	make func(n int32) T
}

func kSmall() ioKind[ioSmall] {
	return ioKind[ioSmall]{"small", func(n int32) ioSmall { return ioSmall{n} }}
}
func kMixed() ioKind[ioMixed] {
	return ioKind[ioMixed]{"mixed", func(n int32) ioMixed {
		v := ioMixed{A: int16(n), B: n, D: float32(n), E: uint32(n), F: int64(n)}
		for i := range v.C {
			v.C[i] = int16(n)
		}
		return v
	}}
}
func kNested() ioKind[ioNested] {
	return ioKind[ioNested]{"nested", func(n int32) ioNested {
		s := ioSmall{n}
		f := float64(n)
		return ioNested{n, s, [3]ioSmall{s, s, s}, [4]float64{f, f, f, f}}
	}}
}
func kBig() ioKind[ioBig] {
	return ioKind[ioBig]{"big", func(n int32) ioBig {
		var v ioBig
		for i := range v.A {
			v.A[i] = n
		}
		return v
	}}
}

func kHuge() ioKind[ioHuge] {
	return ioKind[ioHuge]{"huge", func(n int32) ioHuge {
		var v ioHuge
		for i := range v.A {
			v.A[i] = n
		}
		return v
	}}
}
func kMax() ioKind[ioMax] {
	return ioKind[ioMax]{"max", func(n int32) ioMax {
		var v ioMax
		for i := range v.A {
			v.A[i] = n
		}
		return v
	}}
}

func packed[T any](v T) []byte {
	var b bytes.Buffer
	gologix.Pack(&b, v)
	return b.Bytes()
}

// stampOf finds which of the values up to n this is.
func stampOf[T comparable](k ioKind[T], v T, n int32) (int32, bool) {
	for i := n; i >= 0; i-- {
		if k.make(i) == v {
			return i, true
		}
	}
	return 0, false
}

// producer is a provider's side that is set, with what has been set so far.
type producer struct {
	name  string
	size  int // of its connections
	p     gologix.CIPEndpoint
	set   func(n int32)
	find  func(payload []byte, n int32) (int32, bool)
	begun atomic.Int32 // the last value whose setting began
	done  atomic.Int32 // the last value whose setting ended
}

func newProducer[T comparable](k ioKind[T], channel, late bool) *producer {
	x := &producer{name: k.name, size: 500 + max(0, len(packed(k.make(0)))-480)}
	memo := map[string]int32{}
	var mu sync.Mutex
	upTo := int32(-1)
	x.find = func(payload []byte, n int32) (int32, bool) {
		mu.Lock()
		defer mu.Unlock()
		for ; upTo < n; upTo++ {
			memo[string(packed(k.make(upTo+1)))] = upTo + 1
		}
		v, ok := memo[string(payload)]
		return v, ok
	}
	if channel {
		p := &gologix.IOChannelProvider[T, ioSmall]{}
		p.SetInputData(k.make(0))
		x.p, x.set = p, func(n int32) { p.SetInputData(k.make(n)) }
		x.name += " channel"
		return x
	}
	first := k.make(0)
	p := &gologix.IOProvider[T, ioSmall]{In: &first, Out: &ioSmall{}}
	if late { // there is nothing to produce at first
		p.In = nil
	}
	x.p, x.set = p, func(n int32) {
		if n%3 == 0 && (!late || n > 10) { // as the documentation says it can be done, too
			p.InMutex.Lock()
			*p.In = k.make(n)
			p.InMutex.Unlock()
			return
		}
		p.SetInputData(k.make(n))
	}
	return x
}

func anyProducer(r *rand.Rand) *producer {
	ch, late := r.IntN(2) == 0, r.IntN(4) == 0
	switch r.IntN(6) {
	case 0:
		return newProducer(kSmall(), ch, late)
	case 1:
		return newProducer(kMixed(), ch, late)
	case 2:
		return newProducer(kNested(), ch, late)
	case 3:
		return newProducer(kHuge(), ch, late)
	case 4:
		return newProducer(kMax(), ch, late)
	}
	return newProducer(kBig(), ch, late)
}

// production is a connection something is produced for.
type production struct {
	*sopen
	prod   *producer
	rpi    time.Duration
	mu     sync.Mutex
	n      int // packets
	seq    uint32
	short  uint16
	stamp  int32
	first  time.Time
	last   time.Time
	since  time.Time // opened
	closed bool
}

func cyclic(r *rand.Rand, route []byte, rpi time.Duration, size int) openReq {
	return openReq{large: size > 511 || r.IntN(3) == 0, ot: r.Uint32() | 1, to: r.Uint32() | 1, serial: uint16(r.Uint32()), vendor: uint16(r.Uint32()), orig: r.Uint32(), size: size, trigger: 1, otRPI: 20000, toRPI: uint32(rpi / time.Microsecond),
		path: append(append([]byte{}, route...), 0x20, 4, 0x24, byte(1+r.IntN(9)), 0x2C, byte(r.IntN(200)))}
}

func s06Route(srv *server, p gologix.CIPEndpoint) []byte {
	s06.Lock()
	s06.sub++
	route := []byte{byte(2 + s06.sub/250%13), byte(s06.sub % 250), 2, byte(s06.sub / 3250)}
	s06.Unlock()
	srv.router.Handle(route, p)
	return route
}

func s06Produce(t *rt.T) {
	r := t.R
	srv := s06Server(t)
	if srv == nil {
		return
	}
	var prods []*producer
	var routes [][]byte
	for i := 0; i < 1+r.IntN(3); i++ {
		p := anyProducer(r)
		prods = append(prods, p)
		routes = append(routes, s06Route(srv, p.p))
	}
	byTO := map[uint32]*production{}
	var all []*production
	var owner = map[uint32]string{}
	var mapMu sync.RWMutex
	var taps sync.WaitGroup
	t.Cleanup(taps.Wait) // after all the taps are closed
	var ctls []*sconn
	for i := 0; i < 1+r.IntN(3); i++ {
		o := newOriginator(t)
		if o == nil {
			return
		}
		c := srv.sessionFrom(t, 0, o.ip)
		if c == nil {
			return
		}
		ctls = append(ctls, c)
		taps.Add(1)
		go func() {
			defer taps.Done()
			buf := make([]byte, 65536)
			for {
				n, _, err := o.u.ReadFrom(buf)
				if err != nil {
					return
				}
				mapMu.RLock()
				s06Packet(t, buf[:n], o.ip, byTO, owner)
				mapMu.RUnlock()
			}
		}()
		for k := 0; k < 1+r.IntN(3); k++ {
			pi := r.IntN(len(prods))
			rpi := time.Duration(2+r.IntN(25)) * time.Millisecond
			if r.IntN(6) == 0 { // an interval of more than 16 bits
				rpi = 65536*time.Microsecond + time.Duration(r.IntN(2)*65536+r.IntN(4000))*time.Microsecond
			}
			req := cyclic(r, routes[pi], rpi, prods[pi].size)
			x := &production{prod: prods[pi], rpi: rpi, since: time.Now()}
			mapMu.Lock()
			byTO[req.to] = x
			owner[req.to] = o.ip
			mapMu.Unlock()
			conn, rep, err := c.open(req, routes[pi])
			if err != nil || !rep.ok() {
				t.Fail("open", "cyclic forward open: %v %v", rep, err)
				return
			}
			x.mu.Lock()
			x.sopen = conn
			x.mu.Unlock()
			all = append(all, x)
			t.Count("connections", 1)
		}
	}
	if r.IntN(2) == 0 {
		time.Sleep(40 * time.Millisecond) // some may have nothing to produce yet
	}
	// values are set in the meantime.
	stop := make(chan struct{})
	var setters sync.WaitGroup
	for _, p := range prods {
		pace := rt.NewRand(r.Uint64(), "pace")
		setters.Add(1)
		go func() {
			defer setters.Done()
			for n := int32(1); n < 4000; n++ {
				select {
				case <-stop:
					return
				default:
				}
				p.begun.Store(n)
				p.set(n)
				p.done.Store(n)
				t.Count("values_set", 1)
				time.Sleep(time.Duration(100+pace.IntN(4000)) * time.Microsecond)
			}
		}()
	}
	count := func(x *production) int { x.mu.Lock(); defer x.mu.Unlock(); return x.n }
	for _, x := range all {
		if !soon(10*time.Second, func() bool { return count(x) > 0 || t.Failed() }) {
			t.Fail("nothing-produced", "nothing is produced for connection %#x (interval %v) for 10 s", x.to, x.rpi)
			close(stop)
			setters.Wait()
			return
		}
	}
	time.Sleep(time.Duration(100+r.IntN(200)) * time.Millisecond)
	close(stop)
	setters.Wait()
	// the last value is what everybody gets from now on.
	for _, x := range all {
		last := x.prod.done.Load()
		if !soon(10*time.Second, func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.stamp == last || t.Failed() }) {
			x.mu.Lock()
			t.Fail("stale", "%s: the value set last is number %d; 10 s later the connection's packets still have number %d", x.prod.name, last, x.stamp)
			x.mu.Unlock()
			return
		}
	}
	// the interval: never more often than asked for, and not much more rarely.
	for _, x := range all {
		x.mu.Lock()
		dur := x.last.Sub(x.since)
		most := int(dur/x.rpi) + 3
		n := x.n
		x.mu.Unlock()
		if n > most+most/4 {
			t.Fail("too-often", "%d packets in %v for a connection with interval %v", n, dur, x.rpi)
			return
		}
		t.Count("intervals_checked", 1)
	}
	for _, x := range all {
		n := count(x)
		if !soon(5*time.Second+20*x.rpi, func() bool { return count(x) >= n+5 || t.Failed() }) {
			t.Fail("too-rarely", "%d packets in 5 s for a connection with interval %v", count(x)-n, x.rpi)
			return
		}
	}
	// some are closed, then the others.
	for len(all) > 0 && !t.Failed() {
		i := r.IntN(len(all))
		gone := []*production{all[i]}
		all = append(all[:i:i], all[i+1:]...)
		how := "closed"
		if r.IntN(4) == 0 {
			how = "left by its TCP connection"
			c := gone[0].c
			rest := []*production{}
			for _, x := range all {
				if x.c == c {
					gone = append(gone, x)
				} else {
					rest = append(rest, x)
				}
			}
			all = rest
			c.c.Close()
		} else if rep, err := gone[0].close(); err != nil || !rep.ok() {
			t.Fail("close", "forward close of a cyclic connection: %v %v", rep, err)
			return
		}
		for _, x := range gone {
			still := !soon(8*time.Second, func() bool {
				n := count(x)
				time.Sleep(2*x.rpi + 10*time.Millisecond)
				return count(x) == n
			})
			if still {
				t.Fail("not-stopped", "connection %#x was %s, packets for it still come 8 s later", x.to, how)
				return
			}
			t.Count("stops_checked", 1)
		}
		for _, x := range all {
			n := count(x)
			if !soon(8*time.Second, func() bool { return count(x) > n+1 || t.Failed() }) {
				t.Fail("stopped-too", "connection %#x was %s, and packets for %#x, which is open, don't come any more", gone[0].to, how, x.to)
				return
			}
		}
	}
}

// s06Long has a connection produce more packets than the 16 bits of the sequence count in them can number.
func s06Long(t *rt.T) {
	r := t.R
	srv := s06Server(t)
	if srv == nil {
		return
	}
	prod := newProducer(kSmall(), r.IntN(2) == 0, false)
	route := s06Route(srv, prod.p)
	var tap sync.WaitGroup
	t.Cleanup(tap.Wait) // after it's closed
	o := newOriginator(t)
	if o == nil {
		return
	}
	c := srv.sessionFrom(t, 0, o.ip)
	if c == nil {
		return
	}
	req := cyclic(r, route, 20*time.Microsecond, 500)
	x := &production{prod: prod, rpi: 20 * time.Microsecond, since: time.Now()}
	byTO, owner := map[uint32]*production{req.to: x}, map[uint32]string{req.to: o.ip}
	tap.Add(1)
	go func() {
		defer tap.Done()
		buf := make([]byte, 65536)
		for {
			n, _, err := o.u.ReadFrom(buf)
			if err != nil {
				return
			}
			s06Packet(t, buf[:n], o.ip, byTO, owner)
		}
	}()
	conn, rep, err := c.open(req, route)
	if err != nil || !rep.ok() {
		t.Fail("open", "cyclic forward open: %v %v", rep, err)
		return
	}
	count := func() int { x.mu.Lock(); defer x.mu.Unlock(); return x.n }
	n := int32(0)
	soon(25*time.Second, func() bool {
		n++
		prod.begun.Store(n)
		prod.set(n)
		prod.done.Store(n)
		time.Sleep(5 * time.Millisecond)
		return count() > 70000 || t.Failed()
	})
	t.Count("long_stream_packets", count())
	if !soon(10*time.Second, func() bool { x.mu.Lock(); defer x.mu.Unlock(); return x.stamp == n || t.Failed() }) {
		t.Fail("stale", "after %d packets the value set last, number %d, isn't produced", count(), n)
		return
	}
	if rep, err := conn.close(); err != nil || !rep.ok() {
		t.Fail("close", "forward close of a cyclic connection: %v %v", rep, err)
		return
	}
	if !soon(8*time.Second, func() bool {
		n := count()
		time.Sleep(50 * time.Millisecond)
		return count() == n
	}) {
		t.Fail("not-stopped", "a connection with a short interval was closed, packets for it still come 8 s later")
	}
}

// s06Packet checks one packet that was produced.
func s06Packet(t *rt.T, b []byte, ip string, byTO map[uint32]*production, owner map[uint32]string) {
	t.Count("packets_produced", 1)
	if len(b) < 20 || plc.LE.Uint16(b) != 2 || plc.LE.Uint16(b[2:]) != 0x8002 || plc.LE.Uint16(b[4:]) != 8 || plc.LE.Uint16(b[14:]) != 0xB1 || int(plc.LE.Uint16(b[16:])) != len(b)-18 {
		t.Fail("packet", "a packet is produced that isn't one: %s", hexs(b))
		return
	}
	id, seq, short := plc.LE.Uint32(b[6:]), plc.LE.Uint32(b[10:]), plc.LE.Uint16(b[18:])
	payload := b[20:]
	x := byTO[id]
	if x == nil || owner[id] != ip {
		t.Fail("foreign", "%s gets a packet for connection %#x, which isn't one of its own", ip, id)
		return
	}
	hi := x.prod.begun.Load()
	v, ok := x.prod.find(payload, hi)
	x.mu.Lock()
	defer x.mu.Unlock()
	now := time.Now()
	if !ok {
		t.Fail("value", "%s: a packet has %s, which is none of the %d values set so far", x.prod.name, hexs(payload), hi)
		return
	}
	if x.n > 0 {
		if seq <= x.seq {
			t.Fail("sequence", "connection %#x: sequence number %d after %d", id, seq, x.seq)
		}
		if d := short - x.short; d == 0 || d > 0x7FFF {
			t.Fail("sequence", "connection %#x: sequence count %d after %d", id, short, x.short)
		}
		if v < x.stamp {
			t.Fail("backwards", "connection %#x: value number %d after number %d", id, v, x.stamp)
		}
	} else {
		x.first = now
	}
	x.n++
	x.seq, x.short, x.stamp, x.last = seq, short, v, now
	t.Eval(fmt.Sprintf("produced %s %v %d %d", x.prod.name, x.rpi, len(byTO), min(x.n, 40)))
}

// consumer is a provider's side that packets are for.
type consumer struct {
	name  string
	p     gologix.CIPEndpoint
	pack  func(n int32) []byte
	check func(last int32) (seen bool) // whether everybody has it
	stop  func()
}

func s06Consume(t *rt.T) {
	r := t.R
	srv := s06Server(t)
	if srv == nil {
		return
	}
	o := newOriginator(t)
	if o == nil {
		return
	}
	c := srv.sessionFrom(t, 0, o.ip)
	if c == nil {
		return
	}
	u, err := net.Dial("udp", "127.0.0.1:2222")
	if err != nil {
		t.Fail("udp", "%v", err)
		return
	}
	t.Cleanup(func() { u.Close() })
	type link struct {
		*sopen
		cons *consumer
		seq  uint32
		n    int32
	}
	var links []*link
	for i := 0; i < 1+r.IntN(4); i++ {
		cons := anyConsumer(t, r)
		t.Cleanup(cons.stop)
		route := s06Route(srv, cons.p)
		conn, rep, err := c.open(cyclic(r, route, 20*time.Second, 500+max(0, len(cons.pack(0))-480)), route)
		if err != nil || !rep.ok() {
			t.Fail("open", "cyclic forward open: %v %v", rep, err)
			return
		}
		links = append(links, &link{sopen: conn, cons: cons, seq: r.Uint32() >> 1})
		t.Count("connections", 1)
	}
	// one that takes nothing
	deaf := &gologix.IOProvider[ioSmall, ioSmall]{In: &ioSmall{}}
	deafRoute := s06Route(srv, deaf)
	dc, rep, err := c.open(cyclic(r, deafRoute, 20*time.Second, 500), deafRoute)
	if err != nil || !rep.ok() {
		t.Fail("open", "cyclic forward open: %v %v", rep, err)
		return
	}
	closedOT := r.Uint32()
	deadline := time.Now().Add(60 * time.Second)
	for step := 30 + r.IntN(50); step > 0 && !t.Failed(); step-- {
		// one or several, back to back
		batch := map[*link]bool{}
		for k := 1 + r.IntN(5); k > 0; k-- {
			l := links[r.IntN(len(links))]
			l.n++
			l.seq++
			u.Write(ioPacket(l.ot, l.seq, l.cons.pack(l.n)))
			t.Count("packets_consumed", 1)
			batch[l] = true
			if r.IntN(4) == 0 { // what must not matter
				b := ioPacket(l.ot, l.seq+1, l.cons.pack(l.n+1000))
				switch r.IntN(5) {
				case 4:
					plc.LE.PutUint32(b[6:], dc.ot)
				case 0:
					plc.LE.PutUint32(b[6:], closedOT)
				case 1:
					plc.LE.PutUint32(b[6:], l.to)
				case 2:
					plc.LE.PutUint16(b[14:], 0x8001)
				case 3:
					b = b[:len(b)-1]
					plc.LE.PutUint16(b[16:], uint16(len(b)-18))
				}
				u.Write(b)
				t.Count("foreign_packets", 1)
			}
		}
		for l := range batch {
			ok := false
			for tries := 0; !ok && time.Now().Before(deadline) && !t.Failed(); tries++ {
				ok = soon(15*time.Millisecond, func() bool { return l.cons.check(l.n) })
				if !ok { // who wasn't waiting for it gets another one
					l.seq++
					u.Write(ioPacket(l.ot, l.seq, l.cons.pack(l.n)))
				}
				if tries > 400 {
					break
				}
			}
			if !ok {
				t.Fail("not-delivered", "%s: value number %d was sent many times and didn't arrive", l.cons.name, l.n)
				return
			}
			t.Count("values_delivered", 1)
			t.Eval(fmt.Sprintf("consumed %s %d %d", l.cons.name, len(links), min(l.n, 40)))
		}
		if r.IntN(10) == 0 { // it has no tags
			l := links[r.IntN(len(links))]
			if !s06NoTags(t, c, l.route) {
				return
			}
		}
		if len(links) > 1 && r.IntN(12) == 0 { // one is closed: what comes for it changes nothing
			i := r.IntN(len(links))
			l := links[i]
			if rep, err := l.close(); err != nil || !rep.ok() {
				t.Fail("close", "forward close: %v %v", rep, err)
				return
			}
			u.Write(ioPacket(l.ot, l.seq+1, l.cons.pack(l.n+5000)))
			t.Count("foreign_packets", 1)
			closedOT = l.ot
			links = append(links[:i:i], links[i+1:]...)
		}
	}
}

// s06NoTags asks an I/O provider for tags it doesn't have.
func s06NoTags(t *rt.T, c *sconn, route []byte) bool {
	r := t.R
	conn, rep, err := c.open(openReq{to: r.Uint32() | 1, serial: uint16(r.Uint32()), vendor: uint16(r.Uint32()), orig: r.Uint32(), size: 500, trigger: 0xA3, otRPI: 1000000, toRPI: 1000000,
		path: append(append([]byte{}, route...), msgRouter...)}, route)
	if err != nil || !rep.ok() {
		t.Fail("open", "forward open of % X: %v %v", route, rep, err)
		return false
	}
	for k := 1 + r.IntN(4); k > 0; k-- {
		n := 1 + r.IntN(3)
		svc, data := byte(0x4C), plc.LE.AppendUint16(nil, uint16(n))
		if r.IntN(2) == 0 {
			svc, data = 0x4D, append([]byte{0xC4, 0, byte(n), 0}, randBytes(r, 4*n)...)
		}
		rep, err := conn.request(svc, tagPath([]string{"In", "Out", "A", "x"}[r.IntN(4)]), data)
		if err != nil {
			t.Fail("tags", "service %#x at an I/O provider: %v", svc, err)
			return false
		}
		if rep.ok() {
			t.Fail("tags", "service %#x of a tag at an I/O provider, which has none, is answered with success and % X", svc, rep.data)
			return false
		}
		t.Count("tag_requests", 1)
	}
	if rep, err := conn.close(); err != nil || !rep.ok() {
		t.Fail("close", "forward close: %v %v", rep, err)
		return false
	}
	return true
}

func anyConsumer(t *rt.T, r *rand.Rand) *consumer {
	n := 0
	if r.IntN(2) == 0 {
		n = 1 + r.IntN(4)
	}
	switch r.IntN(6) {
	case 0:
		return newConsumer(t, r, kSmall(), n)
	case 1:
		return newConsumer(t, r, kMixed(), n)
	case 2:
		return newConsumer(t, r, kNested(), n)
	case 3:
		return newConsumer(t, r, kHuge(), n)
	case 4:
		return newConsumer(t, r, kMax(), n)
	}
	return newConsumer(t, r, kBig(), n)
}

// newConsumer makes a provider with that many subscribers, or one to look into if there are none.
func newConsumer[T comparable](t *rt.T, r *rand.Rand, k ioKind[T], subs int) *consumer {
	c := &consumer{name: k.name, pack: func(n int32) []byte { return packed(k.make(n)) }}
	done := make(chan struct{})
	var wg sync.WaitGroup
	var once sync.Once
	c.stop = func() { once.Do(func() { close(done); wg.Wait() }) }
	var sent atomic.Int32 // the last value that may be seen
	if subs == 0 {
		p := &gologix.IOProvider[ioSmall, T]{In: &ioSmall{}, Out: new(T)}
		if r.IntN(3) == 0 {
			p.In = nil // it has nothing to produce
			t.Count("one_way_providers", 1)
		}
		*p.Out = k.make(0)
		c.p = p
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := int32(0)
				for !t.Failed() {
					select {
					case <-done:
						return
					default:
					}
					hi := sent.Load() // packets may be on their way already, but those are the next ones
					v := p.GetOutputData()
					n, ok := stampOf(k, v, max(hi, sent.Load())+6)
					if !ok || n < last {
						t.Fail("output", "%s: GetOutputData returns %v, after value number %d of %d", k.name, show(v), last, sent.Load())
						return
					}
					last = n
					t.Count("concurrent_reads", 1)
					time.Sleep(200 * time.Microsecond)
				}
			}()
		}
		c.check = func(n int32) bool {
			for x := sent.Load(); x < n && !sent.CompareAndSwap(x, n); x = sent.Load() {
			}
			return p.GetOutputData() == k.make(n)
		}
		return c
	}
	c.name += fmt.Sprintf(" %d subscribers", subs)
	p := &gologix.IOChannelProvider[ioSmall, T]{}
	c.p = p
	late := 0 // so many come when the data already does, and at the same time
	if r.IntN(2) == 0 {
		late = 1 + r.IntN(4)
	}
	got := make([]atomic.Int32, subs+late)
	slow := -1 // this one stops listening some time
	if subs > 1 && r.IntN(2) == 0 {
		slow = r.IntN(subs)
	}
	listen := func(g int, ch <-chan T, quits int32) {
		last := int32(0)
		for {
			select {
			case <-done:
				return
			case v, ok := <-ch:
				if !ok {
					t.Fail("subscriber", "%s: a subscriber's channel is closed", k.name)
					return
				}
				n, ok := stampOf(k, v, sent.Load()+6)
				if !ok || n < last {
					t.Fail("subscriber", "%s: a subscriber gets %v after value number %d of %d", k.name, show(v), last, sent.Load())
					return
				}
				last = n
				got[g].Store(n)
				t.Count("subscriber_values", 1)
				if quits >= 0 && n >= quits {
					got[g].Store(1 << 30)
					return
				}
			}
		}
	}
	for g := 0; g < subs; g++ {
		ch := p.GetOutputDataChannel()
		quits := int32(-1)
		if g == slow {
			quits = int32(3 + r.IntN(10))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			listen(g, ch, quits)
		}()
	}
	wait := time.Duration(r.IntN(40)) * time.Millisecond
	for g := subs; g < subs+late; g++ {
		got[g].Store(1 << 30) // nobody there yet
		wg.Add(1)
		go func() {
			defer wg.Done()
			select {
			case <-done:
				return
			case <-time.After(wait):
			}
			ch := p.GetOutputDataChannel()
			got[g].Store(0)
			t.Count("late_subscribers", 1)
			listen(g, ch, -1)
		}()
	}
	c.check = func(n int32) bool {
		for x := sent.Load(); x < n && !sent.CompareAndSwap(x, n); x = sent.Load() {
		}
		for g := range got {
			if got[g].Load() < n {
				return false
			}
		}
		return true
	}
	return c
}
