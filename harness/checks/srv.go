package checks

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand/v2"
	"net"
	"strings"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

// What the checks of the server share: a real server on the ports it always uses, and a client that speaks the
// protocol byte by byte, so it shares no code with the library.

const srvAddr = "127.0.0.1:44818"

type server struct {
	srv    *gologix.Server
	router *gologix.PathRouter
	done   chan error
}

var srvStarts atomic.Int64

// startServer starts a server with the router's providers. Without keep it ends with the case.
func startServer(t *rt.T, router *gologix.PathRouter, keep bool, prepare func(*gologix.Server)) *server {
	s := &server{srv: gologix.NewServer(router), router: router, done: make(chan error, 1)}
	s.srv.Logger = discardLogger
	if prepare != nil {
		prepare(s.srv)
	}
	go func() { s.done <- s.srv.Serve() }()
	up := soon(20*time.Second, func() bool {
		c, err := net.DialTimeout("tcp", srvAddr, time.Second)
		if err != nil {
			return false
		}
		defer c.Close()
		// it has to be this server that answers.
		c.SetDeadline(time.Now().Add(2 * time.Second))
		c.Write(plc.Frame(0x65, 0x51, 0, 7, []byte{1, 0, 0, 0}))
		b := make([]byte, 28)
		_, err = io.ReadFull(c, b)
		return err == nil && b[0] == 0x65
	})
	if !up {
		select {
		case err := <-s.done:
			t.Count("port_unavailable", 1)
			t.Sample(map[string]any{"serve": fmt.Sprint(err)})
		default:
			t.Fail("server-start", "20 s after Serve was called the server does not answer a session registration")
		}
		return nil
	}
	t.Count("servers_started", 1)
	if !keep {
		t.Cleanup(s.stop)
	}
	return s
}

func (s *server) stop() {
	if s.srv.TCPListener != nil {
		s.srv.TCPListener.Close()
	}
	if s.srv.UDPListener != nil {
		s.srv.UDPListener.Close()
	}
	select {
	case <-s.done:
	case <-time.After(5 * time.Second):
	}
}

// sconn is a client's TCP connection to the server.
type sconn struct {
	c    net.Conn
	r    *bufio.Reader
	sess uint32
	ctx  uint64
}

type sframe struct {
	cmd    uint16
	sess   uint32
	status uint32
	ctx    uint64
	data   []byte
}

var errSilent = errors.New("no reply within 10 s")

func (s *server) dialFrom(local string) (*sconn, error) {
	d := net.Dialer{Timeout: 10 * time.Second}
	if local != "" {
		d.LocalAddr = &net.TCPAddr{IP: net.ParseIP(local)}
	}
	c, err := d.Dial("tcp", srvAddr)
	if err != nil {
		return nil, err
	}
	return &sconn{c: c, r: bufio.NewReaderSize(c, 1<<16)}, nil
}

// session dials and registers a session.
func (s *server) session(t *rt.T, sess uint32) *sconn { return s.sessionFrom(t, sess, "") }

func (s *server) sessionFrom(t *rt.T, sess uint32, local string) *sconn {
	c, err := s.dialFrom(local)
	if err != nil {
		t.Fail("dial", "cannot connect to the server: %v", err)
		return nil
	}
	t.Cleanup(func() { c.c.Close() })
	if err := c.register(sess); err != nil {
		t.Fail("register", "registering a session: %v", err)
		return nil
	}
	return c
}

func (c *sconn) register(sess uint32) error {
	c.sess = sess
	f, err := c.roundtrip(0x65, []byte{1, 0, 0, 0})
	if err != nil {
		return err
	}
	if f.cmd != 0x65 || f.status != 0 || !bytes.Equal(f.data, []byte{1, 0, 0, 0}) {
		return fmt.Errorf("reply is %v", f)
	}
	if f.sess == 0 || sess != 0 && f.sess != sess {
		return fmt.Errorf("asked for handle %#x, got %#x", sess, f.sess)
	}
	c.sess = f.sess
	return nil
}

func (c *sconn) send(cmd uint16, data []byte) (uint64, error) {
	c.ctx++
	ctx := c.ctx<<16 | 0xABC
	c.c.SetWriteDeadline(time.Now().Add(10 * time.Second))
	_, err := c.c.Write(plc.Frame(cmd, c.sess, 0, ctx, data))
	return ctx, err
}

func (c *sconn) recv(d time.Duration) (sframe, error) {
	c.c.SetReadDeadline(time.Now().Add(d))
	hdr := make([]byte, 24)
	if n, err := io.ReadFull(c.r, hdr); err != nil {
		var ne net.Error
		if errors.As(err, &ne) && ne.Timeout() && n == 0 {
			return sframe{}, errSilent
		}
		return sframe{}, fmt.Errorf("after %d bytes of a header: %w", n, err)
	}
	f := sframe{cmd: plc.LE.Uint16(hdr), sess: plc.LE.Uint32(hdr[4:]), status: plc.LE.Uint32(hdr[8:]), ctx: plc.LE.Uint64(hdr[12:])}
	f.data = make([]byte, plc.LE.Uint16(hdr[2:]))
	if n, err := io.ReadFull(c.r, f.data); err != nil {
		return f, fmt.Errorf("header says %d bytes follow, only %d do: %w", len(f.data), n, err)
	}
	return f, nil
}

func (c *sconn) roundtrip(cmd uint16, data []byte) (sframe, error) {
	ctx, err := c.send(cmd, data)
	if err != nil {
		return sframe{}, err
	}
	f, err := c.recv(10 * time.Second)
	if err != nil {
		return f, err
	}
	if f.cmd != cmd {
		return f, fmt.Errorf("the reply to command %#x is one to %#x", cmd, f.cmd)
	}
	if f.ctx != ctx {
		return f, fmt.Errorf("the reply's context is %#x, the request's was %#x", f.ctx, ctx)
	}
	if cmd != 0x65 && f.sess != c.sess {
		return f, fmt.Errorf("the reply's session is %#x, the request's was %#x", f.sess, c.sess)
	}
	return f, nil
}

// reply is the reply to a CIP request.
type sreply struct {
	to     uint32 // connected only
	seq    uint16
	svc    byte
	status byte
	ext    []uint16
	data   []byte
	size   int // bytes in the connected data item
}

func (r sreply) ok() bool { return r.status == 0 }

func (r sreply) String() string {
	return fmt.Sprintf("{to %#x seq %d service %#x status %#x ext %#x data %s}", r.to, r.seq, r.svc, r.status, r.ext, hexs(r.data))
}

func hexs(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("% X… (%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("% X", b)
}

// connectedData is the data of a SendUnitData frame.
func connectedData(ot uint32, seq uint16, svc byte, path, data []byte) []byte {
	b := plc.LE.AppendUint16(nil, seq)
	b = append(b, cipRequest(svc, path, data)...)
	return plc.CPF(plc.Item{ID: 0xA1, Data: plc.LE.AppendUint32(nil, ot)}, plc.Item{ID: 0xB1, Data: b})
}

// unconnectedData is the data of a SendRRData frame.
func unconnectedData(msg []byte) []byte {
	return plc.CPF(plc.Item{ID: 0}, plc.Item{ID: 0xB2, Data: msg})
}

func cipRequest(svc byte, path, data []byte) []byte {
	b := []byte{svc, byte(len(path) / 2)}
	b = append(b, path...)
	return append(b, data...)
}

// wrap makes an unconnected send of a message.
func wrap(msg, route []byte) []byte {
	b := []byte{0x52, 2, 0x20, 6, 0x24, 1, 0x0A, 0xF0}
	b = plc.LE.AppendUint16(b, uint16(len(msg)))
	b = append(b, msg...)
	if len(msg)%2 == 1 {
		b = append(b, 0)
	}
	b = append(b, byte(len(route)/2), 0)
	return append(b, route...)
}

// parseReply takes the reply of a SendUnitData (connected) or SendRRData frame apart.
func parseReply(f sframe) (sreply, error) {
	var rep sreply
	if f.status != 0 {
		return rep, fmt.Errorf("the frame's status is %#x", f.status)
	}
	items, err := plc.ParseCPF(f.data)
	if err != nil {
		return rep, fmt.Errorf("reply is malformed: %v", err)
	}
	if len(items) != 2 {
		return rep, fmt.Errorf("reply has %d items", len(items))
	}
	b := items[1].Data
	switch f.cmd {
	case 0x70:
		if items[0].ID != 0xA1 || len(items[0].Data) != 4 || items[1].ID != 0xB1 || len(b) < 2 {
			return rep, fmt.Errorf("items %#x (%d bytes) and %#x (%d bytes) are not a connected reply", items[0].ID, len(items[0].Data), items[1].ID, len(b))
		}
		rep.to = plc.LE.Uint32(items[0].Data)
		rep.seq = plc.LE.Uint16(b)
		rep.size = len(b)
		b = b[2:]
	case 0x6F:
		if items[0].ID != 0 || len(items[0].Data) != 0 || items[1].ID != 0xB2 {
			return rep, fmt.Errorf("items %#x (%d bytes) and %#x are not an unconnected reply", items[0].ID, len(items[0].Data), items[1].ID)
		}
	default:
		return rep, fmt.Errorf("command %#x has no CIP reply", f.cmd)
	}
	if len(b) < 4 {
		return rep, fmt.Errorf("CIP reply of %d bytes", len(b))
	}
	rep.svc, rep.status = b[0], b[2]
	n := int(b[3]) * 2
	if b[1] != 0 || len(b) < 4+n {
		return rep, fmt.Errorf("CIP reply header % X (of %d bytes) is wrong", b[:4], len(b))
	}
	for i := 0; i < n; i += 2 {
		rep.ext = append(rep.ext, plc.LE.Uint16(b[4+i:]))
	}
	rep.data = b[4+n:]
	return rep, nil
}

// direct sends an unconnected message and returns its reply.
func (c *sconn) direct(msg []byte) (sreply, error) {
	f, err := c.roundtrip(0x6F, unconnectedData(msg))
	if err != nil {
		return sreply{}, err
	}
	rep, err := parseReply(f)
	if err != nil {
		return rep, err
	}
	want := msg[0]
	if want == 0x52 {
		want = msg[10]
	}
	if rep.svc != want|0x80 {
		return rep, fmt.Errorf("the reply to service %#x says it is one to %#x", want, rep.svc)
	}
	return rep, nil
}

// sclass3 is a connection the server opened.
type sopen struct {
	c        *sconn
	ot, to   uint32
	serial   uint16
	vendor   uint16
	orig     uint32
	size     int
	seq      uint16
	route    []byte
	cyclic   bool
	interval time.Duration
}

type openReq struct {
	large        bool
	ot, to       uint32
	serial       uint16
	vendor       uint16
	orig         uint32
	size         int    // of what goes to the originator
	otSize       int    // of what comes from it, if that's another
	flags        uint16 // bits of the connection parameters that aren't the size
	trigger      byte
	otRPI, toRPI uint32
	path         []byte
}

func (o openReq) bytes() []byte {
	svc := byte(0x54)
	if o.large {
		svc = 0x5B
	}
	b := []byte{svc, 2, 0x20, 6, 0x24, 1, 0x07, 0xE9}
	b = plc.LE.AppendUint32(b, o.ot)
	b = plc.LE.AppendUint32(b, o.to)
	b = plc.LE.AppendUint16(b, o.serial)
	b = plc.LE.AppendUint16(b, o.vendor)
	b = plc.LE.AppendUint32(b, o.orig)
	b = plc.LE.AppendUint32(b, 3)
	flags := o.flags
	if flags == 0 {
		flags = 0x4200
	}
	for i, rpi := range []uint32{o.otRPI, o.toRPI} {
		size := o.size
		if i == 0 && o.otSize != 0 {
			size = o.otSize
		}
		b = plc.LE.AppendUint32(b, rpi)
		if o.large {
			b = plc.LE.AppendUint32(b, uint32(flags)<<16|uint32(size&0xFFFF))
		} else {
			b = plc.LE.AppendUint16(b, flags|uint16(size&0x1FF))
		}
	}
	b = append(b, o.trigger, byte(len(o.path)/2))
	return append(b, o.path...)
}

// classPath is what a connection's path ends with when it is for explicit messages.
var msgRouter = []byte{0x20, 0x02, 0x24, 0x01}

// open does a forward open.
func (c *sconn) open(o openReq, route []byte) (*sopen, sreply, error) {
	rep, err := c.direct(o.bytes())
	if err != nil || !rep.ok() {
		return nil, rep, err
	}
	s, err := opened(c, o, route, rep)
	return s, rep, err
}

func opened(c *sconn, o openReq, route []byte, rep sreply) (*sopen, error) {
	d := rep.data
	if len(d) != 26 {
		return nil, fmt.Errorf("forward open reply has %d bytes of data: % X", len(d), d)
	}
	s := &sopen{c: c, ot: plc.LE.Uint32(d), to: plc.LE.Uint32(d[4:]), serial: o.serial, vendor: o.vendor, orig: o.orig, size: o.size, route: route, cyclic: o.trigger == 1}
	if o.to != 0 && s.to != o.to {
		return s, fmt.Errorf("forward open asked for target to originator id %#x, the reply says %#x", o.to, s.to)
	}
	if plc.LE.Uint16(d[8:]) != o.serial || plc.LE.Uint16(d[10:]) != o.vendor || plc.LE.Uint32(d[12:]) != o.orig {
		return s, fmt.Errorf("forward open of serial %#x vendor %#x originator %#x is answered for % X", o.serial, o.vendor, o.orig, d[8:16])
	}
	if plc.LE.Uint32(d[16:]) != o.otRPI || plc.LE.Uint32(d[20:]) != o.toRPI {
		return s, fmt.Errorf("forward open asked for intervals %d and %d, the reply says %d and %d", o.otRPI, o.toRPI, plc.LE.Uint32(d[16:]), plc.LE.Uint32(d[20:]))
	}
	if s.ot == 0 {
		return s, fmt.Errorf("forward open reply has originator to target id 0")
	}
	return s, nil
}

// class3 opens a connection for explicit messages, failing the case if that doesn't work.
func (c *sconn) class3(t *rt.T, r *rand.Rand, route []byte, size int) *sopen {
	o := openReq{large: size > 511 || r.IntN(2) == 0, ot: 0, to: r.Uint32()%0xFFFFFFF + 1, serial: uint16(r.Uint32()), vendor: uint16(r.Uint32()), orig: r.Uint32(), size: size,
		trigger: 0xA3, otRPI: 2000000, toRPI: 2000000, path: append(append([]byte{}, route...), msgRouter...)}
	if r.IntN(3) == 0 { // the sizes of the two directions are independent, and so are fixed sizes and priorities
		o.otSize = size + r.IntN(65536-size)
		if !o.large {
			o.otSize = size + r.IntN(512-size)
		}
		o.flags = 0x4000 | uint16(r.IntN(2))<<9 | uint16(r.IntN(4))<<10
	}
	s, rep, err := c.open(o, route)
	if err != nil || !rep.ok() {
		t.Fail("open", "forward open on route % X: %v %v", route, rep, err)
		return nil
	}
	s.seq = uint16(r.Uint32())
	if r.IntN(3) == 0 { // it will come past 0
		s.seq = 65535 - uint16(r.IntN(20))
	}
	return s
}

func closeReq(serial, vendor uint16, orig uint32, path []byte) []byte {
	b := []byte{0x4E, 2, 0x20, 6, 0x24, 1, 0x07, 0xE9}
	b = plc.LE.AppendUint16(b, serial)
	b = plc.LE.AppendUint16(b, vendor)
	b = plc.LE.AppendUint32(b, orig)
	b = append(b, byte(len(path)/2), 0)
	return append(b, path...)
}

// close does a forward close.
func (s *sopen) close() (sreply, error) {
	return s.c.direct(closeReq(s.serial, s.vendor, s.orig, append(append([]byte{}, s.route...), msgRouter...)))
}

// request does a request over the connection and checks that the reply is the one to it.
func (s *sopen) request(svc byte, path, data []byte) (sreply, error) {
	s.seq++
	f, err := s.c.roundtrip(0x70, connectedData(s.ot, s.seq, svc, path, data))
	if err != nil {
		return sreply{}, err
	}
	rep, err := parseReply(f)
	if err != nil {
		return rep, err
	}
	if rep.to != s.to {
		return rep, fmt.Errorf("the reply is for connection %#x, not %#x", rep.to, s.to)
	}
	if rep.seq != s.seq {
		return rep, fmt.Errorf("the reply's sequence count is %d, the request's was %d", rep.seq, s.seq)
	}
	if rep.svc != svc|0x80 {
		return rep, fmt.Errorf("the reply to service %#x says it is one to %#x", svc, rep.svc)
	}
	return rep, nil
}

// tagPath encodes a tag's name. Without idx it has no index at the end.
func tagPath(name string, idx ...int) []byte {
	var b []byte
	for _, part := range strings.Split(name, ".") {
		var index string
		if i := strings.IndexByte(part, '['); i >= 0 && !strings.HasPrefix(part[i:], "[-") {
			part, index = part[:i], strings.TrimSuffix(part[i+1:], "]")
		}
		b = append(b, 0x91, byte(len(part)))
		b = append(b, part...)
		if len(part)%2 == 1 {
			b = append(b, 0)
		}
		if index != "" {
			for _, s := range strings.Split(index, ",") {
				n := 0
				fmt.Sscan(s, &n)
				b = appendIndex(b, n)
			}
		}
	}
	for _, n := range idx {
		b = appendIndex(b, n)
	}
	return b
}

func appendIndex(b []byte, n int) []byte {
	switch {
	case n < 256:
		return append(b, 0x28, byte(n))
	case n < 65536:
		return append(b, 0x29, 0, byte(n), byte(n>>8))
	}
	return plc.LE.AppendUint32(append(b, 0x2A, 0), uint32(n))
}

// freeRoute makes a route that is not the one the attribute bridge uses.
func freeRoute(r *rand.Rand, used map[string]bool) []byte {
	for {
		p := []byte{byte(2 + r.IntN(13)), byte(r.IntN(256))}
		if r.IntN(4) == 0 {
			hops := 1 + r.IntN(3)
			if r.IntN(4) == 0 {
				hops = 4 + r.IntN(60)
			}
			for ; hops > 0; hops-- {
				p = append(p, byte(1+r.IntN(14)), byte(r.IntN(256)))
			}
		}
		// one being the start of another would make a connection's path ambiguous.
		clash := false
		for u := range used {
			if strings.HasPrefix(u, string(p)) || strings.HasPrefix(string(p), u) {
				clash = true
			}
		}
		if !clash {
			used[string(p)] = true
			return p
		}
	}
}

// furtherRoute makes a route that begins with another one, which has a provider of its own.
func furtherRoute(r *rand.Rand, route []byte, used map[string]bool) []byte {
	for {
		p := append([]byte{}, route...)
		for hops := 1 + r.IntN(2); hops > 0; hops-- {
			p = append(p, byte(1+r.IntN(14)), byte(r.IntN(256)))
		}
		if !used[string(p)] {
			used[string(p)] = true
			return p
		}
	}
}

// serviceData makes the data of a multiple service request (without what comes before it).
func multiData(reqs ...[]byte) []byte {
	b := plc.LE.AppendUint16(nil, uint16(len(reqs)))
	pos := 2 + 2*len(reqs)
	for _, q := range reqs {
		b = plc.LE.AppendUint16(b, uint16(pos))
		pos += len(q)
	}
	for _, q := range reqs {
		b = append(b, q...)
	}
	return b
}

// multiReplies takes the data of a multiple service reply apart.
func multiReplies(d []byte, n int) ([]sreply, error) {
	if len(d) < 2+2*n || int(plc.LE.Uint16(d)) != n {
		return nil, fmt.Errorf("multiple service reply to %d services is % X", n, d[:min(len(d), 30)])
	}
	out := make([]sreply, n)
	pos := make([]int, n+1)
	pos[n] = len(d)
	for i := 0; i < n; i++ {
		pos[i] = int(plc.LE.Uint16(d[2+2*i:]))
	}
	if pos[0] != 2+2*n {
		return nil, fmt.Errorf("the first of %d replies is at %d", n, pos[0])
	}
	for i := 0; i < n; i++ {
		if pos[i+1] < pos[i]+4 || pos[i+1] > len(d) {
			return nil, fmt.Errorf("reply %d of %d is from %d to %d of %d bytes", i, n, pos[i], pos[i+1], len(d))
		}
		b := d[pos[i]:pos[i+1]]
		x := int(b[3]) * 2
		if b[1] != 0 || len(b) < 4+x {
			return nil, fmt.Errorf("reply %d of %d has header % X and %d bytes", i, n, b[:4], len(b))
		}
		out[i] = sreply{svc: b[0], status: b[2], data: b[4+x:]}
	}
	return out, nil
}

func attrPath(class, inst, attr int) []byte {
	b := []byte{0x20, byte(class)}
	if inst < 256 {
		b = append(b, 0x24, byte(inst))
	} else {
		b = append(b, 0x25, 0, byte(inst), byte(inst>>8))
	}
	if attr > 0 {
		b = append(b, 0x30, byte(attr))
	}
	return b
}

var discardLogger = slog.New(slog.NewTextHandler(io.Discard, &slog.HandlerOptions{Level: slog.LevelDebug}))
