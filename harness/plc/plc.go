package plc

import (
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Object classes.
const (
	ClassProgram  = 0x68
	ClassSymbol   = 0x6B
	ClassTemplate = 0x6C
	ClassBuffer   = 0xB2
)

// Program is a program scope.
type Program struct {
	ID   uint32
	Name string
}

// Req is one received service request, as observed on the wire.
type Req struct {
	N         int
	TCP       int // which TCP connection
	Cmd       uint16
	Session   uint32
	Ctx       uint64
	Connected bool
	ConnID    uint32
	Seq       uint16
	ItemLen   int // bytes of the data item (including the sequence count)
	Service   byte
	Path      []Seg
	PathRaw   []byte
	Data      []byte
	Inner     []*Req // services of a multiple service packet
	In        bool   // is itself a service of a multiple service packet
	Time      time.Time
}

// Reply is what the model answers before it is framed.
type Reply struct {
	Status byte
	Ext    []uint16
	Data   []byte
	Keep   bool // send the data of the ordinary reply
}

// Action is what a hook may do with a request.
type Action struct {
	Reply     *Reply                    // answer this instead of executing
	Raw       []byte                    // send these bytes instead of a framed reply
	Transform func(frame []byte) []byte // change the reply frame (nil result: send nothing)
	Delay     time.Duration             // before answering
	Close     bool                      // close the TCP connection instead of answering
	CloseN    int                       // after sending this many bytes of the reply (with Close)
	EIPStatus uint32
	CtxXor    uint64
}

// Conn is an open CIP connection.
type Conn struct {
	OT, TO   uint32
	Serial   uint16
	Vendor   uint16
	Orig     uint32
	Size     int
	TOSize   int
	OTRPI    uint32 // microseconds
	TORPI    uint32
	Large    bool
	TCP      int
	Path     []Seg
	lastSeq  int
	lastResp []byte
	Requests int
	Seqs     []uint16
}

// PLC is the controller model.
type PLC struct {
	mu       sync.Mutex
	tags     map[string]*Tag
	Programs []*Program
	UDTs     map[uint16]*UDT
	nextInst uint32

	ln    net.Listener
	Port  uint
	wg    sync.WaitGroup
	socks map[int]net.Conn
	nsock int

	sessions map[uint32]int
	nextSess uint32
	conns    map[uint32]*Conn
	nextConn uint32

	// behaviour
	MaxConnSize   int // larger forward opens are refused (0: none)
	RefuseLarge   bool
	FragBytes     func(total, off int) int   // how many data bytes to put into a read reply (0: no limit but the connection)
	OnReq         func(r *Req) *Action       // called for every service request (outer and inner)
	OnCmd         func(r *Req) *Action       // called for every other EIP command
	Generic       func(r *Req) (Reply, bool) // other objects
	Attrs         map[string][]byte          // "class/inst/attr" -> value
	PageLimit     int                        // entries per symbol page (0: by size)
	Identity      []byte                     // ListIdentity item data
	Services      []byte                     // ListServices item data
	KeepLog       bool
	OnUnregister  func()
	NoEnforceSize bool

	Log      []*Req
	nreq     int
	Wire     []string // structural violations of received frames
	MaxItem  int      // largest connected data item seen
	MaxReply int      // largest connected reply item produced
	TooBig   []string // requests/replies beyond the negotiated size
	SeqDup   int      // repeated sequence counts (answered from the cache, like a real controller)

	Opened, Closed, Refused int
	TCPOpen                 atomic.Int64
	TCPTotal                atomic.Int64 // TCP connections accepted so far
	Deny                    atomic.Bool  // close every new TCP connection at once
	Pipelined               atomic.Int64 // requests received while another one of the same TCP connection was unanswered
	buffers                 map[uint32]*Buffer
	BufDeleted              int
	BufCreated              int
	nextBuf                 uint32
	freeBuf                 []uint32
}

// New starts a controller on a loopback port.
func New() *PLC {
	p, err := NewAt("127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	return p
}

// NewAt is a controller at a given address.
func NewAt(addr string) (*PLC, error) {
	p := &PLC{tags: map[string]*Tag{}, UDTs: map[uint16]*UDT{}, sessions: map[uint32]int{}, conns: map[uint32]*Conn{},
		socks: map[int]net.Conn{}, nextSess: 0x9A001000, nextConn: 0xC0070000, KeepLog: true, Attrs: map[string][]byte{}, buffers: map[uint32]*Buffer{}, nextBuf: 1}
	p.Attrs["1/1/4"] = []byte{20, 1} // firmware major 20: symbolic addressing
	ln, err := net.Listen("tcp", addr)
	if err != nil {
		return nil, err
	}
	p.ln = ln
	p.Port = uint(ln.Addr().(*net.TCPAddr).Port)
	p.wg.Add(1)
	go p.accept()
	return p, nil
}

// SetFirmware changes the major revision.
func (p *PLC) SetFirmware(major byte) {
	p.mu.Lock()
	p.Attrs["1/1/4"] = []byte{major, 1}
	p.mu.Unlock()
}

// Close stops the controller and all connections.
func (p *PLC) Close() {
	p.ln.Close()
	p.mu.Lock()
	for _, s := range p.socks {
		s.Close()
	}
	p.mu.Unlock()
	p.wg.Wait()
}

// StopListening refuses new TCP connections.
func (p *PLC) StopListening() { p.ln.Close() }

// DropAll closes all TCP connections.
func (p *PLC) DropAll() {
	p.mu.Lock()
	for _, s := range p.socks {
		s.Close()
	}
	p.mu.Unlock()
}

// OpenConns lists open CIP connections.
func (p *PLC) OpenConns() []Conn {
	p.mu.Lock()
	defer p.mu.Unlock()
	cs := []Conn{}
	for _, c := range p.conns {
		cs = append(cs, *c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].OT < cs[j].OT })
	return cs
}

// Requests returns the log since index n.
func (p *PLC) Requests(n int) []*Req {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n > len(p.Log) {
		return nil
	}
	return append([]*Req(nil), p.Log[n:]...)
}

// LogLen is the current length of the log.
func (p *PLC) LogLen() int { p.mu.Lock(); defer p.mu.Unlock(); return len(p.Log) }

// NReq is the number of requests so far.
func (p *PLC) NReq() int { p.mu.Lock(); defer p.mu.Unlock(); return p.nreq }

// WireErrors returns structural violations so far.
func (p *PLC) WireErrors() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.Wire...)
}

// SizeErrors returns size violations so far.
func (p *PLC) SizeErrors() []string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return append([]string(nil), p.TooBig...)
}

// Lock gives a check exclusive access to the public counters and behaviour fields.
func (p *PLC) Lock()   { p.mu.Lock() }
func (p *PLC) Unlock() { p.mu.Unlock() }

func (p *PLC) bad(format string, a ...any) {
	if len(p.Wire) < 200 {
		p.Wire = append(p.Wire, fmt.Sprintf(format, a...))
	}
}

func (p *PLC) accept() {
	defer p.wg.Done()
	for {
		c, err := p.ln.Accept()
		if err != nil {
			return
		}
		if p.Deny.Load() {
			c.Close()
			continue
		}
		p.TCPTotal.Add(1)
		p.mu.Lock()
		id := p.nsock
		p.nsock++
		p.socks[id] = c
		p.mu.Unlock()
		p.TCPOpen.Add(1)
		p.wg.Add(1)
		go p.serve(id, c)
	}
}

func (p *PLC) serve(id int, c net.Conn) {
	defer p.wg.Done()
	defer func() {
		c.Close()
		p.mu.Lock()
		delete(p.socks, id)
		for s, t := range p.sessions {
			if t == id {
				delete(p.sessions, s)
			}
		}
		for k, cn := range p.conns {
			if cn.TCP == id {
				delete(p.conns, k)
			}
		}
		p.mu.Unlock()
		p.TCPOpen.Add(-1)
	}()
	// frames are received while others are being answered, so that a client with two requests outstanding is noticed
	type msg struct{ hdr, body []byte }
	in := make(chan msg, 64)
	quit := make(chan struct{})
	defer close(quit)
	var outstanding atomic.Int64
	go func() {
		defer close(in)
		for {
			hdr := make([]byte, 24)
			if n, err := io.ReadFull(c, hdr); err != nil {
				if n > 0 && err == io.ErrUnexpectedEOF {
					p.mu.Lock()
					p.bad("TCP stream ended %d bytes into a header", n)
					p.mu.Unlock()
				}
				return
			}
			ln := int(LE.Uint16(hdr[2:]))
			body := make([]byte, ln)
			if n, err := io.ReadFull(c, body); err != nil {
				p.mu.Lock()
				p.bad("TCP stream ended %d bytes into a payload of %d (length field says more than was sent)", n, ln)
				p.mu.Unlock()
				return
			}
			if outstanding.Add(1) > 1 && LE.Uint16(hdr) != CmdUnregister {
				p.Pipelined.Add(1)
			}
			select {
			case in <- msg{hdr, body}:
			case <-quit:
				return
			}
		}
	}()
	for m := range in {
		if !p.frame(id, c, m.hdr, m.body, func() { outstanding.Add(-1) }) {
			return
		}
	}
}

// frame handles one frame; false closes the TCP connection.
func (p *PLC) frame(id int, c net.Conn, hdr, body []byte, answered func()) bool {
	p.mu.Lock()
	cmd := LE.Uint16(hdr)
	sess := LE.Uint32(hdr[4:])
	r := &Req{N: p.nreq, TCP: id, Cmd: cmd, Session: sess, Ctx: LE.Uint64(hdr[12:]), Time: time.Now()}
	p.nreq++
	if LE.Uint32(hdr[8:]) != 0 {
		p.bad("request status field %#x not 0", LE.Uint32(hdr[8:]))
	}
	if LE.Uint32(hdr[20:]) != 0 {
		p.bad("request options field %#x not 0", LE.Uint32(hdr[20:]))
	}
	if p.KeepLog && len(p.Log) < 200000 {
		p.Log = append(p.Log, r)
	}
	var out []byte
	var act *Action
	switch cmd {
	case CmdRegister:
		if len(body) != 4 || LE.Uint16(body) != 1 || LE.Uint16(body[2:]) != 0 {
			p.bad("bad RegisterSession data %x", body)
		}
		if sess != 0 {
			// a client reconnecting may carry its old handle; the encapsulation rules want 0
			p.bad("RegisterSession with session handle %#x", sess)
		}
		if act = p.hookCmd(r); act == nil || (act.EIPStatus == 0 && !act.Close) {
			p.nextSess += 0x11
			p.sessions[p.nextSess] = id
			sess = p.nextSess
		}
		out = Frame(cmd, sess, 0, r.Ctx, body)
	case CmdUnregister:
		if p.OnUnregister != nil {
			p.OnUnregister()
		}
		p.mu.Unlock()
		return false
	case CmdListIdentity, CmdListServices:
		if len(body) != 0 {
			p.bad("list command %#x with %d bytes of data", cmd, len(body))
		}
		act = p.hookCmd(r)
		d := p.Identity
		idn := uint16(0x0C)
		if cmd == CmdListServices {
			d = p.Services
			idn = 0x100
		}
		b := []byte{1, 0}
		b = LE.AppendUint16(b, idn)
		b = LE.AppendUint16(b, uint16(len(d)))
		b = append(b, d...)
		out = Frame(cmd, sess, 0, r.Ctx, b)
	case CmdRRData, CmdUnitData:
		if _, ok := p.sessions[sess]; !ok || p.sessions[sess] != id {
			p.bad("command %#x with unregistered session handle %#x", cmd, sess)
			out = Frame(cmd, sess, 0x64, r.Ctx, nil)
			break
		}
		items, err := ParseCPF(body)
		if err != nil {
			p.bad("command %#x: %v", cmd, err)
			out = Frame(cmd, sess, 0x03, r.Ctx, nil)
			break
		}
		if len(items) != 2 {
			p.bad("command %#x with %d items", cmd, len(items))
			out = Frame(cmd, sess, 0x03, r.Ctx, nil)
			break
		}
		if cmd == CmdRRData {
			if items[0].ID != 0 || len(items[0].Data) != 0 || items[1].ID != 0xB2 {
				p.bad("SendRRData items %#x(%d) %#x", items[0].ID, len(items[0].Data), items[1].ID)
			}
			r.ItemLen = len(items[1].Data)
			rep, a := p.service(r, items[1].Data, 1<<16, nil)
			act = a
			out = Frame(cmd, sess, 0, r.Ctx, CPF(Item{0, nil}, Item{0xB2, rep}))
		} else {
			if items[0].ID != 0xA1 || len(items[0].Data) != 4 || items[1].ID != 0xB1 || len(items[1].Data) < 4 {
				p.bad("SendUnitData items %#x(%d) %#x(%d)", items[0].ID, len(items[0].Data), items[1].ID, len(items[1].Data))
				out = Frame(cmd, sess, 0x03, r.Ctx, nil)
				break
			}
			r.Connected = true
			r.ConnID = LE.Uint32(items[0].Data)
			r.Seq = LE.Uint16(items[1].Data)
			r.ItemLen = len(items[1].Data)
			cn := p.conns[r.ConnID]
			if cn == nil {
				p.bad("SendUnitData on connection id %#x that is not open", r.ConnID)
				out = Frame(cmd, sess, 0x64, r.Ctx, nil)
				break
			}
			if cn.TCP != id {
				p.bad("SendUnitData on connection id %#x of another TCP connection", r.ConnID)
			}
			cn.Requests++
			if len(cn.Seqs) < 100000 {
				cn.Seqs = append(cn.Seqs, r.Seq)
			}
			if r.ItemLen > p.MaxItem {
				p.MaxItem = r.ItemLen
			}
			if r.ItemLen > cn.Size {
				if len(p.TooBig) < 100 {
					p.TooBig = append(p.TooBig, fmt.Sprintf("request: data item of %d bytes (service %#x) on a connection of size %d", r.ItemLen, items[1].Data[2], cn.Size))
				}
			}
			var rep []byte
			if cn.lastSeq == int(r.Seq) {
				p.SeqDup++
				rep = cn.lastResp
			} else {
				max := min(cn.TOSize-2, 65000) // a frame has to hold it too
				if p.NoEnforceSize {
					max = 65000
				}
				rep, act = p.service(r, items[1].Data[2:], max, cn)
				cn.lastSeq = int(r.Seq)
				cn.lastResp = rep
			}
			if len(rep)+2 > p.MaxReply {
				p.MaxReply = len(rep) + 2
			}
			d := LE.AppendUint16(nil, r.Seq)
			d = append(d, rep...)
			out = Frame(cmd, sess, 0, r.Ctx, CPF(Item{0xA1, LE.AppendUint32(nil, cn.TO)}, Item{0xB1, d}))
		}
	case CmdNOP:
		p.mu.Unlock()
		answered()
		return true
	default:
		p.bad("unknown EIP command %#x", cmd)
		out = Frame(cmd, sess, 1, r.Ctx, nil)
	}
	p.mu.Unlock()
	if act != nil {
		if act.EIPStatus != 0 {
			LE.PutUint32(out[8:], act.EIPStatus)
		}
		if act.CtxXor != 0 {
			LE.PutUint64(out[12:], LE.Uint64(out[12:])^act.CtxXor)
		}
		if act.Raw != nil {
			out = act.Raw
		}
		if act.Transform != nil {
			out = act.Transform(out)
		}
		if act.Delay > 0 {
			time.Sleep(act.Delay)
		}
		if act.Close {
			if act.CloseN > 0 && act.CloseN <= len(out) {
				c.Write(out[:act.CloseN])
			}
			return false
		}
	}
	answered()
	if len(out) > 0 {
		if _, err := c.Write(out); err != nil {
			return false
		}
	}
	return true
}

func (p *PLC) hookCmd(r *Req) *Action {
	if p.OnCmd == nil {
		return nil
	}
	h := p.OnCmd
	p.mu.Unlock()
	defer p.mu.Lock()
	return h(r)
}

func (p *PLC) hook(r *Req) *Action {
	if p.OnReq == nil {
		return nil
	}
	h := p.OnReq
	p.mu.Unlock()
	defer p.mu.Lock()
	return h(r)
}

// service parses and executes a message router request and returns the reply bytes.
func (p *PLC) service(r *Req, b []byte, max int, cn *Conn) ([]byte, *Action) {
	if len(b) < 2 {
		p.bad("message router request of %d bytes", len(b))
		return []byte{0x80, 0, 0x13, 0}, nil
	}
	r.Service = b[0]
	pl := int(b[1]) * 2
	if 2+pl > len(b) {
		p.bad("service %#x: path of %d bytes beyond request of %d", b[0], pl, len(b))
		return []byte{b[0] | 0x80, 0, 0x13, 0}, nil
	}
	r.PathRaw = append([]byte(nil), b[2:2+pl]...)
	r.Data = append([]byte(nil), b[2+pl:]...)
	var err error
	r.Path, err = ParsePath(r.PathRaw)
	if err != nil {
		p.bad("service %#x: path %x: %v", b[0], r.PathRaw, err)
		return []byte{b[0] | 0x80, 0, 0x04, 0}, nil
	}
	act := p.hook(r)
	var rep Reply
	if act != nil && act.Reply != nil {
		rep = *act.Reply
		if rep.Keep {
			rep.Data = p.exec(r, max-4-2*len(rep.Ext), cn).Data
		}
	} else {
		rep = p.exec(r, max-4, cn)
	}
	out := []byte{r.Service | 0x80, 0, rep.Status, byte(len(rep.Ext))}
	for _, e := range rep.Ext {
		out = LE.AppendUint16(out, e)
	}
	out = append(out, rep.Data...)
	return out, act
}

func classInst(segs []Seg) (int, int, int) {
	c, i, a := -1, -1, -1
	for _, s := range segs {
		switch s.Kind {
		case 'C':
			c = int(s.Val)
		case 'I':
			i = int(s.Val)
		case 'A':
			a = int(s.Val)
		case 'S', 'E', 'P':
			return -1, -1, -1
		}
	}
	return c, i, a
}

func (p *PLC) exec(r *Req, max int, cn *Conn) Reply {
	c, inst, attr := classInst(r.Path)
	if c == 6 && inst == 1 {
		switch r.Service {
		case 0x54, 0x5B:
			return p.forwardOpen(r)
		case 0x4E:
			return p.forwardClose(r)
		}
	}
	if !r.Connected && r.Service != 0x0E && r.Service != 0x01 {
		if p.Generic != nil {
			if rep, ok := p.Generic(r); ok {
				return rep
			}
		}
	}
	if c == 2 && inst == 1 && r.Service == 0x0A {
		return p.multi(r, max, cn)
	}
	if c == ClassBuffer {
		return p.bufferService(r, max)
	}
	if r.Service == 0x0E && c >= 0 && attr >= 0 {
		if len(r.Data) != 0 {
			p.bad("GetAttributeSingle with %d bytes of data", len(r.Data))
		}
		if v, ok := p.Attrs[fmt.Sprintf("%d/%d/%d", c, inst, attr)]; ok {
			return Reply{Data: append([]byte(nil), v...)}
		}
		if p.Generic == nil {
			return Reply{Status: 0x14}
		}
	}
	if p.Generic != nil {
		if rep, ok := p.Generic(r); ok {
			return rep
		}
	}
	if c == ClassTemplate {
		return p.template(r, inst, max)
	}
	if r.Service == 0x55 {
		return p.instanceList(r, max)
	}
	switch r.Service {
	case 0x4C, 0x52:
		return p.read(r, max)
	case 0x4D:
		return p.write(r)
	case 0x03:
		if rep := p.attrList(r, c, inst); len(rep.Data) <= max {
			return rep
		}
		return Reply{Status: 0x11}
	}
	return Reply{Status: 0x08}
}

func (p *PLC) attrList(r *Req, c, inst int) Reply {
	if len(r.Data) < 2 {
		p.bad("GetAttributeList with %d bytes", len(r.Data))
		return Reply{Status: 0x13}
	}
	n := int(LE.Uint16(r.Data))
	if len(r.Data) != 2+2*n {
		p.bad("GetAttributeList count %d with %d bytes", n, len(r.Data))
		return Reply{Status: 0x13}
	}
	out := LE.AppendUint16(nil, uint16(n))
	for i := 0; i < n; i++ {
		a := LE.Uint16(r.Data[2+2*i:])
		out = LE.AppendUint16(out, a)
		v, ok := p.Attrs[fmt.Sprintf("%d/%d/%d", c, inst, a)]
		if !ok {
			out = LE.AppendUint16(out, 0x14)
			continue
		}
		out = LE.AppendUint16(out, 0)
		out = append(out, v...)
	}
	return Reply{Data: out}
}

func (p *PLC) forwardOpen(r *Req) Reply {
	large := r.Service == 0x5B
	d := r.Data
	psz := 2
	if large {
		psz = 4
	}
	fixed := 2 + 4 + 4 + 2 + 2 + 4 + 4 + 4 + psz + 4 + psz + 1 + 1
	if len(d) < fixed {
		p.bad("forward open of %d bytes", len(d))
		return Reply{Status: 0x13}
	}
	cn := &Conn{Large: large, TCP: r.TCP, lastSeq: -1}
	cn.TO = LE.Uint32(d[6:])
	cn.Serial = LE.Uint16(d[10:])
	cn.Vendor = LE.Uint16(d[12:])
	cn.Orig = LE.Uint32(d[14:])
	if d[18] > 7 {
		p.bad("forward open timeout multiplier %d", d[18])
	}
	o := 22
	otrpi := LE.Uint32(d[o:])
	o += 4
	if large {
		v := LE.Uint32(d[o:])
		cn.Size = int(v & 0xFFFF)
		o += 4
		torpi := LE.Uint32(d[o:])
		o += 4
		v2 := LE.Uint32(d[o:])
		cn.TOSize = int(v2 & 0xFFFF)
		o += 4
		if v>>29&3 != 2 || v2>>29&3 != 2 {
			p.bad("forward open connection type %d/%d is not point to point", v>>29&3, v2>>29&3)
		}
		cn.OTRPI, cn.TORPI = otrpi, torpi
		if otrpi == 0 || torpi == 0 {
			p.bad("forward open with RPI 0")
		}
	} else {
		v := LE.Uint16(d[o:])
		cn.Size = int(v & 0x1FF)
		o += 2
		torpi := LE.Uint32(d[o:])
		o += 4
		v2 := LE.Uint16(d[o:])
		cn.TOSize = int(v2 & 0x1FF)
		o += 2
		if v>>13&3 != 2 || v2>>13&3 != 2 {
			p.bad("forward open connection type %d/%d is not point to point", v>>13&3, v2>>13&3)
		}
		cn.OTRPI, cn.TORPI = otrpi, torpi
		if otrpi == 0 || torpi == 0 {
			p.bad("forward open with RPI 0")
		}
	}
	if d[o] != 0xA3 {
		p.bad("forward open transport trigger %#x", d[o])
	}
	pl := int(d[o+1]) * 2
	path := d[o+2:]
	if pl != len(path) {
		p.bad("forward open path size %d but %d bytes follow", pl, len(path))
		return Reply{Status: 0x01, Ext: []uint16{0x0315}}
	}
	segs, err := ParsePath(path)
	if err != nil {
		p.bad("forward open path %x: %v", path, err)
		return Reply{Status: 0x01, Ext: []uint16{0x0315}}
	}
	if len(segs) < 2 || segs[len(segs)-2].Kind != 'C' || segs[len(segs)-2].Val != 2 || segs[len(segs)-1].Kind != 'I' || segs[len(segs)-1].Val != 1 {
		p.bad("forward open path %s does not end in the message router", PathString(segs))
	}
	cn.Path = segs
	if large && p.RefuseLarge {
		p.Refused++
		return Reply{Status: 0x08}
	}
	if p.MaxConnSize > 0 && cn.Size > p.MaxConnSize {
		p.Refused++
		e := LE.AppendUint16(nil, cn.Serial)
		e = LE.AppendUint16(e, cn.Vendor)
		e = LE.AppendUint32(e, cn.Orig)
		return Reply{Status: 0x01, Ext: []uint16{0x0109}, Data: append(e, 0, 0)}
	}
	for _, x := range p.conns {
		if x.Serial == cn.Serial && x.Vendor == cn.Vendor && x.Orig == cn.Orig {
			p.Refused++
			return Reply{Status: 0x01, Ext: []uint16{0x0100}}
		}
	}
	p.nextConn += 0x101
	cn.OT = p.nextConn
	p.conns[cn.OT] = cn
	p.Opened++
	out := LE.AppendUint32(nil, cn.OT)
	out = LE.AppendUint32(out, cn.TO)
	out = LE.AppendUint16(out, cn.Serial)
	out = LE.AppendUint16(out, cn.Vendor)
	out = LE.AppendUint32(out, cn.Orig)
	out = LE.AppendUint32(out, otrpi)
	out = LE.AppendUint32(out, otrpi)
	out = append(out, 0, 0)
	return Reply{Data: out}
}

func (p *PLC) forwardClose(r *Req) Reply {
	d := r.Data
	if len(d) < 12 {
		p.bad("forward close of %d bytes", len(d))
		return Reply{Status: 0x13}
	}
	serial := LE.Uint16(d[2:])
	vendor := LE.Uint16(d[4:])
	orig := LE.Uint32(d[6:])
	pl := int(d[10]) * 2
	if pl != len(d)-12 {
		p.bad("forward close path size %d but %d bytes follow", pl, len(d)-12)
	} else if _, err := ParsePath(d[12:]); err != nil {
		p.bad("forward close path %x: %v", d[12:], err)
	}
	for k, cn := range p.conns {
		if cn.Serial == serial && cn.Vendor == vendor && cn.Orig == orig {
			delete(p.conns, k)
			p.Closed++
			out := append([]byte(nil), d[2:10]...)
			return Reply{Data: append(out, 0, 0)}
		}
	}
	p.bad("forward close of a connection that is not open (serial %#x)", serial)
	return Reply{Status: 0x01, Ext: []uint16{0x0107}}
}

func (p *PLC) multi(r *Req, max int, cn *Conn) Reply {
	d := r.Data
	if len(d) < 2 {
		p.bad("multiple service packet of %d bytes", len(d))
		return Reply{Status: 0x13}
	}
	n := int(LE.Uint16(d))
	if n == 0 {
		p.bad("multiple service packet with no services")
		return Reply{Status: 0x13}
	}
	if len(d) < 2+2*n {
		p.bad("multiple service packet with %d services in %d bytes", n, len(d))
		return Reply{Status: 0x13}
	}
	offs := make([]int, n+1)
	for i := 0; i < n; i++ {
		offs[i] = int(LE.Uint16(d[2+2*i:]))
	}
	offs[n] = len(d)
	if offs[0] != 2+2*n {
		p.bad("multiple service packet: first offset %d, expected %d", offs[0], 2+2*n)
		return Reply{Status: 0x13}
	}
	replies := [][]byte{}
	status := byte(0)
	for i := 0; i < n; i++ {
		if offs[i+1] < offs[i]+2 || offs[i+1] > len(d) {
			p.bad("multiple service packet: offsets %v in %d bytes", offs, len(d))
			return Reply{Status: 0x13}
		}
		in := &Req{In: true, N: r.N, TCP: r.TCP, Cmd: r.Cmd, Session: r.Session, Connected: r.Connected, ConnID: r.ConnID, Seq: r.Seq, Time: r.Time}
		r.Inner = append(r.Inner, in)
		rep, _ := p.service(in, d[offs[i]:offs[i+1]], 65000, cn)
		if rep[2] != 0 {
			status = 0x1E
		}
		replies = append(replies, rep)
	}
	out := LE.AppendUint16(nil, uint16(n))
	o := 2 + 2*n
	for _, x := range replies {
		out = LE.AppendUint16(out, uint16(o))
		o += len(x)
	}
	for _, x := range replies {
		out = append(out, x...)
	}
	if len(out) > max {
		if len(p.TooBig) < 100 {
			size := 0
			if cn != nil {
				size = cn.TOSize
			}
			p.TooBig = append(p.TooBig, fmt.Sprintf("reply: multiple service reply of %d bytes for %d services on a connection of size %d", len(out)+6, n, size))
		}
		return Reply{Status: 0x11}
	}
	return Reply{Status: status, Data: out}
}

func (p *PLC) read(r *Req, max int) Reply {
	want := 2
	if r.Service == 0x52 {
		want = 6
	}
	if len(r.Data) != want {
		p.bad("read service %#x with %d bytes of data", r.Service, len(r.Data))
		return Reply{Status: 0x13}
	}
	rf, st := p.resolve(r.Path)
	if st != 0 {
		if st == 0xFF {
			return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
		}
		return Reply{Status: st, Ext: []uint16{0}}
	}
	n := int(LE.Uint16(r.Data))
	if n == 0 || n > rf.avail {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	off := 0
	if r.Service == 0x52 {
		off = int(LE.Uint32(r.Data[2:]))
	}
	total := n * rf.esz
	if off > total || (off == total && total > 0) {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	src := rf.tag.Data[rf.off : rf.off+total]
	if rf.bit >= 0 {
		v := byte(0)
		if rf.tag.Data[rf.off]>>rf.bit&1 == 1 {
			v = 0xFF
		}
		src = []byte{v}
	}
	var out []byte
	if rf.typ == STRUCT {
		out = []byte{0xA0, 0x02}
		out = LE.AppendUint16(out, rf.udt.Handle)
	} else {
		out = []byte{rf.typ, 0}
	}
	room := max - len(out)
	part := total - off
	if p.FragBytes != nil {
		if f := p.FragBytes(total, off); f > 0 && f < part {
			part = f
		}
	}
	if part > room {
		part = room
		// a controller cuts at element boundaries of 4 bytes or the element size, whichever is smaller
		g := rf.esz
		if g > 4 {
			g = 4
		}
		part -= part % g
	}
	status := byte(0)
	if off+part < total {
		status = 6
	}
	out = append(out, src[off:off+part]...)
	return Reply{Status: status, Data: out}
}

func (p *PLC) write(r *Req) Reply {
	rf, st := p.resolve(r.Path)
	if st != 0 {
		if st == 0xFF {
			return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
		}
		return Reply{Status: st, Ext: []uint16{0}}
	}
	d := r.Data
	if len(d) < 4 {
		p.bad("write with %d bytes of data", len(d))
		return Reply{Status: 0x13}
	}
	typ := d[0]
	if typ == STRUCT {
		if d[1] != 2 || len(d) < 6 {
			p.bad("write of a structure with type header %x", d[:2])
			return Reply{Status: 0x13}
		}
		if rf.typ != STRUCT || LE.Uint16(d[2:]) != rf.udt.Handle {
			return Reply{Status: 0xFF, Ext: []uint16{0x2107}}
		}
		d = d[4:]
	} else {
		if d[1] != 0 {
			p.bad("write type word %x", d[:2])
			return Reply{Status: 0x13}
		}
		if typ != rf.typ && !(typ == BYTE && rf.typ == USINT) && !(typ == LWORD && rf.typ == ULINT) && !(typ == UDINT && rf.typ == DWORD) && !(typ == UINT && rf.typ == WORD) {
			return Reply{Status: 0xFF, Ext: []uint16{0x2107}}
		}
		d = d[2:]
	}
	n := int(LE.Uint16(d))
	d = d[2:]
	if n == 0 || n > rf.avail {
		return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
	}
	if len(d) < n*rf.esz {
		p.bad("write of %d elements of %d bytes carries only %d bytes", n, rf.esz, len(d))
		return Reply{Status: 0x13}
	}
	if len(d) > n*rf.esz {
		p.bad("write of %d elements of %d bytes carries %d bytes", n, rf.esz, len(d))
		return Reply{Status: 0x15}
	}
	if rf.tag.ReadOnly {
		return Reply{Status: 0x0F}
	}
	if rf.bit >= 0 {
		if d[0] != 0 {
			rf.tag.Data[rf.off] |= 1 << rf.bit
		} else {
			rf.tag.Data[rf.off] &^= 1 << rf.bit
		}
		return Reply{}
	}
	copy(rf.tag.Data[rf.off:rf.off+n*rf.esz], d)
	return Reply{}
}

func (p *PLC) programByID(id uint32) *Program {
	for _, pr := range p.Programs {
		if pr.ID == id {
			return pr
		}
	}
	return nil
}

// instanceList answers Get_Instance_Attribute_List for symbols and programs.
func (p *PLC) instanceList(r *Req, max int) Reply {
	segs := r.Path
	scope := ""
	if len(segs) > 0 && segs[0].Kind == 'S' && strings.HasPrefix(strings.ToLower(segs[0].Name), "program:") {
		scope = strings.ToLower(segs[0].Name) + "."
		ok := false
		for _, pr := range p.Programs {
			if strings.EqualFold("program:"+pr.Name, segs[0].Name) {
				ok = true
			}
		}
		if !ok {
			return Reply{Status: 0x05}
		}
		segs = segs[1:]
	} else if len(segs) >= 4 && segs[0].Kind == 'C' && segs[0].Val == ClassProgram && segs[1].Kind == 'I' {
		pr := p.programByID(segs[1].Val)
		if pr == nil {
			return Reply{Status: 0x05}
		}
		scope = "program:" + strings.ToLower(pr.Name) + "."
		segs = segs[2:]
	}
	if len(segs) != 2 || segs[0].Kind != 'C' || segs[1].Kind != 'I' {
		p.bad("Get_Instance_Attribute_List on path %s", PathString(r.Path))
		return Reply{Status: 0x05}
	}
	if len(r.Data) < 2 || len(r.Data) != 2+2*int(LE.Uint16(r.Data)) {
		p.bad("Get_Instance_Attribute_List data %x", r.Data)
		return Reply{Status: 0x13}
	}
	attrs := []uint16{}
	for i := 2; i < len(r.Data); i += 2 {
		attrs = append(attrs, LE.Uint16(r.Data[i:]))
	}
	start := segs[1].Val
	var out []byte
	n := 0
	full := func(e []byte) bool {
		return len(out)+len(e) > max || (p.PageLimit > 0 && n >= p.PageLimit)
	}
	if segs[0].Val == ClassProgram {
		ps := append([]*Program(nil), p.Programs...)
		sort.Slice(ps, func(i, j int) bool { return ps[i].ID < ps[j].ID })
		for _, pr := range ps {
			if pr.ID < start {
				continue
			}
			e := LE.AppendUint32(nil, pr.ID)
			for _, a := range attrs {
				if a == 28 {
					e = LE.AppendUint32(e, uint32(len(pr.Name)))
					e = append(e, pr.Name...)
				}
			}
			if full(e) {
				return Reply{Status: 6, Data: out}
			}
			out = append(out, e...)
			n++
		}
		return Reply{Data: out}
	}
	if segs[0].Val != ClassSymbol {
		return Reply{Status: 0x05}
	}
	for _, t := range p.tagsSorted() {
		l := strings.ToLower(t.Name)
		if scope == "" && strings.HasPrefix(l, "program:") && strings.Contains(l, ".") {
			continue
		}
		if scope != "" && !strings.HasPrefix(l, scope) {
			continue
		}
		if t.Instance < start {
			continue
		}
		e := p.symbolEntry(t, attrs, len(scope))
		if full(e) {
			return Reply{Status: 6, Data: out}
		}
		out = append(out, e...)
		n++
	}
	return Reply{Data: out}
}

// SymbolType is the symbol type word of a tag.
func SymbolType(t *Tag) uint16 {
	if t.RawType != 0 {
		return t.RawType
	}
	w := uint16(t.Type)
	if t.Type == STRUCT {
		w = 0x8000 | t.UDT.ID&0xFFF
	}
	w |= uint16(len(t.Dims)) << 13
	if t.System {
		w |= 0x1000
	}
	return w
}

func (p *PLC) symbolEntry(t *Tag, attrs []uint16, strip int) []byte {
	e := LE.AppendUint32(nil, t.Instance)
	for _, a := range attrs {
		switch a {
		case 1:
			n := t.Name[strip:]
			e = LE.AppendUint16(e, uint16(len(n)))
			e = append(e, n...)
		case 2:
			e = LE.AppendUint16(e, SymbolType(t))
		case 8:
			var d [3]uint32
			for i, x := range t.Dims {
				if i < 3 {
					d[i] = uint32(x)
				}
			}
			for _, x := range d {
				e = LE.AppendUint32(e, x)
			}
		}
	}
	return e
}

// TemplateBytes is the definition a template read returns.
func TemplateBytes(u *UDT) []byte {
	var b []byte
	for _, m := range u.Members {
		info := uint16(m.Len)
		typ := uint16(m.Type)
		if m.Type == STRUCT {
			typ = 0x8000 | m.UDT.ID&0xFFF
		}
		if m.Len > 0 {
			typ |= 1 << 13
		}
		if m.Type == BOOL && m.Len == 0 {
			info = uint16(m.Bit)
		}
		b = LE.AppendUint16(b, info)
		b = LE.AppendUint16(b, typ)
		b = LE.AppendUint32(b, uint32(m.Offset))
	}
	name := u.RawName
	if name == "" {
		name = u.Name + ";nABCDE"
	}
	b = append(b, name...)
	b = append(b, 0)
	for _, m := range u.Members {
		b = append(b, m.Name...)
		b = append(b, 0)
	}
	return b
}

// TemplateWords is attribute 4 (object definition size in 32-bit words).
func TemplateWords(u *UDT) uint32 {
	n := len(TemplateBytes(u))
	return uint32((n + 23 + 3) / 4)
}

func (p *PLC) template(r *Req, inst, max int) Reply {
	u := p.UDTs[uint16(inst)]
	if u == nil {
		return Reply{Status: 0x05}
	}
	switch r.Service {
	case 0x03:
		n := 0
		if len(r.Data) >= 2 {
			n = int(LE.Uint16(r.Data))
		}
		if len(r.Data) != 2+2*n {
			p.bad("template GetAttributeList data %x", r.Data)
			return Reply{Status: 0x13}
		}
		out := LE.AppendUint16(nil, uint16(n))
		for i := 0; i < n; i++ {
			a := LE.Uint16(r.Data[2+2*i:])
			out = LE.AppendUint16(out, a)
			out = LE.AppendUint16(out, 0)
			switch a {
			case 4:
				out = LE.AppendUint32(out, TemplateWords(u))
			case 5:
				out = LE.AppendUint32(out, uint32(u.Size))
			case 2:
				out = LE.AppendUint16(out, uint16(len(u.Members)))
			case 1:
				out = LE.AppendUint16(out, u.Handle)
			default:
				return Reply{Status: 0x14}
			}
		}
		return Reply{Data: out}
	case 0x4C:
		if len(r.Data) != 6 {
			p.bad("template read data %x", r.Data)
			return Reply{Status: 0x13}
		}
		off := int(LE.Uint32(r.Data))
		ln := int(LE.Uint16(r.Data[4:]))
		b := TemplateBytes(u)
		total := int(TemplateWords(u))*4 - 23
		for len(b) < total {
			b = append(b, 0)
		}
		if off > len(b) {
			return Reply{Status: 0x13}
		}
		b = b[off:]
		if ln > len(b) {
			ln = len(b)
		}
		b = b[:ln]
		if len(b) > max {
			return Reply{Status: 6, Data: b[:max&^3]}
		}
		if p.FragBytes != nil {
			if f := p.FragBytes(total, off); f > 0 && f < len(b) {
				return Reply{Status: 6, Data: b[:f]}
			}
		}
		return Reply{Data: b}
	}
	return Reply{Status: 0x08}
}

// Buffer is a data table buffer instance.
type Buffer struct {
	Tags  []BufTag
	batch int // of the last add request
	index int // of the last tag added
}

// BufTag is one tag in a buffer.
type BufTag struct {
	Index int // 1-based, sequential over all tags ever added to the buffer
	Batch int // which add request it came with
	Size  int
	Path  []Seg
}

// Buffers returns a copy of the controller's buffers.
func (p *PLC) Buffers() map[uint32]map[int]string {
	p.mu.Lock()
	defer p.mu.Unlock()
	m := map[uint32]map[int]string{}
	for id, b := range p.buffers {
		x := map[int]string{}
		for _, t := range b.Tags {
			x[t.Index] = fmt.Sprintf("%s:%d", PathString(t.Path), t.Size)
		}
		m[id] = x
	}
	return m
}

// BufPlace is one entry of a buffer with the place it stands for.
type BufPlace struct {
	Index, Batch, Size int
	Tag                string // as in Snapshot
	Off, Bit           int
}

// BufferPlaces lists the entries of a buffer; ok says whether the buffer exists.
func (p *PLC) BufferPlaces(id uint32) (out []BufPlace, ok bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	b := p.buffers[id]
	if b == nil {
		return nil, false
	}
	for _, t := range b.Tags {
		rf, st := p.resolve(t.Path)
		if st != 0 {
			out = append(out, BufPlace{Index: t.Index, Tag: "?" + PathString(t.Path)})
			continue
		}
		out = append(out, BufPlace{t.Index, t.Batch, t.Size, strings.ToLower(rf.tag.Name), rf.off, rf.bit})
	}
	return out, true
}

func (p *PLC) bufferService(r *Req, max int) Reply {
	_, inst, _ := classInst(r.Path)
	if inst == 0 {
		if r.Service != 0x08 {
			return Reply{Status: 0x08}
		}
		var id uint32
		if n := len(p.freeBuf); n > 0 {
			// a controller uses numbers again
			id = p.freeBuf[n-1]
			p.freeBuf = p.freeBuf[:n-1]
		} else {
			// numbers from all of 16 bits, in no order
			for id == 0 || p.buffers[id] != nil {
				p.nextBuf = (p.nextBuf + 0x9E37) & 0xFFFF
				id = p.nextBuf
			}
		}
		p.buffers[id] = &Buffer{}
		p.BufCreated++
		return Reply{Data: LE.AppendUint16(nil, uint16(id))}
	}
	b := p.buffers[uint32(inst)]
	if b == nil {
		return Reply{Status: 0x16}
	}
	d := r.Data
	switch r.Service {
	case 0x09:
		delete(p.buffers, uint32(inst))
		p.freeBuf = append(p.freeBuf, uint32(inst))
		p.BufDeleted++
		return Reply{}
	case 0x4E:
		if len(d) < 5 {
			p.bad("buffer add of %d bytes", len(d))
			return Reply{Status: 0x13}
		}
		n := int(d[4])
		d = d[5:]
		adds := []BufTag{}
		for i := 0; i < n; i++ {
			if len(d) < 3 || len(d) < 3+2*int(d[2]) {
				p.bad("buffer add entry %d truncated", i)
				return Reply{Status: 0x13}
			}
			sz := int(LE.Uint16(d))
			pl := int(d[2]) * 2
			segs, err := ParsePath(d[3 : 3+pl])
			if err != nil {
				p.bad("buffer add entry %d path %x: %v", i, d[3:3+pl], err)
				return Reply{Status: 0x04}
			}
			adds = append(adds, BufTag{Size: sz, Path: segs})
			d = d[3+pl:]
		}
		if len(d) != 0 {
			p.bad("buffer add: %d bytes after the last of %d entries", len(d), n)
			return Reply{Status: 0x15}
		}
		if n == 0 {
			return Reply{Status: 0x13}
		}
		for _, a := range adds {
			rf, st := p.resolve(a.Path)
			if st != 0 {
				return Reply{Status: st}
			}
			if rf.avail*rf.esz < a.Size {
				return Reply{Status: 0xFF, Ext: []uint16{0x2105}}
			}
		}
		b.batch++
		for _, a := range adds {
			b.index++
			a.Index, a.Batch = b.index, b.batch
			b.Tags = append(b.Tags, a)
		}
		return Reply{Data: LE.AppendUint16(nil, uint16(b.batch))}
	case 0x4F:
		if len(d) != 2 {
			p.bad("buffer remove of %d bytes", len(d))
			return Reply{Status: 0x13}
		}
		id := int(LE.Uint16(d))
		found := false
		for k := range b.Tags {
			if b.Tags[k].Index == id {
				b.Tags = append(b.Tags[:k:k], b.Tags[k+1:]...)
				found = true
				break
			}
		}
		if !found {
			return Reply{Status: 0x16}
		}
		return Reply{}
	case 0x4C:
		var out []byte
		last := -1
		for _, bt := range b.Tags {
			if bt.Batch != last {
				last = bt.Batch
				out = LE.AppendUint16(out, uint16(last))
			}
			rf, st := p.resolve(bt.Path)
			if st != 0 {
				return Reply{Status: st}
			}
			src := rf.tag.Data[rf.off:]
			if rf.bit >= 0 {
				src = []byte{rf.tag.Data[rf.off] >> rf.bit & 1}
			}
			out = append(out, src[:bt.Size]...)
		}
		if len(out) > max {
			return Reply{Status: 0x11}
		}
		return Reply{Data: out}
	}
	return Reply{Status: 0x08}
}

var _ = binary.LittleEndian
