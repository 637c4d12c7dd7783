// Package enip is a minimal EtherNet/IP client for demonstrations: bytes in, bytes out, no code shared with the library.
package enip

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"time"
)

var le = binary.LittleEndian

type Conn struct {
	net.Conn
	Session uint32
	seq     uint16
}

// Dial connects to a server on this host, waiting for it to listen, and registers a session.
func Dial() (*Conn, error) {
	var c net.Conn
	var err error
	for i := 0; i < 100; i++ {
		c, err = net.Dial("tcp", "127.0.0.1:44818")
		if err == nil {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if err != nil {
		return nil, err
	}
	k := &Conn{Conn: c}
	_, s, err := k.Command(0x65, []byte{1, 0, 0, 0})
	k.Session = s
	return k, err
}

// Command sends one encapsulated message and returns the data of the reply and its session.
func (k *Conn) Command(cmd uint16, data []byte) ([]byte, uint32, error) {
	b := make([]byte, 24, 24+len(data))
	le.PutUint16(b, cmd)
	le.PutUint16(b[2:], uint16(len(data)))
	le.PutUint32(b[4:], k.Session)
	k.SetDeadline(time.Now().Add(5 * time.Second))
	if _, err := k.Write(append(b, data...)); err != nil {
		return nil, 0, err
	}
	return k.receive()
}

func (k *Conn) receive() ([]byte, uint32, error) {
	h := make([]byte, 24)
	if _, err := io.ReadFull(k, h); err != nil {
		return nil, 0, err
	}
	d := make([]byte, le.Uint16(h[2:]))
	if _, err := io.ReadFull(k, d); err != nil {
		return nil, 0, err
	}
	if st := le.Uint32(h[8:]); st != 0 {
		return d, 0, fmt.Errorf("encapsulation status %#x", st)
	}
	return d, le.Uint32(h[4:]), nil
}

func item(id uint16, d []byte) []byte {
	b := make([]byte, 4)
	le.PutUint16(b, id)
	le.PutUint16(b[2:], uint16(len(d)))
	return append(b, d...)
}

// items takes a common packet format apart.
func items(d []byte) (out [][]byte, err error) {
	if len(d) < 8 {
		return nil, errors.New("short reply")
	}
	n := int(le.Uint16(d[6:]))
	d = d[8:]
	for i := 0; i < n; i++ {
		if len(d) < 4 || len(d) < 4+int(le.Uint16(d[2:])) {
			return nil, errors.New("short item")
		}
		l := 4 + int(le.Uint16(d[2:]))
		out = append(out, d[4:l])
		d = d[l:]
	}
	return out, nil
}

// Unconnected sends a CIP request with SendRRData and returns the CIP reply.
func (k *Conn) Unconnected(cip []byte) ([]byte, error) {
	d := append([]byte{0, 0, 0, 0, 0, 0, 2, 0}, item(0, nil)...)
	r, _, err := k.Command(0x6f, append(d, item(0xb2, cip)...))
	if err != nil {
		return nil, err
	}
	it, err := items(r)
	if err != nil || len(it) != 2 {
		return nil, fmt.Errorf("%d items: %w", len(it), err)
	}
	return it[1], nil
}

// Open opens a connection over path and returns its originator to target identifier. rpi is in microseconds.
func (k *Conn) Open(serial uint16, originator, to uint32, rpi uint32, transport byte, size uint16, path []byte) (uint32, error) {
	b := []byte{0x54, 2, 0x20, 6, 0x24, 1, 7, 0x10}
	b = le.AppendUint32(b, 0)
	b = le.AppendUint32(b, to)
	b = le.AppendUint16(b, serial)
	b = le.AppendUint16(b, 0x1234)
	b = le.AppendUint32(b, originator)
	b = append(b, 3, 0, 0, 0)
	b = le.AppendUint32(b, rpi)
	b = le.AppendUint16(b, 0x4200|size)
	b = le.AppendUint32(b, rpi)
	b = le.AppendUint16(b, 0x4200|size)
	b = append(b, transport, byte(len(path)/2))
	r, err := k.Unconnected(append(b, path...))
	if err != nil {
		return 0, err
	}
	if len(r) < 12 || r[0] != 0xd4 || r[2] != 0 {
		return 0, fmt.Errorf("open refused: % x", r)
	}
	return le.Uint32(r[4:]), nil
}

// Send sends a CIP request over the connection with this originator to target identifier and returns the CIP reply.
func (k *Conn) Send(ot uint32, cip []byte) ([]byte, error) {
	k.seq++
	d := append([]byte{0, 0, 0, 0, 0, 0, 2, 0}, item(0xa1, le.AppendUint32(nil, ot))...)
	r, _, err := k.Command(0x70, append(d, item(0xb1, append(le.AppendUint16(nil, k.seq), cip...))...))
	if err != nil {
		return nil, err
	}
	it, err := items(r)
	if err != nil || len(it) != 2 || len(it[1]) < 6 {
		return nil, fmt.Errorf("%d items: %w", len(it), err)
	}
	if s := le.Uint16(it[1]); s != k.seq {
		return nil, fmt.Errorf("reply to %d came to %d", s, k.seq)
	}
	return it[1][2:], nil
}

// Tag is the path of a tag by name, with an element's index if that is 0 or more.
func Tag(name string, index int) []byte {
	p := append([]byte{0x91, byte(len(name))}, name...)
	if len(name)%2 == 1 {
		p = append(p, 0)
	}
	if index >= 0 {
		p = append(p, 0x28, byte(index))
	}
	return p
}

// Request is a CIP request.
func Request(service byte, path []byte, data ...byte) []byte {
	return append(append([]byte{service, byte(len(path) / 2)}, path...), data...)
}

// Local is the path to a message router behind a backplane.
var Local = []byte{1, 0, 0x20, 2, 0x24, 1}
