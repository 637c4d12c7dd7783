// Package checks holds the monitored scenarios, one file per group of properties.
package checks

import (
	"encoding/hex"
	"fmt"
	"io"
	"log/slog"
	"math"
	"math/rand/v2"
	"reflect"
	"strings"
	"sync/atomic"
	"time"

	"github.com/danomagnum/gologix"
	"verifharness/plc"
	"verifharness/rt"
)

// All is the registry of checks.
var All = map[string]*rt.Check{}

func register(c *rt.Check) { All[c.ID] = c }

var helpers = map[string]func(args []string){}

// Helper runs a helper process mode.
func Helper(name string, args []string) {
	if f := helpers[name]; f != nil {
		f(args)
	}
}

// quietLog discards logs but goes through slog like a real logger.
type quietLog struct{}

func (quietLog) Debug(string, ...any) {}
func (quietLog) Info(string, ...any)  {}
func (quietLog) Warn(string, ...any)  {}
func (quietLog) Error(string, ...any) {}

func init() { slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil))) }

var clientsMade atomic.Int64

// newClient builds a client for the model; it is not connected yet.
func newClient(p *plc.PLC) *gologix.Client {
	c := gologix.NewClient("127.0.0.1")
	c.Controller.Port = p.Port
	c.SocketTimeout = 30 * time.Second
	if clientsMade.Add(1)%2 == 0 { // the others keep the logger they were made with
		c.Logger = quietLog{}
	}
	c.AutoConnect = false
	return c
}

// dial gives a connected client.
func dial(t *rt.T, p *plc.PLC, size uint16) *gologix.Client {
	c := newClient(p)
	if size != 0 {
		c.ConnectionSize = size
	}
	if err := c.Connect(); err != nil {
		t.Fail("connect", "cannot connect to the controller model: %v", err)
		return nil
	}
	t.Cleanup(func() { c.Disconnect() })
	return c
}

func newPLC(t *rt.T) *plc.PLC {
	p := plc.New()
	t.Cleanup(p.Close)
	return p
}

// atom describes an atomic type.
type atom struct {
	Code byte
	Name string
	Go   reflect.Type // natural Go type (what Read delivers)
}

var (
	tBool = reflect.TypeOf(false)
	tI8   = reflect.TypeOf(int8(0))
	tU8   = reflect.TypeOf(byte(0))
	tI16  = reflect.TypeOf(int16(0))
	tU16  = reflect.TypeOf(uint16(0))
	tI32  = reflect.TypeOf(int32(0))
	tU32  = reflect.TypeOf(uint32(0))
	tI64  = reflect.TypeOf(int64(0))
	tU64  = reflect.TypeOf(uint64(0))
	tF32  = reflect.TypeOf(float32(0))
	tF64  = reflect.TypeOf(float64(0))
	tStr  = reflect.TypeOf("")
)

var atoms = []atom{
	{plc.BOOL, "BOOL", tBool}, {plc.SINT, "SINT", tI8}, {plc.USINT, "USINT", tU8}, {plc.BYTE, "BYTE", tU8},
	{plc.INT, "INT", tI16}, {plc.UINT, "UINT", tU16}, {plc.WORD, "WORD", tU16},
	{plc.DINT, "DINT", tI32}, {plc.UDINT, "UDINT", tU32}, {plc.DWORD, "DWORD", tU32},
	{plc.LINT, "LINT", tI64}, {plc.ULINT, "ULINT", tU64}, {plc.LWORD, "LWORD", tU64},
	{plc.REAL, "REAL", tF32}, {plc.LREAL, "LREAL", tF64},
}

func atomOf(code byte) atom {
	for _, a := range atoms {
		if a.Code == code {
			return a
		}
	}
	panic("atom")
}

// natural code a Go type is written as (GoVarToCIPType's documented table)
var writeCode = map[reflect.Type]byte{tBool: plc.BOOL, tU8: plc.BYTE, tI8: plc.SINT, tU16: plc.UINT, tI16: plc.INT, tU32: plc.UDINT, tI32: plc.DINT,
	tU64: plc.LWORD, tI64: plc.LINT, tF32: plc.REAL, tF64: plc.LREAL}

// randBytes fills n elements of a type with interesting values.
func randElem(r *rand.Rand, code byte) []byte {
	n := plc.Size(code)
	b := make([]byte, n)
	if code == plc.BOOL {
		b[0] = byte(r.IntN(2))
		return b
	}
	switch r.IntN(8) {
	case 0: // all ones
		for i := range b {
			b[i] = 0xFF
		}
	case 1: // min
		b[n-1] = 0x80
	case 2: // max
		for i := range b {
			b[i] = 0xFF
		}
		b[n-1] = 0x7F
	case 3: // zero
	default:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	}
	if code == plc.REAL && r.IntN(3) == 0 {
		plc.LE.PutUint32(b, math.Float32bits(float32(r.NormFloat64()*1e6)))
	}
	if code == plc.LREAL && r.IntN(3) == 0 {
		plc.LE.PutUint64(b, math.Float64bits(r.NormFloat64()*1e9))
	}
	// signalling NaNs may be quieted by a float register; keep to quiet ones
	if code == plc.REAL {
		if f := math.Float32frombits(plc.LE.Uint32(b)); f != f {
			plc.LE.PutUint32(b, plc.LE.Uint32(b)|0x400000)
		}
	}
	if code == plc.LREAL {
		if f := math.Float64frombits(plc.LE.Uint64(b)); f != f {
			plc.LE.PutUint64(b, plc.LE.Uint64(b)|0x8000000000000)
		}
	}
	return b
}

func randData(r *rand.Rand, code byte, n int) []byte {
	out := make([]byte, 0, n*plc.Size(code))
	for i := 0; i < n; i++ {
		out = append(out, randElem(r, code)...)
	}
	return out
}

func randString(r *rand.Rand, max int) string {
	n := r.IntN(max + 1)
	switch r.IntN(6) {
	case 0:
		n = max
	case 1:
		n = 0
	case 2:
		n = 1
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(32 + r.IntN(95))
	}
	if n > 0 && r.IntN(6) == 0 {
		b[r.IntN(n)] = byte(r.IntN(256))
	}
	if n > 0 && r.IntN(8) == 0 { // bytes at the end that look like padding or white space
		pad := []byte{0, 0, ' ', '\n', 0xFF}[r.IntN(5)]
		for i, k := n-1, r.IntN(4); i >= 0 && k >= 0; i, k = i-1, k-1 {
			b[i] = pad
		}
	}
	return string(b)
}

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789"

func randName(r *rand.Rand, lo, hi int) string {
	n := lo + r.IntN(hi-lo+1)
	b := make([]byte, n)
	for i := range b {
		b[i] = nameChars[r.IntN(len(nameChars))]
	}
	b[0] = nameChars[r.IntN(52)]
	if n > 1 && r.IntN(25) == 0 && b[1] != '_' && (b[1] < '0' || b[1] > '9') {
		b[0] = '_'
	}
	s := string(b)
	if strings.HasPrefix(strings.ToLower(s), "program") {
		s = "x" + s[1:]
	}
	return s
}

// uniqueName draws a name not used yet.
func uniqueName(r *rand.Rand, used map[string]bool, lo, hi int) string {
	for {
		s := randName(r, lo, hi)
		if !used[strings.ToLower(s)] {
			used[strings.ToLower(s)] = true
			return s
		}
		if hi < 40 {
			hi++
		}
	}
}

// recase changes the letter case at random.
func recase(r *rand.Rand, s string) string {
	switch r.IntN(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		b := []byte(s)
		for i := range b {
			if r.IntN(2) == 0 {
				b[i] = strings.ToUpper(string(b[i]))[0]
			} else {
				b[i] = strings.ToLower(string(b[i]))[0]
			}
		}
		return string(b)
	}
	return s
}

// same compares values exactly, floats by bits.
func same(a, b any) bool { return sameV(reflect.ValueOf(a), reflect.ValueOf(b)) }

func sameV(a, b reflect.Value) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	for a.Kind() == reflect.Interface && !a.IsNil() {
		a = a.Elem()
	}
	for b.Kind() == reflect.Interface && !b.IsNil() {
		b = b.Elem()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32:
		return math.Float32bits(float32(a.Float())) == math.Float32bits(float32(b.Float()))
	case reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !sameV(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !sameV(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return sameV(a.Elem(), b.Elem())
	}
	return reflect.DeepEqual(a.Interface(), b.Interface())
}

// show renders a value for reports.
func show(v any) string {
	if b, ok := v.([]byte); ok {
		return "bytes " + hex.EncodeToString(b)
	}
	s := fmt.Sprintf("%T %v", v, v)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

// goSlice decodes n elements of memory into a slice of the natural Go type.
func goSlice(code byte, data []byte) reflect.Value {
	a := atomOf(code)
	sz := plc.Size(code)
	n := len(data) / sz
	s := reflect.MakeSlice(reflect.SliceOf(a.Go), n, n)
	for i := 0; i < n; i++ {
		s.Index(i).Set(reflect.ValueOf(plc.Value(code, data[i*sz:])))
	}
	return s
}

// fillJunk sets every element/field of v to a value that is unlikely to be right.
func junk(r *rand.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(r.IntN(2) == 0)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(int64(int8(r.IntN(100) + 3)))
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(r.IntN(100) + 3))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-7.25)
	case reflect.String:
		v.SetString("junk!")
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			junk(r, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				junk(r, v.Field(i))
			}
		}
	}
}
