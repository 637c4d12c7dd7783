package checks

import (
	"bytes"
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/danomagnum/gologix/canned"
	"verifharness/plc"
	"verifharness/rt"
)

func init() {
	register(&rt.Check{
		ID: "C22",
		Rule: "each evaluation is one call of GetFaults or GetForces against a controller whose fault log or force status is set to a given content, cut, refused or reported as failed, or one look at a fault type, force status or fault event; " +
			"non-trivial = distinct (call, content class, status, length) and (type, code) combinations",
		Assumptions: []string{"the fault log is object 0x73 and the force status attribute 9 of object 0x69, laid out as the package's own types say; the bit numbers of the fault types are the package's own"},
		Cases:       c22Cases,
		MinEvents:   []string{"faults_read", "forces_read", "refused", "cut_short", "events_described", "table_entries", "flags"},
		Races:       true,
	})
}

func c22Cases(tier string, seed uint64) []rt.Case {
	cs := []rt.Case{{Name: "descriptions", Run: c22Descriptions}, {Name: "flags", Run: c22Flags}}
	for i := 0; i < tiered(tier, 600, 3000); i++ {
		cs = append(cs, rt.Case{Name: fmt.Sprintf("controller-%d", i), Run: c22Controller})
	}
	cs = append(cs, rt.Case{Name: "together", Run: c22Together})
	return cs
}

type c22Log struct {
	s canned.FaultSummary
	b []byte
}

func c22Draw(t *rt.T) c22Log {
	r := t.R
	l := c22Log{}
	u16 := func() uint16 {
		return []uint16{0, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, uint16(r.Uint32()), uint16(r.IntN(30))}[r.IntN(10)]
	}
	u32 := func() uint32 {
		return []uint32{0, 1, 1 << r.IntN(32), 0xFFFFFFFF, r.Uint32()}[r.IntN(5)]
	}
	s := &l.s
	s.MajorType, s.MinorType = canned.FaultType(u32()), canned.FaultType(u32())
	s.MajorCount, s.MinorCount = u16(), u16()
	b := plc.LE.AppendUint32(nil, uint32(s.MajorType))
	b = plc.LE.AppendUint32(b, uint32(s.MinorType))
	b = plc.LE.AppendUint16(b, s.MajorCount)
	b = plc.LE.AppendUint16(b, s.MinorCount)
	for i := range s.Events {
		e := &s.Events[i]
		e.Timestamp = r.Uint64() >> r.IntN(64)
		e.FaultClass, e.FaultCode = u16(), u16()
		var detail [30]byte
		for j := range detail {
			detail[j] = byte(r.Uint32())
		}
		copy(e.Detail[:], detail[:])
		b = plc.LE.AppendUint64(b, e.Timestamp)
		b = plc.LE.AppendUint16(b, e.FaultClass)
		b = plc.LE.AppendUint16(b, e.FaultCode)
		b = append(b, detail[:]...)
	}
	l.b = b
	return l
}

// c22Controller: what the two calls give is what the controller said, or an error.
func c22Controller(t *rt.T) {
	w := newWorld(t)
	r := t.R
	c := dial(t, w.p, []uint16{0, 300, 500, 4000}[r.IntN(4)])
	if c == nil {
		return
	}
	w.p.Add(&plc.Tag{Name: "A", Type: plc.DINT, Data: []byte{1, 2, 3, 4}})
	var rep plc.Reply
	var seen []*plc.Req
	w.p.Lock()
	w.p.OnReq = func(q *plc.Req) *plc.Action {
		if len(q.Path) > 0 && q.Path[0].Kind == 'C' && (q.Path[0].Val == 0x73 || q.Path[0].Val == 0x69) {
			seen = append(seen, q)
			x := rep
			return &plc.Action{Reply: &x}
		}
		return nil
	}
	w.p.Unlock()
	set := func(x plc.Reply) {
		w.p.Lock()
		rep, seen = x, nil
		w.p.Unlock()
	}
	asked := func(what string, service byte, path string, data []byte) bool {
		w.p.Lock()
		defer w.p.Unlock()
		if len(seen) != 1 || seen[0].Service != service || plc.PathString(seen[0].Path) != path || !bytes.Equal(seen[0].Data, data) {
			l := []string{}
			for _, q := range seen {
				l = append(l, fmt.Sprintf("service %#x of %s with %x", q.Service, plc.PathString(q.Path), q.Data))
			}
			t.Fail("request:"+what, "%s sent %s; expected service %#x of %s with %x", what, strings.Join(l, ", "), service, path, data)
			return false
		}
		return true
	}
	for i := 0; i < 30 && !t.Failed(); i++ {
		st := byte(0)
		var ext []uint16
		if r.IntN(3) == 0 {
			st = byte(1 + r.IntN(255))
			for k := r.IntN(3); k > 0; k-- {
				ext = append(ext, uint16(r.Uint32()))
			}
			t.Count("refused", 1)
		}
		if r.IntN(2) == 0 {
			l := c22Draw(t)
			cut := len(l.b)
			switch r.IntN(4) {
			case 0:
				cut = r.IntN(len(l.b))
			case 1:
				cut = len(l.b) - 1
			}
			set(plc.Reply{Status: st, Ext: ext, Data: l.b[:cut]})
			var got canned.FaultSummary
			var err error
			if !t.Guard("GetFaults", func() { got, err = canned.GetFaults(c) }) {
				return
			}
			what := fmt.Sprintf("GetFaults answered with status %#x %x and %d of %d bytes", st, ext, cut, len(l.b))
			t.Eval(fmt.Sprintf("faults/%x/%d/%d", st, len(ext), cut))
			if !asked("GetFaults", 0x01, "/C115/I1", nil) {
				return
			}
			switch {
			case st != 0 || cut < len(l.b):
				if cut < len(l.b) {
					t.Count("cut_short", 1)
				}
				if err == nil {
					t.Fail("faults-accepted", "%s reported success: %+v", what, got)
				}
			case err != nil:
				t.Fail("faults-error", "%s failed: %v", what, err)
			case got != l.s:
				t.Fail("faults-value", "%s gave %+v, the controller said %+v", what, got, l.s)
			default:
				t.Count("faults_read", 1)
			}
		} else {
			v := uint16(r.Uint32())
			if r.IntN(2) == 0 {
				v = uint16(r.IntN(4))
			}
			ast := uint16(0)
			b := []byte{1, 0, 9, 0}
			if r.IntN(4) == 0 {
				ast = uint16(1 + r.IntN(0x2F))
				t.Count("refused", 1)
			}
			b = plc.LE.AppendUint16(b, ast)
			b = plc.LE.AppendUint16(b, v)
			cut := len(b)
			if r.IntN(4) == 0 {
				cut = r.IntN(len(b))
			}
			set(plc.Reply{Status: st, Ext: ext, Data: b[:cut]})
			var got canned.ForceStatus
			var err error
			if !t.Guard("GetForces", func() { got, err = canned.GetForces(c) }) {
				return
			}
			what := fmt.Sprintf("GetForces answered with status %#x %x, attribute status %#x and %d of %d bytes", st, ext, ast, cut, len(b))
			t.Eval(fmt.Sprintf("forces/%x/%d/%x/%d/%d", st, len(ext), ast, cut, v&3))
			if !asked("GetForces", 0x03, "/C105/I0", []byte{1, 0, 9, 0}) {
				return
			}
			switch {
			case st != 0 || ast != 0 || cut < len(b):
				if cut < len(b) {
					t.Count("cut_short", 1)
				}
				if err == nil {
					t.Fail("forces-accepted", "%s reported success: %#x", what, uint16(got))
				}
			case err != nil:
				t.Fail("forces-error", "%s failed: %v", what, err)
			case uint16(got) != v:
				t.Fail("forces-value", "%s gave %#x, the controller said %#x", what, uint16(got), v)
			default:
				t.Count("forces_read", 1)
			}
		}
		// whatever was answered, the client goes on
		var a int32
		if err := c.Read("A", &a); err != nil || a != 0x04030201 {
			t.Fail("after", "a read after it gives %#x, %v", a, err)
		}
	}
	c.Disconnect()
	if _, err := canned.GetFaults(c); err == nil {
		t.Fail("disconnected", "GetFaults on a disconnected client reported success")
	}
	if _, err := canned.GetForces(c); err == nil {
		t.Fail("disconnected", "GetForces on a disconnected client reported success")
	}
}

// c22Together has several goroutines share a client; each gets what belongs to its call.
func c22Together(t *rt.T) {
	w := newWorld(t)
	c := dial(t, w.p, 0)
	if c == nil {
		return
	}
	l := c22Draw(t)
	w.p.Lock()
	w.p.OnReq = func(q *plc.Req) *plc.Action {
		if len(q.Path) > 0 && q.Path[0].Kind == 'C' && q.Path[0].Val == 0x73 {
			return &plc.Action{Reply: &plc.Reply{Data: l.b}}
		}
		if len(q.Path) > 0 && q.Path[0].Kind == 'C' && q.Path[0].Val == 0x69 {
			return &plc.Action{Reply: &plc.Reply{Data: []byte{1, 0, 9, 0, 0, 0, 2, 0}}}
		}
		return nil
	}
	w.p.Unlock()
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				if g%2 == 0 {
					if got, err := canned.GetFaults(c); err != nil || got != l.s {
						t.Fail("together", "GetFaults next to other calls gave %+v, %v", got, err)
						return
					}
					t.Count("faults_read", 1)
				} else {
					got, err := canned.GetForces(c)
					if err != nil || got != 2 {
						t.Fail("together", "GetForces next to other calls gave %#x, %v", uint16(got), err)
						return
					}
					t.Count("forces_read", 1)
				}
			}
		}()
	}
	wg.Wait()
	t.Eval("together")
}

var c22Numbers = regexp.MustCompile(`T(\d+):C(\d+)`)

// c22Descriptions looks at every entry of the table and at events of every type and code.
func c22Descriptions(t *rt.T) {
	for typ, m := range canned.FaultDescriptions {
		for code, d := range m {
			t.Count("table_entries", 1)
			t.Eval(fmt.Sprintf("entry/%d/%d", typ, code))
			if d.Type != typ || d.Code != code {
				t.Fail("entry-numbers", "the entry for type %d code %d says it is type %d code %d", typ, code, d.Type, d.Code)
			}
			if d.Display == "" || d.Description == "" {
				t.Fail("entry-empty", "the entry for type %d code %d has no text: %+v", typ, code, d)
			}
			if g := c22Numbers.FindStringSubmatch(d.Display); g != nil {
				a, _ := strconv.Atoi(g[1])
				b, _ := strconv.Atoi(g[2])
				if a != typ || b != code {
					t.Fail("entry-text", "the entry for type %d code %d is about %s", typ, code, g[0])
				}
				if strings.HasPrefix(d.Display, "Major") && !d.Major || strings.HasPrefix(d.Display, "Minor") && d.Major {
					t.Fail("entry-major", "the entry for type %d code %d has Major %v: %s", typ, code, d.Major, d.Display)
				}
			}
		}
	}
	look := func(class, code uint16) {
		e := canned.FaultEvent{Timestamp: t.R.Uint64(), FaultClass: class, FaultCode: code}
		for i := 0; i < 12; i++ {
			e.Detail[i] = byte('a' + t.R.IntN(26))
		}
		var d canned.FaultDescription
		s := ""
		if !t.Guard("Description", func() { d, s = e.Description(), e.String() }) {
			return
		}
		t.Count("events_described", 1)
		if d.Type != int(class) || d.Code != int(code) {
			t.Fail("description-numbers", "an event of class %d code %d is described as type %d code %d", class, code, d.Type, d.Code)
		}
		known, ok := canned.FaultDescriptions[int(class)][int(code)]
		switch {
		case ok && d != known:
			t.Fail("description", "an event of class %d code %d is described as %+v, the table has %+v", class, code, d, known)
		case !ok && !strings.Contains(d.Description, string(e.Detail[:12])):
			t.Fail("description-detail", "an unknown event of class %d code %d is described without its detail: %+v", class, code, d)
		case !ok && (!strings.Contains(d.Display, strconv.Itoa(int(class))) || !strings.Contains(d.Display, strconv.Itoa(int(code)))):
			t.Fail("description-unknown", "an unknown event of class %d code %d is displayed as %q", class, code, d.Display)
		}
		if class == 0 && code == 0 {
			if s != "No Fault" {
				t.Fail("string", "no fault is shown as %q", s)
			}
		} else if s != d.Display {
			t.Fail("string", "an event of class %d code %d is shown as %q, its description as %q", class, code, s, d.Display)
		}
	}
	for class := 0; class < 40; class++ {
		for code := 0; code < 400; code++ {
			look(uint16(class), uint16(code))
		}
		t.Eval(fmt.Sprintf("class/%d", class))
	}
	for i := 0; i < 3000; i++ {
		look(uint16(t.R.Uint32()), uint16(t.R.Uint32()))
	}
	for class := range canned.FaultDescriptions {
		for k := 0; k < 200; k++ {
			look(uint16(class), uint16(t.R.Uint32()))
			look(uint16(class)+256*uint16(1+t.R.IntN(255)), uint16(t.R.IntN(60)))
		}
	}
	// faults named in the manual that are worth finding
	for _, x := range []struct {
		class, code uint16
		text        string
	}{{17, 34, "temperature"}, {17, 35, "temperature"}, {4, 20, "subscript"}, {4, 34, "imer"}, {6, 1, "atchdog"}, {10, 10, ""}} {
		e := canned.FaultEvent{FaultClass: x.class, FaultCode: x.code}
		d := e.Description()
		if !strings.Contains(strings.ToLower(d.Display+d.Description), strings.ToLower(x.text)) {
			t.Fail("description-text", "an event of class %d code %d is described as %q", x.class, x.code, d.Display)
		}
	}
}

// c22Flags: each question is about one bit.
func c22Flags(t *rt.T) {
	flags := []struct {
		name string
		bit  canned.FaultType
		ask  func(canned.FaultType) bool
	}{
		{"Powerup", canned.FaultType_Powerup, canned.FaultType.PowerupFault}, {"IO", canned.FaultType_IO, canned.FaultType.IOFault},
		{"Program", canned.FaultType_Program, canned.FaultType.ProgramFault}, {"Watchdog", canned.FaultType_Watchdog, canned.FaultType.WatchdogFault},
		{"NVMemory", canned.FaultType_NVMemory, canned.FaultType.NVMemoryFault}, {"ModeChange", canned.FaultType_ModeChange, canned.FaultType.ModeChangeFault},
		{"SerialPort", canned.FaultType_SerialPort, canned.FaultType.SerialPortFault}, {"EnergyStorage", canned.FaultType_EnergyStorage, canned.FaultType.EnergyStorageFault},
		{"Motion", canned.FaultType_Motion, canned.FaultType.MotionFault}, {"Redundancy", canned.FaultType_Redundancy, canned.FaultType.RedundancyFault},
		{"RTC", canned.FaultType_RTC, canned.FaultType.RTCFault}, {"NonRecoverable", canned.FaultType_NonRecoverable, canned.FaultType.NonRecoverableFault},
		{"Communication", canned.FaultType_Communication, canned.FaultType.CommunicationFault}, {"Diagnostics", canned.FaultType_Diagnostics, canned.FaultType.DiagnosticsFault},
		{"CIPMotion", canned.FaultType_CIPMotion, canned.FaultType.CIPMotionFault}, {"Ethernet", canned.FaultType_Ethernet, canned.FaultType.EthernetFault},
		{"License", canned.FaultType_License, canned.FaultType.LicenseFault}, {"Alarm", canned.FaultType_Alarm, canned.FaultType.AlarmFault},
		{"OPCUA", canned.FaultType_OPCUA, canned.FaultType.OPCUAFault},
	}
	last := canned.FaultType(0)
	for _, f := range flags {
		if f.bit == 0 || f.bit&(f.bit-1) != 0 {
			t.Fail("flag-bit", "the fault type %s is %#x, not a single bit", f.name, uint32(f.bit))
		}
		if f.bit <= last {
			t.Fail("flag-order", "the fault type %s is %#x, after %#x", f.name, uint32(f.bit), uint32(last))
		}
		last = f.bit
	}
	judge := func(v canned.FaultType) {
		for _, f := range flags {
			t.Count("flags", 1)
			if got := f.ask(v); got != (v&f.bit != 0) {
				t.Fail("flag:"+f.name, "%s of fault type %#x is %v, its bit is %#x", f.name, uint32(v), got, uint32(f.bit))
			}
		}
	}
	judge(0)
	judge(0xFFFFFFFF)
	for i := 0; i < 32; i++ {
		judge(1 << i)
		judge(^canned.FaultType(1 << i))
		t.Eval(fmt.Sprintf("flag/%d", i))
	}
	for i := 0; i < 2000; i++ {
		judge(canned.FaultType(t.R.Uint32()))
	}
	for v := 0; v < 0x10000; v++ {
		f := canned.ForceStatus(v)
		if f.Exist() != (v&1 != 0) {
			t.Fail("forces-exist", "force status %#x: Exist is %v", v, f.Exist())
		}
		if f.Enabled() != (v&2 != 0) {
			t.Fail("forces-enabled", "force status %#x: Enabled is %v", v, f.Enabled())
		}
	}
	t.Eval("forces/all")
}
