package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"syscall"
	"time"

	"github.com/golang/protobuf/proto"
	"verifsim.local/hook"

	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/eventutil"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/mapinterface"
	"github.com/andrewkroh/go-sawmill/pkg/serialization/protobuf"
)

func init() {
	properties["C10"] = &Property{genC10, runC10}
	properties["C11"] = &Property{genC11, runC11}
}

// noNil turns missing values into null values: the formats know no difference.
func (v *MV) noNil() *MV {
	if v.isNil() {
		return &MV{T: "null"}
	}
	if v.T != "arr" && v.T != "obj" {
		return v
	}
	c := *v
	c.A = nil
	for _, x := range v.A {
		c.A = append(c.A, x.noNil())
	}
	if v.T == "obj" {
		c.O = map[string]*MV{}
		for k, x := range v.O {
			c.O[k] = x.noNil()
		}
	}
	return &c
}

// hasNil reports whether a value is missing somewhere.
func (v *MV) hasNil() bool {
	if v.isNil() {
		return true
	}
	for _, x := range v.A {
		if x.hasNil() {
			return true
		}
	}
	for _, x := range v.O {
		if x.hasNil() {
			return true
		}
	}
	return false
}

// kept compares what was stored (source), as the format can keep it
// (want), with what was read. A null value must be one again; a missing value
// may be.
func kept(source, want, got *MV) string {
	if source.hasNil() {
		got = got.noNil()
	}
	return diff(want.noNil(), got)
}

// asJSON is what JSON can keep of a value; ok is false if two keys collide.
func (v *MV) asJSON() (w *MV, ok bool) {
	switch {
	case v.isNil():
		return &MV{T: "null"}, true
	case v.T == "int":
		return mFloat(float64(v.I)), true
	case v.T == "uint":
		return mFloat(float64(v.U)), true
	case v.T == "str":
		return mStr(toValid(v.str())), true
	case v.T == "time":
		return mStr(time.Unix(0, v.I).UTC().Format(time.RFC3339Nano)), true
	case v.T == "arr":
		out := mArr()
		for _, x := range v.A {
			y, ok := x.asJSON()
			if !ok {
				return nil, false
			}
			out.A = append(out.A, y)
		}
		return out, true
	case v.T == "obj":
		out := mObj()
		for _, k := range v.keys() {
			y, ok := v.O[k].asJSON()
			if _, dup := out.O[toValid(k)]; dup || !ok {
				return nil, false
			}
			out.O[toValid(k)] = y
		}
		return out, true
	}
	return v, true
}

// has reports whether f holds for any value of a tree.
func (v *MV) has(f func(*MV) bool) bool {
	if f(v) {
		return true
	}
	if v == nil {
		return false
	}
	for _, x := range v.A {
		if x.has(f) {
			return true
		}
	}
	for _, x := range v.O {
		if x.has(f) {
			return true
		}
	}
	return false
}

func notFinite(v *MV) bool {
	if v == nil || v.T != "float" {
		return false
	}
	f := math.Float64frombits(v.U)
	return math.IsNaN(f) || math.IsInf(f, 0)
}

// buildEvent makes an event with the fields of an object. Keys that no field
// path can name are only reachable by decoding JSON.
func buildEvent(o *MV) *event.Event {
	evt := event.New()
	for _, k := range o.keys() {
		if k == "" || bytes.IndexByte([]byte(k), '\\') >= 0 {
			continue
		}
		if _, err := evt.Put(keyOf([]string{k}), o.O[k].build()); err != nil {
			panic(harnessBug("building an event: " + err.Error()))
		}
	}
	return evt
}

// jsonText renders a model value, without help of the code under test.
func (v *MV) jsonText(b *bytes.Buffer) {
	switch {
	case v.isNil() || v.T == "null":
		b.WriteString("null")
	case v.T == "arr":
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(',')
			}
			x.jsonText(b)
		}
		b.WriteByte(']')
	case v.T == "obj":
		b.WriteByte('{')
		for i, k := range v.keys() {
			if i > 0 {
				b.WriteByte(',')
			}
			s, _ := json.Marshal(k)
			b.Write(s)
			b.WriteByte(':')
			v.O[k].jsonText(b)
		}
		b.WriteByte('}')
	default:
		s, err := json.Marshal(v.goValue())
		if v.T == "time" {
			s, err = json.Marshal(time.Unix(0, v.I).UTC().Format(time.RFC3339Nano))
		}
		if err != nil {
			s = []byte("null")
		}
		b.Write(s)
	}
}

// rawKey makes keys that only serialised events can have, too.
func rawKey(r *Rng) string {
	switch r.N(14) {
	case 0:
		return ""
	case 1:
		return `\`
	case 2:
		return `a\.b`
	case 3:
		return "."
	case 4:
		return "a."
	}
	return anyKey(r)
}

func rawObject(r *Rng, depth int) *MV {
	o := mObj()
	for i := r.N(5); i > 0; i-- {
		v := anyValue(r, depth+1)
		if r.P(0.2) && depth < 3 {
			v = rawObject(r, depth+1)
		}
		o.O[rawKey(r)] = v
	}
	return o
}

// --- C10 -------------------------------------------------------------------

// A task of C10 owns a few stored records. Its ops are
//
//	event   encode Val as Key ("proto" or "json") and store it as record I;
//	        Opts["from"] == "json" makes the event by decoding JSON
//	damage  damage record I (Opts: kind, and J, Chunk as positions)
//	read    read record I back in chunks
func genC10(r *Rng, thorough bool) *Plan {
	p := &Plan{Variant: "intact"}
	damage := r.P(0.7)
	if damage {
		p.Variant = "damaged"
	}
	tasks := r.Range(1, 4)
	if thorough {
		tasks = r.Range(1, 8)
	}
	for t := 0; t < tasks; t++ {
		tp := &TaskPlan{}
		n := r.Range(1, 4)
		for i := 0; i < n; i++ {
			o := mObj()
			for k := r.N(6); k > 0; k-- {
				o.O[anyKey(r)] = anyValue(r, 0)
			}
			op := &Op{Op: "event", I: i, Key: r.Pick("proto", "json"), Val: o}
			if r.P(0.35) {
				op.Val = rawObject(r, 0)
				op.Opts = map[string]interface{}{"from": "json"}
			}
			if r.P(0.03) {
				op.Val = mObj()
			}
			if r.P(0.05) && op.Opts == nil {
				o.O["nan"] = mFloat([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.N(3)])
			}
			tp.Ops = append(tp.Ops, op)
		}
		for i := 0; i < n; i++ {
			if damage && r.P(0.8) {
				for k := r.Range(1, 3); k > 0; k-- {
					tp.Ops = append(tp.Ops, genDamage(r, i, n))
				}
			}
			if r.P(0.1) {
				tp.Ops = append(tp.Ops, &Op{Op: "readerr", I: i, J: r.N(400)})
			}
			rd := &Op{Op: "read", I: i}
			if r.P(0.35) {
				rd.J = 1 // into what was used before
			}
			switch r.N(4) {
			case 0:
				rd.Chunk = []int{1}
			case 1:
				rd.Chunk = []int{1 << 20}
			default:
				for k := r.Range(1, 12); k > 0; k-- {
					rd.Chunk = append(rd.Chunk, r.N(40))
				}
			}
			tp.Ops = append(tp.Ops, rd)
		}
		p.Tasks = append(p.Tasks, tp)
	}
	p.Pols = []hook.Policy{genPolicy(r, 3000*tasks)}
	return p
}

var damageKinds = []string{"truncate", "flip", "zero", "fill", "overwrite", "duplicate", "drop", "swap", "lost", "append", "byte", "nudge", "tail", "length", "length", "length"}

func genDamage(r *Rng, i, n int) *Op {
	o := &Op{Op: "damage", I: i, Key: damageKinds[r.N(len(damageKinds))], J: r.N(n)}
	// Positions are fractions of the record, in 1/65536.
	o.Chunk = []int{r.N(65536), r.N(65536), r.N(65536), r.N(256)}
	if r.P(0.3) {
		o.Chunk[0] = r.N(1500) // near the start
	}
	if r.P(0.5) {
		o.Chunk[1] = o.Chunk[0] + r.N(4000) // a short range
	}
	if o.Key == "length" && r.P(0.5) {
		o.Chunk[0] = 65535 - r.N(65536)*r.N(65536)/65536/2 // rather near the end
	}
	return o
}

// lengths finds the length prefixes of an encoded message.
func lengths(b []byte, off, depth int, out []int) []int {
	varint := func(i int) (uint64, int) {
		var x uint64
		for s := uint(0); i < len(b) && s < 64; s += 7 {
			c := b[i]
			i++
			x |= uint64(c&0x7f) << s
			if c < 0x80 {
				return x, i
			}
		}
		return 0, -1
	}
	for i := 0; i < len(b); {
		tag, j := varint(i)
		if j < 0 || tag>>3 == 0 {
			return nil
		}
		switch tag & 7 {
		case 0:
			if _, j = varint(j); j < 0 {
				return nil
			}
		case 1:
			j += 8
		case 5:
			j += 4
		case 2:
			n, k := varint(j)
			if k < 0 || n > uint64(len(b)-k) {
				return nil
			}
			out = append(out, off+j)
			if depth < 12 && n > 0 {
				if in := lengths(b[k:k+int(n)], off+k, depth+1, nil); in != nil {
					out = append(out, in...)
				}
			}
			j = k + int(n)
		default:
			return nil
		}
		if j > len(b) {
			return nil
		}
		i = j
	}
	return out
}

// applyDamage returns the damaged bytes.
func applyDamage(o *Op, recs [][]byte) []byte {
	b := append([]byte(nil), recs[o.I]...)
	c := append([]int(nil), o.Chunk...)
	for len(c) < 4 {
		c = append(c, 0)
	}
	at := func(f int, n int) int {
		x := f * (n + 1) / 65536
		if x < 0 {
			x = 0
		}
		if x > n {
			x = n
		}
		return x
	}
	lo, hi := at(c[0], len(b)), at(c[1], len(b))
	if lo > hi {
		lo, hi = hi, lo
	}
	switch o.Key {
	case "lost":
		return nil
	case "truncate":
		return b[:lo]
	case "flip":
		if lo < len(b) {
			b[lo] ^= 1 << (uint(c[3]) % 8)
		}
	case "byte":
		if lo < len(b) {
			b[lo] = byte(c[3])
		}
	case "nudge":
		if lo < len(b) {
			b[lo] += byte(c[3]%17 - 8)
		}
	case "tail":
		return b[:len(b)-min(len(b), c[3]%9)]
	case "length":
		ls := lengths(b, 0, 0, nil)
		if len(ls) > 0 {
			i := ls[at(c[0], len(ls)-1)]
			switch {
			case c[3] < 200:
				b[i] += byte(c[3]%17 - 8)
			case c[3] < 225:
				b[i] |= 0x80
			default:
				// A huge length.
				n := append([]byte(nil), b[:i]...)
				n = append(n, []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01}[c[3]%10:]...)
				return append(n, b[i+1:]...)
			}
		}
	case "zero":
		for i := lo; i < hi; i++ {
			b[i] = 0
		}
	case "fill":
		for i := lo; i < hi; i++ {
			b[i] = byte(c[3])
		}
	case "overwrite": // with an old record's block
		if o.J >= 0 && o.J < len(recs) && len(recs[o.J]) > 0 {
			src := recs[o.J]
			off := at(c[2], len(src)-1)
			for i := lo; i < hi; i++ {
				b[i] = src[(off+i-lo)%len(src)]
			}
		}
	case "duplicate":
		return append(append(append([]byte(nil), b[:hi]...), b[lo:hi]...), b[hi:]...)
	case "drop":
		return append(append([]byte(nil), b[:lo]...), b[hi:]...)
	case "swap":
		mid := (lo + hi) / 2
		n := append([]byte(nil), b[:lo]...)
		n = append(n, b[mid:hi]...)
		n = append(n, b[lo:mid]...)
		return append(n, b[hi:]...)
	case "append":
		if o.J >= 0 && o.J < len(recs) {
			src := recs[o.J]
			off := at(c[2], len(src))
			return append(b, src[off:]...)
		}
	}
	return b
}

// chunkReader is the simulated storage being read.
type chunkReader struct {
	data   []byte
	chunks []int
	i      int
	failAt int // -1 never
	off    int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	hook.Y(32755)
	if c.failAt >= 0 && c.off >= c.failAt {
		return 0, syscall.EIO
	}
	n := len(p)
	if len(c.chunks) > 0 {
		n = c.chunks[c.i%len(c.chunks)]
		c.i++
		if n == 0 && c.i%7 == 0 {
			n = 1
		}
	}
	if n > len(p) {
		n = len(p)
	}
	if c.failAt >= 0 && n > c.failAt-c.off {
		n = c.failAt - c.off
	}
	n = copy(p[:n], c.data[c.off:])
	c.off += n
	if c.off == len(c.data) && n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

// record is a stored event.
type record struct {
	format  string
	want    *MV // content
	stored  bool
	damaged bool
	failAt  int
}

var errBadLog = errors.New("message holds no log")

// encode is what a user does to store an event.
func encodeEvent(evt *event.Event, format string) ([]byte, error) {
	if format == "json" {
		return json.Marshal(evt)
	}
	return proto.Marshal(protobuf.FromEvent(evt))
}

// reader is what a user keeps to read events, if not new for each of them.
type reader struct {
	evt *event.Event
	msg *protobuf.MessageWrapper
}

func newReader() *reader { return &reader{evt: event.New(), msg: &protobuf.MessageWrapper{}} }

// decode is what a user does to read an event; buf is overwritten afterwards.
func decodeEvent(buf []byte, format string, rd *reader) (*event.Event, error) {
	if format == "json" {
		evt := rd.evt
		if err := json.Unmarshal(buf, evt); err != nil {
			return nil, err
		}
		return evt, nil
	}
	m := rd.msg
	if err := proto.Unmarshal(buf, m); err != nil {
		return nil, err
	}
	if m.GetLog() == nil {
		return nil, errBadLog
	}
	return protobuf.ToLogEvent(m.GetLog()), nil
}

func readAll(r io.Reader) ([]byte, error) {
	var out []byte
	buf := make([]byte, 64)
	for idle := 0; idle < 10000; {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
		if idle++; n > 0 {
			idle = 0
		}
	}
	return out, nil
}

func runC10(p *Plan, s *Stats) *Violation {
	viols := make([]*Violation, len(p.Tasks))
	notes := make([][]string, len(p.Tasks))
	var names []string
	var bodies []func()
	pipe, err := pipeline.New(usePipe())
	if err != nil {
		return viol("usable", "building a pipeline: %v", err)
	}
	for t, tp := range p.Tasks {
		t, ops := t, tp.Ops
		names = append(names, "task"+strconv.Itoa(t))
		bodies = append(bodies, func() {
			recs := [16]*record{}
			data := make([][]byte, 16)
			var kept []*event.Event
			var keptWant []*MV
			again := newReader()
			for _, o := range ops {
				if hook.Dead() {
					return
				}
				if o.I < 0 || o.I > 15 {
					continue
				}
				switch o.Op {
				case "event":
					if o.Val.isNil() || o.Val.T != "obj" || o.Key != "proto" && o.Key != "json" {
						continue
					}
					rec, b, v := storeEvent(o)
					if v != nil {
						viols[t] = v
						return
					}
					rec.failAt = -1
					recs[o.I], data[o.I] = rec, b
				case "damage":
					if recs[o.I] == nil || !recs[o.I].stored {
						continue
					}
					nb := applyDamage(o, data)
					if !bytes.Equal(nb, data[o.I]) {
						recs[o.I].damaged = true
						s.fault("storage: " + o.Key)
						data[o.I] = nb
					}
				case "readerr":
					if recs[o.I] != nil && o.J < len(data[o.I]) {
						recs[o.I].failAt = o.J
						s.fault("storage: read error")
					}
				case "read":
					rec := recs[o.I]
					if rec == nil || !rec.stored {
						continue
					}
					rr := newReader()
					if o.J > 0 {
						rr = again
					}
					evt, v := readBack(rec, data[o.I], o.Chunk, rr, pipe, &notes[t])
					if v != nil {
						viols[t] = v
						return
					}
					if evt != nil && evt != again.evt {
						kept = append(kept, evt)
						keptWant = append(keptWant, content(evt))
					}
				}
			}
			for i, e := range kept {
				if d := diff(keptWant[i], content(e)); d != "" {
					viols[t] = viol("buffer", "a decoded event changed later: %s", d)
					return
				}
			}
		})
	}
	if _, v := s.simulate(p, 0, names, bodies); v != nil {
		return v
	}
	for t := range bodies {
		if viols[t] != nil {
			return viols[t]
		}
		for _, n := range notes[t] {
			if len(n) > 2 && n[1] == ':' {
				s.count(n[2:], 1)
				continue
			}
			s.state(n)
		}
	}
	return nil
}

// usePipe is a definition that touches fields of every kind.
func usePipe() *pipeline.Config {
	d := &PDef{ID: "use", Procs: []*PProc{
		{Type: "set", Opts: map[string]interface{}{"target_field": "x.set", "copy_from": "a", "ignore_failure": true, "ignore_missing": true}},
		{Type: "append", Opts: map[string]interface{}{"field": "b", "value": "more", "ignore_failure": true, "ignore_missing": true}},
		{Type: "lowercase", Opts: map[string]interface{}{"field": "c", "ignore_failure": true, "ignore_missing": true}},
		{Type: "uppercase", Opts: map[string]interface{}{"field": "d", "target_field": "e.f.g", "ignore_failure": true, "ignore_missing": true}},
		{Type: "set", Opts: map[string]interface{}{"target_field": "h.i", "value": "v", "ignore_failure": true}},
	}}
	return d.config()
}

func storeEvent(o *Op) (*record, []byte, *Violation) {
	var evt *event.Event
	if optStr(o.Opts, "from") == "json" {
		var b bytes.Buffer
		o.Val.jsonText(&b)
		evt = event.New()
		if err := json.Unmarshal(b.Bytes(), evt); err != nil {
			return nil, nil, viol("decode", "valid JSON was not decoded: %v: %.300s", err, b.Bytes())
		}
		want, ok := o.Val.asJSON()
		if ok {
			if d := kept(o.Val, want, content(evt)); d != "" {
				return nil, nil, viol("decode", "event decoded from JSON: %s", d)
			}
		}
	} else {
		evt = buildEvent(o.Val)
	}
	before := content(evt)
	b, err := encodeEvent(evt, o.Key)
	if d := diff(before, content(evt)); d != "" {
		return nil, nil, viol("encode-modifies", "encoding to %s modified the event: %s", o.Key, d)
	}
	rec := &record{format: o.Key, want: before}
	if err != nil {
		// Only values that the format does not have may be refused.
		refused := o.Key == "json" && before.has(notFinite) ||
			o.Key == "proto" && before.has(func(v *MV) bool { return v != nil && v.O != nil && badKeys(v) })
		if !refused {
			return nil, nil, viol("encode", "event %s cannot be encoded to %s: %v", before, o.Key, err)
		}
		return rec, nil, nil
	}
	rec.stored = true
	return rec, append([]byte(nil), b...), nil
}

func badKeys(v *MV) bool {
	for k := range v.O {
		if toValid(k) != k {
			return true
		}
	}
	return false
}

// readBack reads a stored record and checks the result. It returns an event
// that must stay as it is.
func readBack(rec *record, data []byte, chunks []int, rr *reader, pipe *pipeline.Pipeline, notes *[]string) (*event.Event, *Violation) {
	rd := &chunkReader{data: data, chunks: chunks, failAt: rec.failAt}
	var evt *event.Event
	var err error
	ioFailed := false
	if rec.format == "json" && rec.failAt < 0 && len(chunks)%2 == 0 {
		// Streaming decoder.
		evt = rr.evt
		err = json.NewDecoder(rd).Decode(evt)
	} else {
		var buf []byte
		buf, err = readAll(rd)
		buf = append(make([]byte, 0, len(buf)), buf...) // nothing follows the record
		ioFailed = err != nil
		if err == nil || rec.format == "proto" {
			evt, err = decodeEvent(buf, rec.format, rr)
			for i := range buf {
				buf[i] = 0xa5 // the buffer is used for something else
			}
		}
	}
	if !rec.damaged && !ioFailed {
		if err != nil {
			return nil, viol("lost", "intact %s record was not decoded: %v", rec.format, err)
		}
		if evt == nil {
			return nil, viol("lost", "intact %s record gave no event, want %s", rec.format, rec.want)
		}
		want, ok := rec.want.noNil(), true
		if rec.format == "json" {
			want, ok = rec.want.asJSON()
		}
		if ok {
			if d := kept(rec.want, want, content(evt)); d != "" {
				return nil, viol("changed", "event stored as %s and read back: %s", rec.format, d)
			}
		}
		*notes = append(*notes, "n:intact "+rec.format)
	} else if err != nil {
		*notes = append(*notes, "n:damaged "+rec.format+" refused")
		return nil, nil
	} else if evt == nil {
		*notes = append(*notes, "n:damaged "+rec.format+" without event")
		return nil, nil
	} else {
		*notes = append(*notes, "n:damaged "+rec.format+" decoded")
	}
	*notes = append(*notes, rec.format+content(evt).full())
	return evt, usable(evt, rec.format, pipe)
}

// usable checks that an event can be read, encoded, modified and processed.
// The event itself stays as it is.
func usable(evt *event.Event, format string, pipe *pipeline.Pipeline) *Violation {
	c := content(evt)
	_ = fmt.Sprintf("%v", evt)
	_ = mapinterface.FromEvent(evt)
	for _, f := range []string{"proto", "json"} {
		b, err := encodeEvent(evt, f)
		if err != nil {
			continue
		}
		again, err := decodeEvent(b, f, newReader())
		if err != nil {
			return viol("usable", "event %s decoded from %s, encoded to %s, cannot be decoded: %v", c, format, f, err)
		}
		if again == nil {
			return viol("usable", "event %s decoded from %s, encoded to %s, gives no event", c, format, f)
		}
		want, ok := c.noNil(), true
		if f == "json" {
			want, ok = c.asJSON()
		}
		if ok {
			if d := kept(c, want, content(again)); d != "" {
				return viol("usable", "event decoded from %s, encoded to %s and decoded: %s", format, f, d)
			}
		}
		// Modify and process this copy.
		if v := modify(again, pipe); v != nil {
			return v
		}
	}
	if d := diff(c, content(evt)); d != "" {
		return viol("usable", "event changed when its copy was modified: %s", d)
	}
	return nil
}

func modify(evt *event.Event, pipe *pipeline.Pipeline) *Violation {
	model := content(evt)
	var paths [][]string
	var walk func(v *MV, path []string)
	walk = func(v *MV, path []string) {
		if len(path) > 0 {
			paths = append(paths, append([]string(nil), path...))
		}
		if v != nil && len(paths) < 40 {
			for _, k := range v.keys() {
				if nameable(k) {
					walk(v.O[k], append(path, k))
				}
			}
		}
	}
	walk(model, nil)
	for i, path := range paths {
		key := keyOf(path)
		if d := diff(model.get(path).noNil(), fromValue(evt.Get(key)).noNil()); d != "" {
			return viol("usable", "reading %q of a decoded event: %s", key, d)
		}
		below := append(append([]string(nil), path...), "below")
		switch i % 3 {
		case 0:
			x := mInt(int64(i))
			if model.put(below, x) {
				if _, err := evt.Put(keyOf(below), x.build()); err != nil {
					return viol("usable", "decoded event refuses %q: %v", keyOf(below), err)
				}
			} else if _, err := evt.Put(keyOf(below), x.build()); err == nil {
				return viol("usable", "decoded event accepts %q below a value that is no object", keyOf(below))
			}
		case 1:
			_, err := evt.TryPut(keyOf(below), event.String("x"))
			switch {
			case model.get(below) != nil:
				if err == nil {
					return viol("usable", "decoded event replaces %q", keyOf(below))
				}
			case model.put(below, mStr("x")) != (err == nil):
				return viol("usable", "decoded event adding %q: %v", keyOf(below), err)
			}
		case 2:
			if i%2 == 0 {
				evt.Delete(key)
				model.del(path)
			}
		}
	}
	for i, path := range [][]string{{"new", "field", "0"}, {"new", "field", "1"}} {
		x := mBool(i == 0)
		if _, err := evt.Put(keyOf(path), x.build()); (err == nil) != model.put(path, x) {
			return viol("usable", "decoded event adding %q: %v", keyOf(path), err)
		}
	}
	if d := diff(model.noNil(), content(evt).noNil()); d != "" {
		return viol("usable", "a decoded event after modifying it: %s", d)
	}
	out, err := pipe.Process(evt)
	if err == nil && out != nil {
		_ = content(out)
		encodeEvent(out, "proto")
		encodeEvent(out, "json")
	}
	return nil
}

// nameable: the key of a field path can be written down.
func nameable(k string) bool {
	return k != "" && bytes.IndexByte([]byte(k), '\\') < 0
}

// --- C11 -------------------------------------------------------------------

// Task t of C11 owns event t while "N" is counting histories; the remaining
// tasks read all events concurrently.
func genC11(r *Rng, thorough bool) *Plan {
	p := &Plan{Variant: "history"}
	p.N = r.Range(1, 3)
	max := 25
	if thorough {
		max = 80
	}
	for t := 0; t < p.N; t++ {
		tp := &TaskPlan{}
		if r.P(0.5) {
			op := &Op{Op: "start", Val: rawObject(r, 0), Key: r.Pick("json", "put", "map", "proto")}
			if r.P(0.3) {
				op.Val.O["a"] = &MV{T: "null"}
				op.Val.O["n"] = &MV{T: "obj", O: map[string]*MV{"b": {T: "null"}, "c": mArr(&MV{T: "null"})}}
			}
			tp.Ops = append(tp.Ops, op)
		}
		focus := ""
		if r.P(0.15) {
			focus = r.Pick("append", "append", "tryput", "delete")
		}
		for k := r.Range(1, max); k > 0; k-- {
			tp.Ops = append(tp.Ops, genEventOp(r, focus))
		}
		p.Tasks = append(p.Tasks, tp)
	}
	for t := r.N(4); t > 0; t-- {
		tp := &TaskPlan{}
		for k := r.Range(1, 6); k > 0; k-- {
			o := &Op{Op: r.Pick("get", "get", "root", "json", "proto", "map", "fmt", "text"), I: r.N(p.N)}
			o.Path = genPath(r)
			tp.Ops = append(tp.Ops, o)
		}
		p.Tasks = append(p.Tasks, tp)
		p.Variant = "history+readers"
	}
	p.Pols = []hook.Policy{genPolicy(r, 1500), genPolicy(r, 3000)}
	return p
}

func genPath(r *Rng) []string {
	n := r.Weighted(0, 5, 5, 3, 1)
	if r.P(0.04) {
		n = r.Range(5, 12)
		if r.P(0.25) {
			n = r.Range(12, 70)
		}
	}
	var out []string
	for i := 0; i < n; i++ {
		switch r.N(12) {
		case 0:
			out = append(out, "x.y")
		case 1:
			out = append(out, ".")
		case 2:
			out = append(out, "n")
		default:
			out = append(out, r.Pick("a", "b", "c"))
		}
	}
	return out
}

func genEventOp(r *Rng, focus string) *Op {
	o := &Op{Path: genPath(r)}
	if r.P(0.04) {
		o.Path = nil
		o.Key = r.Pick("", ".", "..")
	}
	o.Op = []string{"put", "put", "put", "tryput", "tryput", "delete", "delete", "get", "append", "move", "again"}[r.N(11)]
	if focus != "" && r.P(0.6) {
		o.Op = focus
		if len(o.Path) > 1 && r.P(0.7) {
			o.Path = o.Path[:1]
		}
	}
	if o.Op == "again" {
		o.I = r.N(2)
	}
	if o.Op == "move" {
		o.To = genPath(r)
	}
	if o.Op == "put" || o.Op == "tryput" || o.Op == "append" {
		o.Val = anyValue(r, 1)
		if o.Op == "append" {
			o.J = []int{0, 0, 1, 2, 2}[r.N(5)]
		}
		switch r.N(12) {
		case 0:
			o.Val = nil
		case 1:
			o.Val = &MV{T: "obj", B: true} // object without a map
		case 2, 3:
			o.Val = &MV{T: "obj", O: map[string]*MV{"a": mStr("inner"), "b": mObj()}}
		}
	}
	return o
}

func (o *Op) eventKey() string {
	if len(o.Path) == 0 {
		return o.Key
	}
	return keyOf(o.Path)
}

func (o *Op) build() *event.Value {
	return o.Val.build()
}

// startEvent makes the first content of an event.
func startEvent(o *Op) (*event.Event, *Violation) {
	switch o.Key {
	case "json", "proto":
		var b bytes.Buffer
		o.Val.jsonText(&b)
		evt := event.New()
		if err := json.Unmarshal(b.Bytes(), evt); err != nil {
			return nil, viol("start", "valid JSON was not decoded: %v", err)
		}
		if o.Key == "proto" {
			x, err := decodeOK(evt)
			if err != nil {
				return nil, viol("start", "event %s: %v", content(evt), err)
			}
			evt = x
		}
		return evt, nil
	case "map":
		m := map[string]interface{}{}
		for k, v := range o.Val.O {
			m[k] = v.goValue()
		}
		evt, err := mapinterface.ToEvent(m)
		if err != nil {
			return nil, viol("start", "map was not converted: %v", err)
		}
		return evt, nil
	}
	return buildEvent(o.Val), nil
}

func decodeOK(evt *event.Event) (*event.Event, error) {
	b, err := encodeEvent(evt, "proto")
	if err != nil {
		return nil, err
	}
	x, err := decodeEvent(b, "proto", newReader())
	if err == nil && x == nil {
		err = errors.New("no event")
	}
	return x, err
}

func sameValue(m *MV, v *event.Value) bool {
	if v == nil || m.isNil() {
		return v == nil && m.isNil()
	}
	return diff(m, fromValue(v)) == ""
}

// history runs the operations of one task on its event.
func history(ops []*Op) (evt *event.Event, model *MV, viola *Violation) {
	evt, model = event.New(), mObj()
	type old struct {
		v    *event.Value
		want *MV
		what string
	}
	var olds []old
	var lastItem *event.Value
	var lastVal *MV
	for i, o := range ops {
		if hook.Dead() {
			return
		}
		what := fmt.Sprintf("operation %d (%s %q %s)", i, o.Op, o.eventKey(), o.Val)
		switch o.Op {
		case "start":
			if o.Val.isNil() || o.Val.T != "obj" {
				continue
			}
			var v *Violation
			if evt, v = startEvent(o); v != nil {
				return nil, nil, v
			}
			model = content(evt)
			if o.Key == "json" {
				if want, ok := o.Val.asJSON(); ok {
					if d := kept(o.Val, want, model); d != "" {
						return nil, nil, viol("start", "event decoded from JSON: %s", d)
					}
				}
			}
			continue
		case "put", "tryput":
			val := o.build()
			var got *event.Value
			var err error
			if o.Op == "put" {
				got, err = evt.Put(o.eventKey(), val)
			} else {
				got, err = evt.TryPut(o.eventKey(), val)
			}
			if len(o.Path) == 0 {
				if !errors.Is(err, event.ErrEmptyKey) {
					return nil, nil, viol("result", "%s: want ErrEmptyKey, got %v", what, err)
				}
				break
			}
			if o.Val.isNil() {
				if err != nil || got != nil {
					return nil, nil, viol("result", "%s: want nothing, got %v, %v", what, got, err)
				}
				break
			}
			want := model.get(o.Path)
			switch {
			case o.Op == "tryput" && want != nil:
				if !errors.Is(err, event.ErrKeyExists) || !sameValue(want, got) {
					return nil, nil, viol("result", "%s: want the existing %s and ErrKeyExists, got %s, %v", what, want, fromValue(got), err)
				}
			case !model.put(o.Path, o.Val.fresh()):
				if !errors.Is(err, event.ErrTargetKeyNotObject) || got != nil {
					return nil, nil, viol("result", "%s: want ErrTargetKeyNotObject, got %s, %v", what, fromValue(got), err)
				}
			default:
				if err != nil || !sameValue(want, got) {
					return nil, nil, viol("result", "%s: want old value %s, got %s, %v", what, want, fromValue(got), err)
				}
				if got != nil {
					olds = append(olds, old{got, fromValue(got), what})
				}
			}
		case "append":
			item, val := o.build(), o.Val
			if o.J == 1 && lastItem != nil {
				// The value of the previous one once more.
				item, val = lastItem, lastVal
			} else if item != nil && item.Type == event.ArrayType && o.J == 2 {
				item.Array = append(make([]*event.Value, 0, len(item.Array)+4), item.Array...)
			}
			lastItem, lastVal = item, val
			err := eventutil.Append(evt, o.eventKey(), item)
			if !sameValue(val, item) {
				return nil, nil, viol("content", "%s: the appended value was changed to %s", what, fromValue(item))
			}
			if val.isNil() {
				if err != nil {
					return nil, nil, viol("result", "%s: want nothing, got %v", what, err)
				}
				break
			}
			if len(o.Path) == 0 {
				if !errors.Is(err, event.ErrEmptyKey) {
					return nil, nil, viol("result", "%s: want ErrEmptyKey, got %v", what, err)
				}
				break
			}
			arr := mArr()
			if was := model.get(o.Path); was != nil && was.T == "arr" {
				arr.A = append(arr.A, was.A...)
			} else if was != nil {
				arr.A = append(arr.A, was)
			}
			if add := val.fresh(); add.T == "arr" {
				arr.A = append(arr.A, add.A...)
			} else {
				arr.A = append(arr.A, add)
			}
			if !model.put(o.Path, arr) {
				if !errors.Is(err, event.ErrTargetKeyNotObject) {
					return nil, nil, viol("result", "%s: want ErrTargetKeyNotObject, got %v", what, err)
				}
			} else if err != nil {
				return nil, nil, viol("result", "%s: failed: %v", what, err)
			}
		case "delete":
			got := evt.Delete(o.eventKey())
			var want *MV
			if len(o.Path) > 0 {
				want = model.del(o.Path)
			}
			if !sameValue(want, got) {
				return nil, nil, viol("result", "%s: want %s, got %s", what, want, fromValue(got))
			}
			if got != nil {
				olds = append(olds, old{got, fromValue(got), what})
			}
		case "again":
			// The value that is there is put there again.
			want := model.get(o.Path)
			if want == nil || len(o.Path) == 0 {
				continue
			}
			put := evt.Put
			if o.I%2 == 1 {
				put = evt.TryPut
			}
			got, err := put(o.eventKey(), evt.Get(o.eventKey()))
			if o.I%2 == 1 && !errors.Is(err, event.ErrKeyExists) || o.I%2 == 0 && err != nil || !sameValue(want, got) {
				return nil, nil, viol("result", "%s: want old value %s, got %s, %v", what, want, fromValue(got), err)
			}
		case "move":
			// The value is deleted and put elsewhere.
			want := model.get(o.Path)
			if want == nil || len(o.Path) == 0 || len(o.To) == 0 {
				continue
			}
			v := evt.Delete(o.eventKey())
			model.del(o.Path)
			if !sameValue(want, v) {
				return nil, nil, viol("result", "%s: want %s, got %s", what, want, fromValue(v))
			}
			was := model.get(o.To)
			got, err := evt.Put(keyOf(o.To), v)
			if !model.put(o.To, want) {
				if !errors.Is(err, event.ErrTargetKeyNotObject) || got != nil {
					return nil, nil, viol("result", "%s to %q: want ErrTargetKeyNotObject, got %s, %v", what, keyOf(o.To), fromValue(got), err)
				}
			} else if err != nil || !sameValue(was, got) {
				return nil, nil, viol("result", "%s to %q: want old value %s, got %s, %v", what, keyOf(o.To), was, fromValue(got), err)
			}
		case "get":
			got := evt.Get(o.eventKey())
			if len(o.Path) == 0 {
				break
			}
			if want := model.get(o.Path); !sameValue(want, got) {
				return nil, nil, viol("result", "%s: want %s, got %s", what, want, fromValue(got))
			}
		default:
			continue
		}
		if d := diff(model, content(evt)); d != "" {
			return nil, nil, viol("content", "content after %s: %s", what, d)
		}
	}
	for _, x := range olds {
		if d := diff(x.want, fromValue(x.v)); d != "" {
			return nil, nil, viol("old-value", "value returned by %s changed later: %s", x.what, d)
		}
	}
	return evt, model, nil
}

// fresh is the model value of a newly built value.
func (v *MV) fresh() *MV {
	c := v.clone()
	if c.T == "obj" && c.O == nil {
		c.O = map[string]*MV{}
	}
	return c
}

func runC11(p *Plan, s *Stats) *Violation {
	n := p.N
	if n > len(p.Tasks) {
		n = len(p.Tasks)
	}
	if n < 1 {
		return nil
	}
	events := make([]*event.Event, n)
	models := make([]*MV, n)
	viols := make([]*Violation, len(p.Tasks))
	var names []string
	var bodies []func()
	for t := 0; t < n; t++ {
		t := t
		names = append(names, "owner"+strconv.Itoa(t))
		bodies = append(bodies, func() { events[t], models[t], viols[t] = history(p.Tasks[t].Ops) })
	}
	if _, v := s.simulate(p, 0, names, bodies); v != nil {
		return v
	}
	for t := 0; t < n; t++ {
		if viols[t] != nil {
			return viols[t]
		}
		s.state(models[t].full())
	}
	if len(p.Tasks) == n {
		return nil
	}
	names, bodies = nil, nil
	for t := n; t < len(p.Tasks); t++ {
		t := t
		names = append(names, "reader"+strconv.Itoa(t))
		bodies = append(bodies, func() {
			for _, o := range p.Tasks[t].Ops {
				if hook.Dead() {
					return
				}
				if o.I < 0 || o.I >= n {
					continue
				}
				if v := readEvent(o, events[o.I], models[o.I]); v != nil {
					viols[t] = v
					return
				}
			}
		})
	}
	if _, v := s.simulate(p, 1, names, bodies); v != nil {
		return v
	}
	for t := n; t < len(p.Tasks); t++ {
		if viols[t] != nil {
			return viols[t]
		}
	}
	for t := 0; t < n; t++ {
		if d := diff(models[t], content(events[t])); d != "" {
			return viol("reader-writes", "event changed by readers: %s", d)
		}
	}
	return nil
}

// readEvent is one read of an event that several tasks read.
func readEvent(o *Op, evt *event.Event, model *MV) *Violation {
	switch o.Op {
	case "get":
		if len(o.Path) == 0 {
			return nil
		}
		if got, want := evt.Get(keyOf(o.Path)), model.get(o.Path); !sameValue(want, got) {
			return viol("reader", "reading %q: want %s, got %s", keyOf(o.Path), want, fromValue(got))
		}
	case "root":
		if d := diff(model, content(evt)); d != "" {
			return viol("reader", "reading the root: %s", d)
		}
	case "json", "proto":
		b, err := encodeEvent(evt, o.Op)
		if err != nil {
			return nil
		}
		x, err := decodeEvent(b, o.Op, newReader())
		if err != nil || x == nil {
			return viol("reader", "converting %s to %s and back: %v", model, o.Op, err)
		}
		want, ok := model.noNil(), true
		if o.Op == "json" {
			want, ok = model.asJSON()
		}
		if ok {
			if d := kept(model, want, content(x)); d != "" {
				return viol("reader", "converting to %s and back: %s", o.Op, d)
			}
		}
	case "map":
		if d := mapDiff(model, mapinterface.FromEvent(evt)); d != "" {
			return viol("reader", "converting to a map: %s", d)
		}
	case "fmt", "text":
		if root := evt.Get("."); root != nil {
			if o.Op == "fmt" {
				_ = fmt.Sprintf("%v", root)
			} else {
				for _, k := range sortedKeys(root.Object) {
					_ = fmt.Sprint(root.Object[k], root.Object[k] != nil && root.Object[k].Type.String() == "x")
				}
			}
		}
	}
	return nil
}

// mapDiff compares with the plain Go form.
func mapDiff(v *MV, x interface{}) string {
	bad := func() string { return fmt.Sprintf("want %s, got %v", v, x) }
	if v.isNil() || v.T == "null" {
		if x == nil {
			return ""
		}
		return bad()
	}
	switch v.T {
	case "obj":
		m, ok := x.(map[string]interface{})
		if !ok && x != nil || len(m) != len(v.O) {
			return bad()
		}
		for _, k := range v.keys() {
			y := v.O[k]
			z, ok := m[k]
			if !ok {
				return fmt.Sprintf("missing %q", k)
			}
			if d := mapDiff(y, z); d != "" {
				return k + ": " + d
			}
		}
	case "arr":
		a, ok := x.([]interface{})
		if !ok || len(a) != len(v.A) {
			return bad()
		}
		for i := range a {
			if d := mapDiff(v.A[i], a[i]); d != "" {
				return strconv.Itoa(i) + ": " + d
			}
		}
	case "time":
		t, ok := x.(time.Time)
		if !ok || !t.Equal(time.Unix(0, v.I)) {
			return bad()
		}
	default:
		var y *MV
		switch z := x.(type) {
		case bool:
			y = mBool(z)
		case float64:
			y = mFloat(z)
		case int64:
			y = mInt(z)
		case uint64:
			y = mUint(z)
		case string:
			y = mStr(z)
		}
		if diff(v, y) != "" {
			return bad()
		}
	}
	return ""
}
