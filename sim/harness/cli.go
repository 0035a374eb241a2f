package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net/http"
	"os"
	"os/exec"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"gopkg.in/yaml.v3"
	"verifsim.local/hook"

	"github.com/andrewkroh/go-sawmill/internal/verifsim/cmdsawmill"
	simflag "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/flag_cmdsawmill"
	simhttp "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/http"
	simlog "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/log"
	simnet "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/net"
	simos "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/os"
	"github.com/andrewkroh/go-sawmill/pkg/event"
	"github.com/andrewkroh/go-sawmill/pkg/pipeline"
)

func init() {
	for _, id := range []string{"C06", "C07", "C08", "C15", "C16"} {
		id := id
		properties[id] = &Property{
			func(r *Rng, thorough bool) *Plan { return genCLIPlan(r, thorough, id) },
			runCLIPlan,
		}
	}
}

// CLIPlan is one run of the sawmill command.
type CLIPlan struct {
	Lines    []*Line    `json:"lines,omitempty"`
	NoFinal  bool       `json:"no_final,omitempty"` // no newline after the last line
	Reads    []int      `json:"reads,omitempty"`    // sizes of the first reads; 0 is an empty read
	ReadErr  *IOFault   `json:"read_err,omitempty"` // At is an offset of the input
	Out      []*IOFault `json:"out,omitempty"`      // At is the index of a write
	Err      []*IOFault `json:"err,omitempty"`
	Def      string     `json:"def,omitempty"` // fault of the definition: missing, readerr, trunc, empty, null, garbage
	DefAt    int        `json:"def_at,omitempty"`
	DefReads []int      `json:"def_reads,omitempty"`
	Block    bool       `json:"block,omitempty"` // definition in YAML block style
	Bind     string     `json:"bind,omitempty"`  // listening fails
	KillStep int        `json:"kill_step,omitempty"`
	Scrapes  int        `json:"scrapes,omitempty"`
	Settle   bool       `json:"settle,omitempty"` // C13: everything else settles before each read
	Seed     uint64     `json:"seed,omitempty"`
	Prof     *Prof      `json:"prof,omitempty"`
	Boot     uint64     `json:"boot,omitempty"`  // C16: also executed in another process
	Again    []*CLIPlan `json:"again,omitempty"` // C16: runs with other incidental circumstances
}

// Line is a line of input.
type Line struct {
	S string `json:"s,omitempty"`
	X []byte `json:"x,omitempty"` // instead of S, if not UTF-8
	N int    `json:"n,omitempty"` // repetitions of S
	B int    `json:"b,omitempty"` // empty lines before this one
}

func (l *Line) text() string {
	if l.X != nil {
		return string(l.X)
	}
	if l.N > 1 {
		n := l.N
		if n > 300000 {
			n = 300000
		}
		return strings.Repeat(l.S, n)
	}
	return l.S
}

// IOFault is a fault of a stream.
type IOFault struct {
	At     int    `json:"at,omitempty"`
	N      int    `json:"n,omitempty"`     // bytes transferred nevertheless
	Err    string `json:"err,omitempty"`   // EIO, ENOSPC, EPIPE, EAGAIN, unexpected
	Count  int    `json:"count,omitempty"` // how many operations fail; 0 is all that follow
	Kill   bool   `json:"kill,omitempty"`  // the process dies instead
	ThenOK bool   `json:"then_ok,omitempty"`
}

func (f *IOFault) err() error {
	switch f.Err {
	case "ENOSPC":
		return syscall.ENOSPC
	case "EPIPE", "epipe": // the latter without the signal
		return syscall.EPIPE
	case "EAGAIN":
		return syscall.EAGAIN
	case "unexpected":
		return io.ErrUnexpectedEOF
	case "closed":
		return os.ErrClosed
	case "deadline":
		return os.ErrDeadlineExceeded
	case "nomem":
		return syscall.ENOMEM
	case "reset":
		return syscall.ECONNRESET
	case "noprogress":
		return io.ErrNoProgress
	case "timeout":
		return errors.New("i/o timeout")
	case "EFBIG":
		return syscall.EFBIG
	case "EDQUOT":
		return syscall.EDQUOT
	case "EBADF":
		return syscall.EBADF
	case "ESTALE":
		return syscall.ESTALE
	case "ENXIO":
		return syscall.ENXIO
	case "ETIMEDOUT":
		return syscall.ETIMEDOUT
	}
	return syscall.EIO
}

func (c *CLIPlan) sanitize() {
	var ls []*Line
	for _, l := range c.Lines {
		if l != nil {
			ls = append(ls, l)
		}
	}
	c.Lines = ls
	switch c.Def {
	case "missing", "readerr", "trunc", "empty", "null", "garbage", "invalid", "dir", "badtype":
	default:
		c.Def = ""
	}
	clean := func(fs []*IOFault) []*IOFault {
		var out []*IOFault
		for _, f := range fs {
			if f != nil {
				out = append(out, f)
			}
		}
		return out
	}
	c.Out, c.Err = clean(c.Out), clean(c.Err)
	if c.Prof != nil {
		c.Prof.sanitize()
	}
	var again []*CLIPlan
	for _, a := range c.Again {
		if a != nil {
			a.Again = nil
			a.sanitize()
			again = append(again, a)
		}
	}
	c.Again = again
}

func (c *CLIPlan) input() []byte {
	var b bytes.Buffer
	for i, l := range c.Lines {
		if l.B > 0 {
			b.WriteString(strings.Repeat("\n", min(l.B, 300000)))
		}
		b.WriteString(strings.ReplaceAll(l.text(), "\n", " "))
		if i < len(c.Lines)-1 || !c.NoFinal {
			b.WriteByte('\n')
		}
	}
	return b.Bytes()
}

const maxLine = 60000 // lines up to this length must be handled

// --- generation ------------------------------------------------------------

func genLine(r *Rng, g *defGen, d *PDef, i int) *Line {
	switch r.Weighted(12, 2, 1, 1, 1, 1, 1) {
	case 1:
		return &Line{S: r.Pick("", " ", "\t \t", "\r", "  \r", "\u00a0", "\u2003")}
	case 2:
		if r.P(0.5) { // odd characters at odd places
			var b strings.Builder
			for i := r.Range(1, 6); i > 0; i-- {
				b.WriteString(r.Pick("a", "e1", "Ü", " ", "\t", "\r", "\x0b", "\x0c", "\x00", "\u0085", "\u00a0", "\u2028", "\u2029", "\u3000", "\ufeff", "\u200b", "\x1b", "\x7f", "\x1a", "\x08", "\ufffd", "\U0001f642", "\u0301", "\"", "\\", "<", "&", "\\n", "%"))
			}
			return &Line{S: b.String()}
		}
		return &Line{S: r.Pick("  padded e1 ", "\ttabs\t", "crlf\r", "\u00a0nbsp\u00a0", "a\rb", "\x0b vt \x0c")}
	case 3:
		return &Line{S: r.Pick(`<a href="x">&amp;</a>`, "quote\" back\\slash", "ünïcödé 漢字 🙂", "\u2028sep\u2029", "{\"json\":1}", "nul\x00byte", "0", "null", "\ufeffbom",
			"# comment", "// comment", "; x", "---", "...", "- item", "exit", "EOF", ".", "\x1a", "\x04", "\\", "\"", "a\\", "{", "[", "%d %s %!", "<nil>", "\x7f", "\x1b[0m", "é", "\u0085nel\u0085", "a\u2029", "-", "--help", "\ufeff", "\u200b", "\u2060", "\u180e", "\x00", "\x01", "\u00ad", "\ufffd", "\u200e ")}
	case 4:
		return &Line{X: []byte("bad\xff\xfeutf8 e1")}
	case 5:
		return &Line{S: "long ", N: r.Range(1, 11000)}
	case 6:
		return &Line{S: "x", N: []int{4095, 4096, 4097, 8192, 100, 59999}[r.N(6)]}
	}
	e := g.event(r, d, i+1)
	if r.P(0.1) {
		e.Text += r.Pick(" <b>", " a&b", " x>y", " é\u2028")
	}
	return &Line{S: e.Text}
}

func genReads(r *Rng, total, lines int) []int {
	var out []int
	style := r.N(7)
	for sum := 0; sum < total && len(out) < 400; {
		n := 0
		switch style {
		case 0:
			n = 1
		case 1:
			n = r.Range(1, 10)
		case 2:
			n = r.Range(1, 200)
		case 3:
			n = r.Range(1, 5000)
		case 4:
			n = total
		case 5:
			n = []int{1, 2, 4095, 4096, 4097, 17, 100}[r.N(7)]
		case 6:
			n = r.Range(20, 60)
		}
		if r.P(0.1) {
			for k := []int{1, 1, 2, 5, 40}[r.N(5)]; k > 0; k-- {
				out = append(out, 0)
			}
		}
		out = append(out, n)
		sum += n
	}
	return out
}

func genCLIPlan(r *Rng, thorough bool, prop string) *Plan {
	p := &Plan{Variant: "cli"}
	g := &defGen{max: r.Range(1, 5), depth: 2, builtin: []float64{0, 0.4, 0.8, 1}[r.N(4)], stop: 0.08}
	g.twins = r.P(0.1)
	if prop == "C04" {
		g.builtin = 0
		g.stop = 0.4
	}
	d := g.def(r, "cli")
	p.Pipes = []*PDef{d}
	c := &CLIPlan{Block: r.P(0.3), Seed: r.U64() >> 12}
	p.CLI = c
	n := r.Range(0, 14)
	if thorough && r.P(0.2) {
		n = r.Range(10, 80)
	}
	for i := 0; i < n; i++ {
		if prop == "C04" {
			c.Lines = append(c.Lines, &Line{S: g.event(r, d, i+1).Text})
		} else {
			c.Lines = append(c.Lines, genLine(r, g, d, i))
			if i > 0 && r.P(0.06) {
				// The same again.
				l := *c.Lines[r.N(i)]
				c.Lines[i] = &l
			}
			if i > 0 && r.P(0.04) {
				l := *c.Lines[i-1]
				c.Lines[i] = &l
			}
		}
	}
	if r.P(0.03) {
		// Long enough for what happens now and then.
		for n = r.Range(100, 400); len(c.Lines) < n; {
			c.Lines = append(c.Lines, &Line{S: g.event(r, d, len(c.Lines)+1).Text})
		}
	}
	if r.P(0.02) && n > 0 {
		// Line numbers beyond those of small integers.
		c.Lines[r.N(n)].B = []int{200, 255, 256, 1000, 32767, 32768, 65534, 65535, 65536, 70000, 131072}[r.N(11)]
	}
	c.NoFinal = r.P(0.3)
	total := len(c.input())
	c.Reads = genReads(r, total, n)
	if r.P(0.3) {
		c.DefReads = genReads(r, 400, 1)
	}
	pol := genPolicy(r, 3000*(n+1))
	p.Pols = []hook.Policy{pol}
	c.Scrapes = []int{0, 0, 0, 2}[r.N(4)]
	switch prop {
	case "C06":
		p.Variant = "stream"
		if r.P(0.15) {
			c.KillStep = 1 + r.N(3000*(n+1))
			p.Variant = "kill"
		}
		if r.P(0.1) {
			c.Bind = "EADDRINUSE"
		}
	case "C16":
		p.Variant = "repeat"
		switch r.Weighted(6, 1, 1) {
		case 1:
			c.ReadErr = &IOFault{At: r.N(total + 1), Err: "EIO", ThenOK: r.P(0.3), N: r.N(2)}
			p.Variant = "repeat with read error"
		case 2:
			c.Out = []*IOFault{{At: r.N(n + 1), N: r.N(60), Err: r.Pick("EIO", "ENOSPC"), Count: r.N(3)}}
			p.Variant = "repeat with write error"
		}
		if r.P(0.05) {
			c.Def = "invalid"
			p.Variant = "repeat with invalid definition"
			d.spoil(r)
			if r.P(0.6) {
				d.walk(func(q *PProc, depth int) {
					if q.Bad != "" {
						q.Bad = "two"
					}
				})
			}
		}
		if r.P(0.04) {
			c.Boot = 1 + r.U64()>>12
		}
		for k := r.Range(1, 3); k > 0; k-- {
			a := &CLIPlan{Block: r.P(0.5), Reads: genReads(r, total, n), Scrapes: r.N(3), Seed: r.U64() >> 12}
			if r.P(0.5) {
				a.DefReads = genReads(r, 400, 1)
			}
			if r.P(0.3) {
				a.Bind = "EADDRINUSE"
			}
			if r.P(0.3) {
				a.Prof = genProf(r)
				a.Prof.Faults, a.Prof.NoDir, a.Prof.IsDir = nil, false, false
			}
			c.Again = append(c.Again, a)
			p.Pols = append(p.Pols, genPolicy(r, 3000*(n+1)))
		}
	case "C15":
		p.Variant = "profile"
		c.Prof = genProf(r)
		switch r.Weighted(6, 1, 1, 1, 1) {
		case 1:
			c.KillStep = 1 + r.N(3000*(n+1))
		case 2:
			c.ReadErr = &IOFault{At: r.N(total + 1), Err: "EIO", ThenOK: r.P(0.3), N: r.N(2)}
		case 3:
			c.Out = []*IOFault{{At: r.N(n + 1), Err: r.Pick("EIO", "ENOSPC", "EPIPE"), Count: r.N(3)}}
		case 4:
			c.Def = r.Pick("missing", "readerr", "empty", "garbage")
			c.DefAt = r.N(len(c.definition(d)) + 1)
		}
	case "C07":
		switch r.Weighted(5, 3, 4, 2) {
		case 0:
			p.Variant = "read error"
			c.ReadErr = &IOFault{At: r.N(total + 1), Err: r.Pick("EIO", "EAGAIN", "unexpected", "timeout", "closed", "deadline", "nomem", "reset", "EPIPE", "noprogress", "EBADF", "ESTALE", "ENXIO", "ETIMEDOUT"), ThenOK: r.P(0.3), N: r.N(2)}
			if r.P(0.3) && total > 0 {
				// At the end of some line.
				in := c.input()
				at := r.N(total)
				if k := bytes.IndexByte(in[at:], '\n'); k >= 0 {
					c.ReadErr.At = at + k + r.N(2)
				}
			}
		case 1:
			p.Variant = "long line"
			l := &Line{S: "z", N: []int{65535, 65536, 65537, 70000, 131072, 200000}[r.N(6)]}
			at := r.N(len(c.Lines) + 1)
			c.Lines = append(c.Lines[:at], append([]*Line{l}, c.Lines[at:]...)...)
			c.Reads = genReads(r, 300000, n)
			if r.P(0.3) {
				c.ReadErr = &IOFault{At: r.N(len(c.input()) + 1), Err: "EIO"}
			}
		case 2:
			p.Variant = "definition"
			c.Def = r.Pick("missing", "readerr", "trunc", "empty", "null", "garbage", "invalid", "invalid", "invalid", "dir", "badtype")
			c.DefAt = r.N(len(c.definition(d)) + 1)
			if c.Def == "invalid" {
				d.spoil(r)
			}
			if c.Def == "trunc" || c.Def == "readerr" {
				c.Block = false
			}
		case 3:
			p.Variant = "bind"
			c.Bind = r.Pick("EADDRINUSE", "EACCES")
		}
	case "C08":
		p.Variant = "output"
		k := r.Weighted(0, 6, 2, 1)
		for i := 0; i < k; i++ {
			f := &IOFault{At: r.N(n + 1), Err: r.Pick("ENOSPC", "EIO", "EIO", "EAGAIN", "EPIPE", "epipe", "EFBIG", "EDQUOT", "EBADF", "ESTALE", "ENXIO", "ETIMEDOUT", "closed", "reset"), Count: []int{0, 0, 1, 1, 2, 3}[r.N(6)]}
			switch r.N(4) {
			case 0:
				f.N = 0
			case 1:
				f.N = r.N(30)
			case 2:
				f.N = r.N(300)
			case 3:
				f.N = -1 // all but the last byte
			}
			f.Kill = r.P(0.1)
			c.Out = append(c.Out, f)
		}
		if r.P(0.3) {
			c.Err = append(c.Err, &IOFault{At: r.N(3), Err: r.Pick("ENOSPC", "EIO"), N: r.N(20), Count: r.N(3)})
			if r.P(0.3) {
				c.Out = nil
				p.Variant = "stderr"
			}
		}
	case "C04":
		p.Variant = "cli"
	}
	return p
}

// spoil makes the definition invalid.
func (d *PDef) spoil(r *Rng) {
	if r.P(0.15) && len(d.OnFailure) > 0 {
		d.Procs = nil
	}
	var all []*PProc
	d.walk(func(q *PProc, depth int) { all = append(all, q) })
	q := all[r.N(len(all))]
	if simIndex(q.Type) >= 0 {
		q.Bad = badKinds[r.N(len(badKinds)-1)]
	} else {
		q.Bad = badKinds[r.N(4)]
	}
	if r.P(0.1) {
		d.ID = ""
	}
}

// definition is the text of the definition file.
func (c *CLIPlan) definition(d *PDef) []byte {
	var data []byte
	// Only a part of a flow-style definition is never a definition itself.
	if c.Def != "trunc" && d.Form == "anchors" && !d.hasOdd() {
		data, err := d.anchored()
		must(err)
		return data
	}
	if c.Block || d.hasOdd() { // not every tree has a JSON form
		data, _ = yaml.Marshal(d.tree())
	} else {
		data, _ = json.Marshal(d.tree())
	}
	return data
}

// --- running ---------------------------------------------------------------

const (
	wantEvent = iota
	wantError
	wantNothing
)

// lineWant is what is expected of an input line.
type lineWant struct {
	no   uint64 // line number
	end  int    // offset after its newline (or the end of the input)
	term bool   // ends with a newline
	kind int
	root *MV
	long bool
}

// expectLines computes what every line of the input must give.
func expectLines(d *PDef, input []byte, useModel bool) []*lineWant {
	var out []*lineWant
	no := uint64(0)
	for pos := 0; pos < len(input); {
		end := bytes.IndexByte(input[pos:], '\n')
		w := &lineWant{term: end >= 0}
		text := input[pos:]
		if end >= 0 {
			text = input[pos : pos+end]
			pos += end + 1
		} else {
			pos = len(input)
		}
		no++
		w.no, w.end = no, pos
		w.long = len(text) > maxLine
		line := strings.TrimSpace(string(text))
		if line == "" {
			w.kind = wantNothing
		} else {
			w.kind, w.root = expectLine(d, line, no, useModel)
		}
		out = append(out, w)
	}
	return out
}

func expectLine(d *PDef, line string, no uint64, useModel bool) (int, *MV) {
	if useModel {
		root := mObj()
		root.put([]string{"@metadata", "line_number"}, mUint(no))
		root.put([]string{"event", "original"}, mStr(line))
		m := runModel(d, root)
		switch {
		case m.Dropped:
			return wantNothing, nil
		case m.Err != nil:
			return wantError, nil
		}
		return wantEvent, m.Root
	}
	pipe, err := pipeline.New(d.config())
	if err != nil {
		panic(harnessBug("definition rejected: " + err.Error()))
	}
	e := event.New()
	e.Put("@metadata.line_number", event.UnsignedInteger(no))
	e.Put("event.original", event.String(line))
	got, err := pipe.Process(e)
	switch {
	case err != nil:
		return wantError, nil
	case got == nil:
		return wantNothing, nil
	}
	return wantEvent, content(got)
}

// cliRun is a run of the command in progress.
type cliRun struct {
	c         *CLIPlan
	s         *Stats
	input     []byte
	want      []*lineWant
	delivered int // bytes of input handed out
	nread     int
	empties   int
	failed    bool
	eof       bool
	atRead    func(delivered int) *Violation
	stdout    bytes.Buffer
	stderr    bytes.Buffer // attempted
	nout      int
	nerr      int
	outKilled bool
	outFail   bool
	errFail   bool
	checked   int // output lines already compared
	checkedAt int
	wantPos   int
	viol      *Violation
	handler   http.Handler
	started   bool
	quiesce   bool // let everything else settle before each read
	prof      *profRun

	scrapeViol *Violation
}

func (x *cliRun) read(p []byte) (int, error) {
	hook.RaceAcquire(unsafe.Pointer(x))
	defer hook.RaceRelease(unsafe.Pointer(x))
	x.started = true
	if x.quiesce {
		hook.Quiesce()
	} else {
		hook.Y(32752)
	}
	if hook.Dead() {
		return 0, io.EOF
	}
	if x.viol == nil && x.atRead != nil {
		x.viol = x.atRead(x.delivered)
	}
	if x.failed && x.c.ReadErr != nil && !x.c.ReadErr.ThenOK {
		return 0, x.c.ReadErr.err()
	}
	if x.failed {
		return 0, io.EOF
	}
	limit := len(p)
	if x.nread < len(x.c.Reads) {
		limit = x.c.Reads[x.nread]
		x.nread++
		if limit <= 0 {
			limit = 0
			if x.empties++; x.empties > 80 {
				limit = 1
			} else if len(p) > 0 {
				x.s.fault("empty read")
				return 0, nil
			}
		}
	}
	x.empties = 0
	if limit > len(p) {
		limit = len(p)
	}
	end := len(x.input)
	fail := false
	if f := x.c.ReadErr; f != nil && f.At <= end {
		end, fail = f.At, true
		if end < 0 {
			end = 0
		}
	}
	n := copy(p[:limit], x.input[min(x.delivered, end):end])
	x.delivered += n
	if n > 0 && n < len(p) && x.delivered < end {
		x.s.fault("short read")
	}
	if x.delivered >= end {
		if fail {
			if n > 0 && x.c.ReadErr.N == 0 && limit > 0 {
				return n, nil
			}
			if n == 0 || x.c.ReadErr.N > 0 {
				x.failed = true
				x.s.fault("read error")
				return n, x.c.ReadErr.err()
			}
		}
		if n == 0 {
			x.eof = true
			return 0, io.EOF
		}
	}
	return n, nil
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func (x *cliRun) write(fd int, p []byte) (int, error) {
	// Files may be used by several goroutines.
	hook.RaceAcquire(unsafe.Pointer(x))
	defer hook.RaceRelease(unsafe.Pointer(x))
	fs, k := x.c.Out, x.nout
	buf := &x.stdout
	if fd == 2 {
		fs, k = x.c.Err, x.nerr
		x.nerr++
		x.stderr.Write(p)
		buf = nil
	} else {
		x.nout++
	}
	for _, f := range fs {
		if k < f.At || f.Count > 0 && k >= f.At+f.Count {
			continue
		}
		n := f.N
		if n < 0 || k > f.At {
			n = len(p) + f.N
			if k > f.At {
				n = 0
			}
		}
		if n >= len(p) {
			n = len(p) - 1
		}
		if n < 0 {
			n = 0
		}
		if buf != nil {
			buf.Write(p[:n])
			x.outFail = true
		} else {
			x.errFail = true
		}
		name := map[int]string{1: "stdout", 2: "stderr"}[fd]
		if n > 0 {
			x.s.fault(name + " short write")
		} else {
			x.s.fault(name + " write error")
		}
		if f.Kill || f.Err == "EPIPE" {
			x.s.fault("kill at write")
			x.outKilled = true
			hook.Exit(simos.KilledCode)
		}
		return n, f.err()
	}
	if buf != nil {
		buf.Write(p)
	}
	return len(p), nil
}

// nextLines compares output lines not yet compared with the wanted ones.
// Every output line must be the next wanted event; with skip, wanted events
// may be missing.
func (x *cliRun) nextLines(skip bool) *Violation {
	for {
		data := x.stdout.Bytes()[x.checkedAt:]
		i := bytes.IndexByte(data, '\n')
		if i < 0 {
			return nil
		}
		line := data[:i]
		x.checkedAt += i + 1
		x.checked++
		j, err := decodeJSON(line)
		if err != nil {
			return viol("corrupt", "output line %d is not JSON: %.200q: %v", x.checked, line, err)
		}
		first := ""
		for {
			for x.wantPos < len(x.want) && x.want[x.wantPos].kind != wantEvent {
				x.wantPos++
			}
			if x.wantPos >= len(x.want) {
				if first != "" {
					return viol("wrong", "output line %d matches no remaining input line (%s): %.300s", x.checked, first, line)
				}
				return viol("extra", "output line %d belongs to no input line: %.300s", x.checked, line)
			}
			w := x.want[x.wantPos]
			x.wantPos++
			d := jsonEqual(w.root, j)
			if d == "" {
				w.kind = wantDone
				break
			}
			if !skip {
				return viol("wrong", "output line %d, for input line %d: %s", x.checked, w.no, d)
			}
			if first == "" {
				first = d
			}
		}
	}
}

const wantDone = 10

func (x *cliRun) tail() []byte { return x.stdout.Bytes()[x.checkedAt:] }

// missing returns the first input line which ends at or before offset end
// whose event has not been written.
func (x *cliRun) missing(end int, unterminated bool) *lineWant {
	for _, w := range x.want {
		if w.kind == wantEvent && w.end <= end && (w.term || unterminated) {
			return w
		}
	}
	return nil
}

func (x *cliRun) reported(no uint64) bool {
	re := regexp.MustCompile(`\b` + strconv.FormatUint(no, 10) + `\b`)
	return re.Match(x.stderr.Bytes())
}

func (p *Plan) startCLI(s *Stats, useModel bool) *cliRun {
	x := &cliRun{c: p.CLI, s: s}
	x.input = p.CLI.input()
	if p.CLI.Def != "invalid" {
		x.want = expectLines(p.Pipes[0], x.input, useModel)
	}
	return x
}

// runMain runs the command in a simulated process.
func (x *cliRun) runMain(p *Plan, i int, extra ...func()) (hook.Result, *Violation) {
	c := p.CLI
	hook.Restore()
	w := &simos.World{
		Args:  []string{"-p", "/sim/def.yml", "-metrics-addr", "sim:9003"},
		Read:  x.read,
		Write: x.write,
		Files: map[string]*simos.VFile{},
	}
	if c.Prof != nil {
		x.prof = c.Prof.start(x, w)
		defer x.prof.stop()
	}
	def := c.definition(p.Pipes[0])
	vf := &simos.VFile{}
	failAt := -1
	switch c.Def {
	case "missing":
		vf.OpenErr = syscall.ENOENT
	case "readerr":
		failAt = min(c.DefAt, len(def))
	case "trunc":
		def = def[:min(c.DefAt, len(def)-1)]
	case "empty":
		def = nil
	case "null":
		def = []byte("---\n")
	case "garbage":
		def = []byte("\x00\x01{{{ not yaml")
	case "badtype":
		def = []byte(`{"id":"cli","processors":"none"}`)
	case "dir":
		failAt = 0
	}
	if failAt >= 0 {
		def = def[:failAt]
	}
	nr := 0
	vf.Read = func(off int, b []byte) (int, error) {
		if off >= len(def) {
			if failAt >= 0 {
				x.s.fault("definition read error")
				return 0, syscall.EIO
			}
			return 0, io.EOF
		}
		n := len(b)
		if nr < len(c.DefReads) {
			n = c.DefReads[nr]
			nr++
			if n < 1 {
				n = 1
			}
			x.s.fault("definition short read")
		}
		return copy(b[:min(n, len(b))], def[off:]), nil
	}
	w.Files["/sim/def.yml"] = vf
	simos.Reset(w)
	simlog.Reset()
	simflag.Reset()
	simnet.OnListen = func(addr string) error {
		if c.Bind != "" {
			x.s.fault("bind failure")
			if c.Bind == "EACCES" {
				return syscall.EACCES
			}
			return syscall.EADDRINUSE
		}
		return nil
	}
	simhttp.OnServe = func(addr string, h http.Handler) { serving.Add(1); x.serve(h) }
	defer func() {
		simos.Reset(nil)
		simnet.OnListen, simhttp.OnServe = nil, nil
	}()
	if c.KillStep > 0 {
		x.s.fault("kill at step")
	}
	names := []string{"main"}
	bodies := []func(){func() {
		hook.KillAt(c.KillStep, simos.KilledCode)
		cmdsawmill.Main()
		hook.Exit(0) // the process ends with main
	}}
	for k, f := range extra {
		names = append(names, "extra"+strconv.Itoa(k))
		bodies = append(bodies, f)
	}
	res, v := x.s.simulate(p, i, names, bodies)
	if v == nil && len(w.Denied) > 0 {
		v = viol("files", "sawmill tried to change files: %v", w.Denied)
	}
	return res, v
}

func runCLIPlan(p *Plan, s *Stats) *Violation {
	if p.CLI == nil || len(p.Pipes) != 1 {
		return nil
	}
	c, d := p.CLI, p.Pipes[0]
	if d.isBad() != (c.Def == "invalid") {
		return nil
	}
	if p.Prop == "C16" {
		return runAgain(p, s)
	}
	x := p.startCLI(s, p.Prop == "C04")
	s.count("lines", len(x.want))
	defBad := c.Def != ""
	x.atRead = func(delivered int) *Violation {
		if x.outFail || defBad || x.failed {
			return nil
		}
		if v := x.nextLines(false); v != nil {
			return v
		}
		if len(x.tail()) > 0 {
			return viol("partial", "waiting for input with a partial output line %.100q", x.tail())
		}
		if w := x.missing(delivered, false); w != nil && !w.long && !x.longBefore(w) {
			return viol("late", "waiting for input after %d bytes, but the event of complete line %d is not written", delivered, w.no)
		}
		if x.wantPos > 0 && x.want[x.wantPos-1].end > delivered {
			return viol("early", "event of input line %d written before the line was complete", x.want[x.wantPos-1].no)
		}
		return nil
	}
	x.quiesce = true
	var extra []func()
	if c.Scrapes > 0 {
		extra = append(extra, func() { x.scraper(c.Scrapes) })
	}
	res, v := x.runMain(p, 0, extra...)
	if v == nil {
		v = x.viol
	}
	if v == nil {
		v = x.scrapeViol
	}
	if v != nil {
		return v
	}
	s.state(fmt.Sprint(res.ExitCode, len(x.want), x.checked, hashString(x.stdout.String())))
	killed := res.ExitCode == simos.KilledCode
	if x.prof != nil {
		if v := x.prof.judge(x, res.ExitCode, killed); v != nil {
			return v
		}
		if x.prof.createFailed() {
			return nil
		}
	}
	if killed && c.KillStep == 0 && !x.outKilled && !x.prof.killed() {
		return viol("exit", "exit status %d without being killed", res.ExitCode)
	}

	if defBad {
		if x.stdout.Len() > 0 {
			return viol("bad-definition", "definition fault %q, but output was written: %.200q", c.Def, x.stdout.String())
		}
		if res.ExitCode == 0 {
			return viol("bad-definition", "definition fault %q, but exit status 0", c.Def)
		}
		return nil
	}

	if x.outFail || len(c.Out) > 0 || killed {
		if v := x.nextLines(x.outFail); v != nil {
			return v
		}
		if t := x.tail(); len(t) > 0 && !x.outFail && !killed {
			return viol("torn", "output ends with an incomplete line %.100q", t)
		} else if len(t) > 0 && t[0] != '{' {
			return viol("torn", "torn last output line %.100q", t)
		}
		if res.ExitCode == 0 {
			for _, w := range x.want {
				if w.kind == wantEvent && !x.reported(w.no) {
					return viol("lost", "event of input line %d was not completely written, but it is not reported and the exit status is 0", w.no)
				}
			}
		}
		return nil
	}

	// Nothing interfered with the output.
	if v := x.nextLines(false); v != nil && !x.failed {
		if x.anyLong() == nil || v.Class != "wrong" {
			return v
		}
	}
	if t := x.tail(); len(t) > 0 {
		return viol("torn", "output ends with an incomplete line %.100q", t)
	}
	long := x.anyLong()
	if x.failed {
		return x.afterReadError(res, d)
	}
	if long != nil && res.ExitCode != 0 {
		// The line could not be read: exactly the lines before it.
		for _, w := range x.want {
			if w == long {
				break
			}
			if w.kind == wantEvent {
				return viol("lost", "line %d cannot be read, but the event of line %d is missing", long.no, w.no)
			}
		}
		for i, w := range x.want {
			if w == long && i+1 < len(x.want) {
				for _, y := range x.want[i+1:] {
					if y.kind == wantDone {
						return viol("extra", "event of line %d written although line %d could not be read", y.no, long.no)
					}
				}
			}
		}
		return nil
	}
	if res.ExitCode != 0 && !x.prof.failed() {
		return viol("exit", "no fault, but exit status %d; stderr %.300q", res.ExitCode, x.stderr.String())
	}
	if w := x.missing(len(x.input), true); w != nil {
		return viol("lost", "event of input line %d was not written", w.no)
	}
	return x.errorsReported(len(x.input))
}

// runAgain runs the command with the same definition and input several times.
// How the input is cut into reads, who looks at the metrics and what the
// scheduler does must not show.
func runAgain(p *Plan, s *Stats) *Violation {
	c := p.CLI
	if c.Def != "" && c.Def != "invalid" || c.KillStep > 0 || c.Prof != nil {
		return nil
	}
	var first *cliRun
	var code int
	defer func() {
		if first != nil {
			atBoot = &bootResult{code, first.stdout.Bytes()}
		}
	}()
	for i := 0; i <= len(c.Again); i++ {
		d := *c
		if i > 0 {
			a := c.Again[i-1]
			d.Reads, d.DefReads, d.Scrapes, d.Block, d.Bind, d.Seed, d.Prof = a.Reads, a.DefReads, a.Scrapes, a.Block, a.Bind, a.Seed, a.Prof
			if d.Prof != nil {
				pr := *d.Prof
				pr.Faults, pr.NoDir, pr.IsDir = nil, false, false
				d.Prof = &pr
			}
		}
		x := &cliRun{c: &d, s: s}
		x.input = d.input()
		x.quiesce = true
		var extra []func()
		if d.Scrapes > 0 {
			extra = append(extra, func() { x.scraper(d.Scrapes) })
		}
		res, v := x.runMain(p, i, extra...)
		if v == nil {
			v = x.viol
		}
		if v == nil {
			v = x.scrapeViol
		}
		if v != nil {
			return v
		}
		if first == nil {
			first, code = x, res.ExitCode
			s.state(fmt.Sprint(res.ExitCode, hashString(x.stdout.String())))
			if c.Boot > 0 {
				s.count("other processes", 1)
				b := otherProcess(p)
				if b.Code != code {
					return viol("exit-differs", "in another process: exit status %d instead of %d", b.Code, code)
				}
				if v := sameOutput(first.stdout.Bytes(), b.Out, "in another process"); v != nil {
					return v
				}
			}
			continue
		}
		if res.ExitCode != code {
			return viol("exit-differs", "run %d of the same input: exit status %d instead of %d; stderr %.300q", i, res.ExitCode, code, x.stderr.String())
		}
		if v := sameOutput(first.stdout.Bytes(), x.stdout.Bytes(), fmt.Sprintf("run %d of the same input", i)); v != nil {
			return v
		}
		if c.Def == "invalid" {
			continue
		}
		for _, w := range expectLines(p.Pipes[0], x.input, false) {
			if w.kind == wantError && first.reported(w.no) && !x.reported(w.no) {
				return viol("report-differs", "run %d of the same input: the error of line %d is not reported; stderr %.300q", i, w.no, x.stderr.String())
			}
		}
	}
	return nil
}

func sameOutput(a, b []byte, what string) *Violation {
	if bytes.Equal(a, b) {
		return nil
	}
	k := 0
	for k < len(a) && k < len(b) && a[k] == b[k] {
		k++
	}
	from := k - min(k, 40)
	return viol("output-differs", "%s: output differs at byte %d: first %.160q, now %.160q", what, k, a[from:], b[from:])
}

// bootResult is what an execution in another process gave. What package
// variables were initialised with, from the clock or random numbers, differs
// there.
type bootResult struct {
	Code int
	Out  []byte
}

var atBoot *bootResult

func otherProcess(p *Plan) *bootResult {
	q := *p
	c := *p.CLI
	c.Again, c.Boot = nil, 0
	q.CLI = &c
	data, err := json.Marshal(&q)
	must(err)
	self, err := os.Executable()
	must(err)
	cmd := exec.Command(self, "boot", "-scratch", scratchDir)
	cmd.Env = append(os.Environ(), "VERIFSIM_BOOT="+strconv.FormatUint(p.CLI.Boot, 10))
	cmd.Stdin = bytes.NewReader(data)
	out, err := cmd.Output()
	must(err)
	b := &bootResult{}
	must(json.Unmarshal(out, b))
	return b
}

func (x *cliRun) errorsReported(end int) *Violation {
	for _, w := range x.want {
		if w.kind == wantError && w.end <= end && (w.term || end == len(x.input)) && !x.reported(w.no) {
			return viol("unreported", "processing of line %d failed, but it is not reported; stderr %.300q", w.no, x.stderr.String())
		}
	}
	return nil
}

func (x *cliRun) anyLong() *lineWant {
	for _, w := range x.want {
		if w.long {
			return w
		}
	}
	return nil
}

func (x *cliRun) longBefore(w *lineWant) bool {
	l := x.anyLong()
	return l != nil && l.no <= w.no
}

// afterReadError judges a run in which reading failed at an offset.
func (x *cliRun) afterReadError(res hook.Result, d *PDef) *Violation {
	at := x.c.ReadErr.At
	if res.ExitCode == 0 {
		return viol("silent", "reading the input failed at byte %d, but exit status 0", at)
	}
	// Output must be the events of complete lines, possibly followed by one
	// for the text before the fault.
	cut := expectLines(d, x.input[:at], false)
	y := &cliRun{c: x.c, s: x.s, want: cut, input: x.input[:at]}
	y.stdout.Write(x.stdout.Bytes())
	y.stderr.Write(x.stderr.Bytes())
	if v := y.nextLines(false); v != nil {
		return v
	}
	if w := y.missing(at, false); w != nil && !y.longBefore(w) {
		return viol("lost", "reading failed at byte %d, and the event of complete line %d was not written", at, w.no)
	}
	for _, w := range cut {
		if w.kind == wantError && w.term && !y.reported(w.no) && !y.longBefore(w) {
			return viol("unreported", "processing of line %d failed, but it is not reported", w.no)
		}
	}
	return nil
}
