package main

import (
	"bytes"
	"os"
	"path/filepath"
	"strconv"

	simos "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/os"
	simpprof "github.com/andrewkroh/go-sawmill/internal/verifsim/shim/pprof"
)

// Prof is the use of the profiling options in one run.
type Prof struct {
	CPU     bool       `json:"cpu,omitempty"`
	Mem     bool       `json:"mem,omitempty"`
	Sizes   []int      `json:"sizes,omitempty"` // of the pieces of a profile
	First   int        `json:"first,omitempty"` // pieces of the CPU profile written when it starts
	Old     int        `json:"old,omitempty"`   // size of the files before
	NoDir   bool       `json:"no_dir,omitempty"`
	IsDir   bool       `json:"is_dir,omitempty"`
	MemBad  bool       `json:"mem_bad,omitempty"` // NoDir and IsDir are about the memory profile
	Faults  []*FSFault `json:"faults,omitempty"`
	Reverse bool       `json:"reverse,omitempty"` // order of the arguments
}

func genProf(r *Rng) *Prof {
	f := &Prof{CPU: r.P(0.7), Reverse: r.P(0.5)}
	f.Mem = !f.CPU || r.P(0.5)
	for i := r.Range(1, 5); i > 0; i-- {
		f.Sizes = append(f.Sizes, []int{1, 10, 100, 1000, 4095, 4096, 4097, 9000, 70000}[r.N(9)])
	}
	f.First = r.N(3)
	if r.P(0.5) {
		f.Old = []int{1, 100, 5000, 200000}[r.N(4)]
	}
	switch r.Weighted(5, 5, 1, 1) {
	case 1:
		f.Faults = genFSFaults(r, 8)
	case 2:
		f.NoDir, f.MemBad = true, r.P(0.5)
	case 3:
		f.IsDir, f.MemBad = true, r.P(0.5)
	}
	return f
}

func (f *Prof) sanitize() {
	var fs []*FSFault
	for _, x := range f.Faults {
		if x != nil {
			fs = append(fs, x)
		}
	}
	f.Faults = fs
	for i, n := range f.Sizes {
		if n < 0 || n > 100000 {
			f.Sizes[i] = 1
		}
	}
}

func (f *Prof) chunks(kind string) (first, rest [][]byte) {
	for i, n := range f.Sizes {
		b := bytes.Repeat([]byte(kind+" profile "+strconv.Itoa(i)+"\n"), n/10+1)[:n]
		if kind == "cpu" && i < f.First {
			first = append(first, b)
		} else {
			rest = append(rest, b)
		}
	}
	return
}

// profRun observes the profiles of one run.
type profRun struct {
	f        *Prof
	o        *genOutcome
	cpu, mem string
	openErr  bool // a profile could not be created
	closeErr bool
	writeErr bool
	problems []string
	heap     string // kind of the memory profile written
}

func (f *Prof) start(x *cliRun, w *simos.World) *profRun {
	if scratchDir == "" {
		d, err := os.MkdirTemp("", "verifsim")
		must(err)
		scratchDir = d
	}
	q := &profRun{f: f, o: &genOutcome{}}
	root := filepath.Join(scratchDir, "prof")
	must(os.RemoveAll(root))
	must(os.MkdirAll(root, 0o755))
	q.cpu, q.mem = filepath.Join(root, "cpu.prof"), filepath.Join(root, "mem.prof")
	bad := &q.cpu
	if f.MemBad {
		bad = &q.mem
	}
	if f.NoDir {
		*bad = filepath.Join(root, "none", "x.prof")
	}
	if f.Old > 0 {
		for _, p := range []string{q.cpu, q.mem} {
			if !f.NoDir || p != *bad {
				must(os.WriteFile(p, bytes.Repeat([]byte("old"), f.Old/3+1)[:f.Old], 0o644))
			}
		}
	}
	if f.IsDir {
		os.RemoveAll(*bad)
		must(os.Mkdir(*bad, 0o755))
	}
	if (f.NoDir || f.IsDir) && (f.MemBad && f.Mem || !f.MemBad && f.CPU) {
		q.openErr = true
		x.s.fault("profile: cannot be created")
	}
	w.Root = root
	strike := q.o.strike(x.s, f.Faults)
	w.FS = func(op, path string, n int) simos.Fault {
		r := strike(op, path, n)
		if r.Err != nil {
			switch op {
			case "openw":
				q.openErr = true
			case "close", "sync":
				q.closeErr = true
			default:
				q.writeErr = true
			}
		}
		return r
	}
	var args []string
	if f.CPU {
		args = append(args, "-cpuprofile", q.cpu)
	}
	if f.Mem {
		args = append(args, "-memprofile="+q.mem)
	}
	if f.Reverse {
		w.Args = append(args, w.Args...)
	} else {
		w.Args = append(w.Args, args...)
	}
	simpprof.Reset()
	simpprof.Chunks = f.chunks
	simpprof.On = func(e string) {
		switch e {
		case "cpu start":
			if x.started {
				q.problems = append(q.problems, "the CPU profile starts after input was read")
			}
			if !f.CPU {
				q.problems = append(q.problems, "a CPU profile starts, but is not requested")
			}
		case "cpu stop":
			if !x.eof && !x.failed {
				q.problems = append(q.problems, "the CPU profile stops before the end of input")
			}
		case "heap", "allocs":
			q.heap = e
			if !x.eof && !x.failed {
				q.problems = append(q.problems, "the memory profile is taken before the end of input")
			}
			if !f.Mem {
				q.problems = append(q.problems, "a memory profile is taken, but not requested")
			}
		}
	}
	return q
}

func (q *profRun) stop() {
	simpprof.Reset()
	simpprof.On = func(string) {}
}

func (q *profRun) failed() bool {
	return q != nil && (q.openErr || q.closeErr || q.writeErr)
}
func (q *profRun) killed() bool       { return q != nil && q.o.killed }
func (q *profRun) createFailed() bool { return q.openErr }

// judge looks at the files when the process has ended.
func (q *profRun) judge(x *cliRun, code int, killed bool) *Violation {
	if killed {
		return nil
	}
	if q.openErr {
		if code == 0 {
			return viol("profile-create", "a profile could not be created, but the exit status is 0")
		}
		if x.stdout.Len() > 0 {
			return viol("profile-create", "a profile could not be created, but events were processed: %.200q", x.stdout.String())
		}
	}
	if code != 0 {
		if q.failed() && x.stderr.Len() == 0 && !x.errFail {
			return viol("profile-silent", "exit status %d after the failure of a profile without any message", code)
		}
		return nil
	}
	if q.closeErr {
		return viol("profile-lost", "closing a profile failed, but the exit status is 0")
	}
	if len(q.problems) > 0 {
		return viol("profile-span", "%s", q.problems[0])
	}
	check := func(path, kind string) *Violation {
		got, err := os.ReadFile(path)
		if err != nil {
			return viol("profile-lost", "exit status 0, but the %s profile cannot be read: %v", kind, err)
		}
		a, b := q.f.chunks(kind)
		want := bytes.Join(append(a, b...), nil)
		if !bytes.Equal(got, want) {
			return viol("profile-lost", "exit status 0, but the file of the %s profile (%d bytes) is not the profile (%d bytes); write fault: %v", kind, len(got), len(want), q.writeErr)
		}
		return nil
	}
	if q.f.CPU {
		if v := check(q.cpu, "cpu"); v != nil {
			return v
		}
	}
	if q.f.Mem {
		kind := q.heap
		if kind == "" {
			kind = "heap"
		}
		if v := check(q.mem, kind); v != nil {
			return v
		}
	}
	return nil
}
