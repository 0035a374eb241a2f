// Command harness runs seeded simulations of go-sawmill.
//
//	harness run -prop C01 -seed 1 -n 100 -out DIR     a batch of seeds
//	harness replay -file F                            a replay file
//	harness plan -prop C01 -seed 1                    print a plan
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"time"

	"verifsim.local/hook"
)

func stack() string { return string(debug.Stack()) }

// ReplayFile is what a violation leaves behind.
type ReplayFile struct {
	Property string     `json:"property"`
	Seed     uint64     `json:"seed"`
	Class    string     `json:"class"`
	Message  string     `json:"message"`
	Race     bool       `json:"race_build"`
	Runs     []*Plan    `json:"runs"` // executed in order in one process
	Found    *Violation `json:"found,omitempty"`
}

// RunReport is the result of a batch.
type RunReport struct {
	Stats     *Stats        `json:"stats"`
	Seconds   float64       `json:"seconds"`
	First     uint64        `json:"first"`
	Done      int           `json:"done"`
	Violation *Violation    `json:"violation,omitempty"`
	Seed      uint64        `json:"seed,omitempty"`
	Plan      *Plan         `json:"plan,omitempty"`
	Rec       []interface{} `json:"rec,omitempty"`
	Seen      int           `json:"seen"`
	States    int           `json:"states"`
	Sites     int           `json:"sites"`
	Pairs     int           `json:"pairs"`
	Hash      string        `json:"hash"`
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|replay|plan ...")
		os.Exit(2)
	}
	runtime.GOMAXPROCS(2)
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "first seed")
	stride := fs.Uint64("stride", 1, "distance of seeds")
	n := fs.Int("n", 100, "number of seeds")
	secs := fs.Float64("secs", 0, "stop after this time")
	thorough := fs.Bool("thorough", false, "larger plans")
	out := fs.String("out", "", "report file")
	file := fs.String("file", "", "replay file")
	scratch := fs.String("scratch", "", "scratch directory")
	fs.Parse(os.Args[2:])
	scratchDir = *scratch
	hook.Snapshot()
	switch os.Args[1] {
	case "run":
		report(runBatch(*prop, *seed, *stride, *n, *secs, *thorough, *out), *out)
	case "replay":
		data, err := os.ReadFile(*file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var rf struct {
			Runs []json.RawMessage `json:"runs"`
		}
		if err := json.Unmarshal(data, &rf); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		st := newStats()
		rep := &RunReport{Stats: st}
		for i, raw := range rf.Runs {
			p := decodePlan(raw)
			if v := execute(p, st); v != nil {
				rep.Violation, rep.Seed, rep.Done = v, p.Seed, i
				rep.Rec = recOf(st)
				break
			}
		}
		rep.Hash = fmt.Sprintf("%016x", st.hash)
		report(rep, *out)
	case "boot":
		data, err := io.ReadAll(os.Stdin)
		if err == nil {
			st := newStats()
			if v := execute(decodePlan(data), st); v != nil && atBoot == nil {
				atBoot = &bootResult{Code: -1, Out: []byte(v.Class + ": " + v.Msg)}
			}
			data, err = json.Marshal(atBoot)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		os.Stdout.Write(data)
	case "plan":
		data, _ := json.MarshalIndent(planFor(*prop, *seed, *thorough), "", " ")
		fmt.Println(string(data))
	default:
		os.Exit(2)
	}
}

func recOf(st *Stats) []interface{} {
	var out []interface{}
	for _, r := range st.rec {
		out = append(out, r)
	}
	return out
}

func report(rep *RunReport, out string) {
	for i := 0; i < faultLen; i++ {
		rep.Stats.Faults[faultNames[i]] = faultNums[i]
	}
	for i := range hook.SiteHits {
		if hook.SiteHits[i] > 0 {
			rep.Sites++
		}
	}
	for _, b := range hook.PairBits {
		if b != 0 {
			rep.Pairs++
		}
	}
	rep.Seen, rep.States = len(rep.Stats.seen), len(rep.Stats.states)
	data, err := json.Marshal(rep)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if out == "" {
		fmt.Println(string(data))
		return
	}
	if err := os.WriteFile(out, data, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	writeSet(out+".seen", rep.Stats.seen)
	writeSet(out+".states", rep.Stats.states)
	os.WriteFile(out+".pairs", hook.PairBits[:], 0o644)
}

func writeSet(name string, m map[uint64]struct{}) {
	hs := make([]uint64, 0, len(m))
	for h := range m {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	buf := make([]byte, 8*len(hs))
	for i, h := range hs {
		binary.LittleEndian.PutUint64(buf[8*i:], h)
	}
	os.WriteFile(name, buf, 0o644)
}

func runBatch(prop string, first, stride uint64, n int, secs float64, thorough bool, out string) *RunReport {
	st := newStats()
	rep := &RunReport{Stats: st, First: first}
	if properties[prop] == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	t0 := time.Now()
	var cur *os.File
	if out != "" {
		cur, _ = os.Create(out + ".cur")
	}
	for i := 0; i < n; i++ {
		seed := first + uint64(i)*stride
		if cur != nil {
			cur.WriteAt([]byte(fmt.Sprintf("%020d", seed)), 0)
		}
		p := planFor(prop, seed, thorough)
		v := execute(p, st)
		if i < 3 {
			data, _ := json.Marshal(p)
			if len(data) < 3000 {
				st.Samples = append(st.Samples, data)
			}
		}
		rep.Done++
		if v != nil {
			rep.Violation, rep.Seed, rep.Plan, rep.Rec = v, seed, p, recOf(st)
			break
		}
		if secs > 0 && time.Since(t0).Seconds() > secs {
			break
		}
	}
	rep.Seconds = time.Since(t0).Seconds()
	rep.Hash = fmt.Sprintf("%016x", st.hash)
	return rep
}

var scratchDir string
