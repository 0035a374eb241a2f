package main

import (
	"math"
	"strconv"
	"strings"
)

// defGen controls the generation of pipeline definitions.
type defGen struct {
	max      int     // processors in all
	depth    int     // nesting of handlers
	builtin  float64 // share of built-in processors
	stop     float64 // probability that an act drops or cancels
	names    []string
	used     int
	seedName string
	pool     []string // fields used, all if empty
	deep     bool     // handlers nested to the full depth
	wide     bool     // long lists
	twins    bool     // strings that differ little
	done     []*PProc // entries that can stand at several places
}

var fieldPool = []string{"a", "b", "cfg", "x.y", "x.z", "tags", "user.name", "deep.er.still", "n", "host"}

func (g *defGen) field(r *Rng) string {
	if g.seedName != "" && r.P(0.2) {
		return g.seedName + strconv.Itoa(r.N(3))
	}
	if len(g.pool) > 0 {
		return g.pool[r.N(len(g.pool))]
	}
	return fieldPool[r.N(len(fieldPool))]
}

// focus makes processors meet on few fields.
func (g *defGen) focus(r *Rng) {
	for i := r.Range(2, 4); i > 0; i-- {
		g.pool = append(g.pool, fieldPool[r.N(len(fieldPool))])
	}
}

func (g *defGen) def(r *Rng, id string) *PDef {
	d := &PDef{ID: id}
	switch {
	case r.P(0.03):
		// A long name: IDs of components are derived from it.
		d.ID = strings.Repeat(r.Pick("long-", "name.of.", "pipeline_"), r.Range(5, 60)) + id
	case r.P(0.03):
		d.ID = r.Pick(" ", "p.processors[0].", "ünï/", "a b ", "\"q\"", "{}", "UP", "\\") + id
	}
	if r.P(0.2) {
		d.Desc = r.Pick("about", "p", "two words")
	}
	if r.P(0.15) {
		d.Form = r.Pick("json", "yaml", "gojson", "goyaml", "shared", "shared", "anchors")
	}
	max, depth, deep, wide, builtin := g.max, g.depth, g.deep, g.wide, g.builtin
	switch {
	case r.P(0.04):
		g.wide = true
		g.max = r.Range(12, 36)
		if r.P(0.4) && g.builtin < 0.7 {
			g.builtin = 0.7
		}
	case r.P(0.05):
		g.deep = true
		g.depth = r.Range(4, 8)
		g.max += 8
	}
	n := r.Range(1, g.max)
	if g.wide {
		n = g.max
	}
	g.used, g.done = 0, nil
	d.Procs = g.list(r, r.Range((n+1)/2, n), 0)
	if r.P(0.55) && g.used < numSim {
		d.OnFailure = g.list(r, g.few(r), 1)
	}
	g.max, g.depth, g.deep, g.wide, g.builtin = max, depth, deep, wide, builtin
	return d
}

// few is the length of a list of handlers.
func (g *defGen) few(r *Rng) int {
	if g.wide && r.P(0.3) {
		return r.Range(4, 12)
	}
	return r.Range(1, 3)
}

func (g *defGen) list(r *Rng, n, depth int) []*PProc {
	var out []*PProc
	for i := 0; i < n && g.used < numSim && g.used < g.max+4; i++ {
		if len(g.done) > 0 && r.P(0.07) {
			// The same entry again.
			out = append(out, g.done[r.N(len(g.done))].clone())
			continue
		}
		p := g.proc(r, depth)
		if sims := 0; depth+levels(p) <= g.depth {
			walkProcs([]*PProc{p}, 0, func(q *PProc, depth int) {
				if simIndex(q.Type) >= 0 {
					sims++
				}
			})
			if sims == 0 {
				g.done = append(g.done, p)
			}
		}
		out = append(out, p)
	}
	return out
}

func levels(p *PProc) int {
	n := 0
	walkProcs(p.OnFailure, 1, func(q *PProc, depth int) {
		if depth > n {
			n = depth
		}
	})
	return n
}

func (p *PProc) clone() *PProc {
	q := *p
	q.Opts, _ = cloneJSON(p.Opts).(map[string]interface{})
	q.OnFailure = nil
	for _, h := range p.OnFailure {
		q.OnFailure = append(q.OnFailure, h.clone())
	}
	return &q
}

func (g *defGen) proc(r *Rng, depth int) *PProc {
	p := g.anyProc(r, depth)
	if r.P(0.15) {
		// Identifiers need not differ.
		p.ID = r.Pick("id1", "id1", "id2", "p.processors[0].set")
	}
	return p
}

func (g *defGen) anyProc(r *Rng, depth int) *PProc {
	if r.P(g.builtin) {
		return g.builtinProc(r, depth)
	}
	p := &PProc{Type: simName(g.used), Opts: map[string]interface{}{}}
	g.used++
	if r.P(0.25) {
		p.Opts["act"] = g.act(r, 0.25)
	}
	g.flags(r, p)
	if r.P(0.05) {
		p.Opts[r.Pick("tag", "tag", "construct", "act")] = nil // an option without value
	}
	g.handlers(r, p, depth)
	return p
}

func (g *defGen) flags(r *Rng, p *PProc) {
	if r.P(0.25) {
		p.Opts["ignore_failure"] = r.P(0.8)
	}
	if r.P(0.25) {
		p.Opts["ignore_missing"] = r.P(0.8)
	}
}

func (g *defGen) handlers(r *Rng, p *PProc, depth int) {
	q := 0.45 / float64(depth+1)
	if g.deep {
		q = 0.75
	}
	if depth < g.depth && r.P(q) {
		p.OnFailure = g.list(r, g.few(r), depth+1)
	}
}

func (g *defGen) builtinProc(r *Rng, depth int) *PProc {
	p := &PProc{Opts: map[string]interface{}{}}
	switch r.Weighted(5, 4, 3, 2, 2) {
	case 0:
		p.Type = "set"
		p.Opts["target_field"] = g.field(r)
		p.Opts["value"] = g.optValue(r, 0)
		if r.P(0.03) {
			x := g.optValue(r, 3)
			for n := r.Range(4, 24); n > 0; n-- {
				if r.P(0.5) {
					x = []interface{}{"level" + strconv.Itoa(n), x}
				} else {
					x = map[string]interface{}{"y": x, "k": "level" + strconv.Itoa(n)}
				}
			}
			p.Opts["value"] = x
		}
	case 1:
		p.Type = "set"
		p.Opts["target_field"] = g.field(r)
		p.Opts["copy_from"] = g.field(r)
		if r.P(0.2) {
			p.Opts["copy_from"] = "event.original"
		}
	case 2:
		p.Type = "append"
		p.Opts["field"] = g.field(r)
		p.Opts["value"] = "v" + strconv.Itoa(r.N(100))
	case 3, 4:
		p.Type = r.Pick("lowercase", "uppercase")
		p.Opts["field"] = g.field(r)
		if r.P(0.2) {
			p.Opts["field"] = "event.original"
			p.Opts["target_field"] = g.field(r)
		}
		if r.P(0.4) {
			p.Opts["target_field"] = g.field(r)
		}
	}
	if p.Type == "set" && r.P(0.2) {
		p.Opts["ignore_failure"] = r.P(0.8)
	}
	// set, append and the others all know ignore_missing.
	if r.P(0.5) {
		p.Opts["ignore_missing"] = true
	}
	g.handlers(r, p, depth)
	return p
}

// optValue is a value as it may stand in a definition.
func (g *defGen) optValue(r *Rng, depth int) interface{} {
	switch r.Weighted(5, 2, 2, 3, 2) {
	case 0:
		return "Val" + strconv.Itoa(r.N(50))
	case 1:
		return r.P(0.5)
	case 2:
		return float64(r.N(1000)) + 0.5
	case 3:
		o := map[string]interface{}{}
		for i := r.Range(1, 3); i > 0; i-- {
			if depth < 2 && r.P(0.4) {
				o["k"+strconv.Itoa(i)] = g.optValue(r, depth+1)
			} else {
				o["k"+strconv.Itoa(i)] = "s" + strconv.Itoa(r.N(50))
			}
		}
		return o
	default:
		var a []interface{}
		for i := r.Range(1, 3); i > 0; i-- {
			a = append(a, "i"+strconv.Itoa(r.N(50)))
		}
		return a
	}
}

// act makes a script; fail is the probability that it fails.
func (g *defGen) act(r *Rng, fail float64) string {
	var b strings.Builder
	for i := r.N(4); i > 0; i-- {
		b.WriteByte("ppqraay"[r.N(7)])
	}
	if r.P(0.05) {
		b.WriteByte('x')
	}
	if r.P(g.stop) {
		b.WriteByte("dc"[r.N(2)])
		if r.P(0.15) {
			b.WriteByte("dc"[r.N(2)])
		}
		if r.P(0.2) {
			b.WriteByte("pa"[r.N(2)])
		}
	}
	if r.P(fail) {
		b.WriteByte("ffmw"[r.N(4)])
	} else {
		b.WriteByte('o')
	}
	return b.String()
}

// event makes an event for a definition.
func (g *defGen) event(r *Rng, d *PDef, id int) *EvSpec {
	e := &EvSpec{ID: id}
	words := []string{"e" + strconv.Itoa(id), "Text" + strconv.Itoa(r.N(100))}
	fail := []float64{0.05, 0.2, 0.5, 0.8, 1}[r.N(5)]
	d.walk(func(p *PProc, depth int) {
		if simIndex(p.Type) < 0 || r.P(0.3) {
			return
		}
		f := fail
		if depth > 0 {
			f *= 0.6
		}
		words = append(words, p.Type+"="+g.act(r, f))
	})
	e.Text = strings.Join(words, " ")
	if r.P(0.6) {
		e.Fields = map[string]*MV{}
		for i := r.Range(1, 4); i > 0; i-- {
			f := strings.Split(g.field(r), ".")[0]
			e.Fields[f] = g.value(r, id, 0)
			if f == "tags" && r.P(0.7) {
				e.Fields[f] = mArr(mStr("e" + strconv.Itoa(id) + "qt"))
			}
			if f == "x" && r.P(0.7) {
				e.Fields[f] = &MV{T: "obj", O: map[string]*MV{"y": g.value(r, id, 1), "z": mStr("e" + strconv.Itoa(id) + "qZ")}}
			}
		}
		if r.P(0.04) {
			x := g.value(r, id, 3)
			for n := r.Range(4, 24); n > 0; n-- {
				name := mStr("e" + strconv.Itoa(id) + "level" + strconv.Itoa(n))
				if r.P(0.5) {
					x = mArr(name, x)
				} else {
					x = &MV{T: "obj", O: map[string]*MV{"y": x, "k": name}}
				}
			}
			e.Fields[strings.Split(g.field(r), ".")[0]] = x
		}
		if r.P(0.05) {
			e.Fields["m"] = mStr("not an object")
		}
		if r.P(0.04) {
			// Something is nothing.
			f := strings.Split(g.field(r), ".")[0]
			e.Fields[f] = &MV{T: "obj", O: map[string]*MV{r.Pick("y", "z", "name", "er"): nil, "k1": mArr(nil, mStr("e"+strconv.Itoa(id)+"qN"))}}
			if r.P(0.2) {
				e.Fields[f] = nil
			}
		}
	}
	return e
}

// value makes a random value; strings name the event.
func (g *defGen) value(r *Rng, id, depth int) *MV {
	switch r.Weighted(6, 1, 1, 1, 1, 2, 2, 1) {
	case 0:
		if g.twins && r.P(0.7) {
			return mStr(twin(r))
		}
		if r.P(0.15) {
			long := strings.Repeat("Same text ", 30)
			return mStr(r.Pick("Same", "same", "SAME", long, long+"e"+strconv.Itoa(id), "E"+strconv.Itoa(id)+long, long+strconv.Itoa(r.N(3))+long))
		}
		return mStr("e" + strconv.Itoa(id) + "q" + r.Pick("Aa", "bB", "c", "D", "é", ""))
	case 1:
		return mBool(r.P(0.5))
	case 2:
		return mInt(int64(r.U64() >> uint(r.N(64))))
	case 3:
		return mUint(r.U64() >> uint(r.N(64)))
	case 4:
		return mFloat(float64(r.N(1000)) / 8)
	case 5:
		if depth > 2 {
			return mObj()
		}
		o := mObj()
		for i := r.N(4); i > 0; i-- {
			o.O[r.Pick("y", "z", "name", "er", "k1", "k2")] = g.value(r, id, depth+1)
		}
		return o
	case 6:
		if depth > 2 {
			return mArr()
		}
		a := mArr()
		for i := r.N(4); i > 0; i-- {
			a.A = append(a.A, g.value(r, id, depth+1))
		}
		return a
	default:
		return &MV{T: "time", I: int64(r.N(1 << 40))}
	}
}

// twin is one of a few strings that differ in one place, or in case, or in length.
func twin(r *Rng) string {
	b := []byte(strings.Repeat("Twin ", []int{1, 4, 14, 60}[r.N(4)]))
	at := []int{0, len(b) / 2, len(b) - 1}[r.N(3)]
	b[at] = "xXyY"[r.N(4)]
	s := string(b)
	switch r.N(8) {
	case 0:
		s = strings.ToLower(s)
	case 1:
		s = strings.ToUpper(s)
	case 2:
		s += "z"
	}
	return s
}

// anyValue makes values of every kind, odd ones included.
func anyValue(r *Rng, depth int) *MV {
	if depth < 2 && r.P(0.01) {
		// Deep.
		v := anyValue(r, 4)
		arrays := []float64{0.5, 0.5, 0, 1}[r.N(4)]
		n := r.Range(8, 60)
		if r.P(0.1) {
			n = r.Range(60, 110)
		}
		for i := n; i > 0; i-- {
			if r.P(arrays) {
				v = mArr(v)
			} else {
				v = &MV{T: "obj", O: map[string]*MV{anyKey(r): v}}
			}
		}
		return v
	}
	if depth < 2 && r.P(0.005) {
		// Wide.
		o, a := mObj(), mArr()
		for i := r.Range(20, 200); i > 0; i-- {
			o.O["w"+strconv.Itoa(i)] = anyValue(r, 4)
			a.A = append(a.A, anyValue(r, 4))
		}
		if r.P(0.5) {
			return o
		}
		return a
	}
	switch r.Weighted(6, 2, 3, 3, 3, 5, 4, 2, 2) {
	case 0:
		return mStr(anyString(r))
	case 1:
		return mBool(r.P(0.5))
	case 2:
		v := int64(r.U64() >> uint(r.N(64)))
		if r.P(0.4) {
			v = -v
		}
		return mInt(v)
	case 3:
		return mUint(r.U64() >> uint(r.N(64)))
	case 4:
		return mFloat([]float64{0, 1.5, -2.25, 1e300, 5e-324, math.MaxFloat64, 123456789, float64(r.N(1 << 30)), math.Copysign(0, -1)}[r.N(9)])
	case 5:
		o := mObj()
		if depth > 3 {
			return o
		}
		for i := r.N(4); i > 0; i-- {
			o.O[anyKey(r)] = anyInner(r, depth+1)
		}
		o.B = len(o.O) == 0 && r.P(0.5) // without a map
		return o
	case 6:
		a := mArr()
		if depth > 3 {
			return a
		}
		for i := r.N(5); i > 0; i-- {
			a.A = append(a.A, anyInner(r, depth+1))
		}
		a.B = len(a.A) == 0 && r.P(0.5) // without a slice
		return a
	case 7:
		v := int64(r.U64()>>uint(1+r.N(60))) % 9000000000000000000
		if r.P(0.2) {
			v = -v
		}
		return &MV{T: "time", I: v}
	default:
		return &MV{T: "null"}
	}
}

// anyInner may be no value at all.
func anyInner(r *Rng, depth int) *MV {
	if r.P(0.03) {
		return nil
	}
	return anyValue(r, depth)
}

func anyString(r *Rng) string {
	switch r.N(8) {
	case 0:
		return ""
	case 1:
		return "<html>&\"quoted\"\\ \u2028"
	case 2:
		return "line\nbreak\ttab\x00nul"
	case 3:
		return "ünïcödé 漢字 🙂"
	case 4:
		if r.P(0.05) {
			return strings.Repeat("long", r.Range(4000, 6000))
		}
		return strings.Repeat("long", r.N(300))
	case 5:
		if r.P(0.3) {
			return "bad\xff\xfeutf8"
		}
		return "plain"
	}
	return "s" + strconv.Itoa(r.N(1000))
}

func anyKey(r *Rng) string {
	switch r.N(10) {
	case 0:
		return "a.b"
	case 1:
		return "dot."
	case 2:
		return "ключ"
	case 3:
		return "with space"
	case 4:
		return `back\slash`
	}
	return string(rune('a' + r.N(8)))
}
