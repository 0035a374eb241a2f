package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/andrewkroh/go-sawmill/pkg/event"
)

// MV is a value of the reference model: a plain tree.
type MV struct {
	T string         `json:"t"` // null bool float int uint str time arr obj nil
	B bool           `json:"b,omitempty"`
	I int64          `json:"i,omitempty"` // int, time
	U uint64         `json:"u,omitempty"` // uint, float bits
	S string         `json:"s,omitempty"`
	X []byte         `json:"x,omitempty"` // string that is not UTF-8
	A []*MV          `json:"a,omitempty"`
	O map[string]*MV `json:"o,omitempty"`
}

func mStr(s string) *MV {
	if !utf8.ValidString(s) {
		return &MV{T: "str", X: []byte(s)}
	}
	return &MV{T: "str", S: s}
}
func mInt(i int64) *MV     { return &MV{T: "int", I: i} }
func mUint(u uint64) *MV   { return &MV{T: "uint", U: u} }
func mFloat(f float64) *MV { return &MV{T: "float", U: math.Float64bits(f)} }
func mBool(b bool) *MV     { return &MV{T: "bool", B: b} }
func mObj() *MV            { return &MV{T: "obj", O: map[string]*MV{}} }
func mArr(a ...*MV) *MV    { return &MV{T: "arr", A: a} }

func (v *MV) str() string {
	if v.X != nil {
		return string(v.X)
	}
	return v.S
}

func (v *MV) isNil() bool { return v == nil || v.T == "nil" || v.T == "" }

func (v *MV) clone() *MV {
	if v == nil {
		return nil
	}
	c := *v
	c.X = append([]byte(nil), v.X...)
	if v.X == nil {
		c.X = nil
	}
	c.A = nil
	for _, x := range v.A {
		c.A = append(c.A, x.clone())
	}
	if v.O != nil || v.T == "obj" {
		c.O = map[string]*MV{}
		for k, x := range v.O {
			c.O[k] = x.clone()
		}
	}
	return &c
}

// build makes a fresh event value.
func (v *MV) build() *event.Value {
	if v.isNil() {
		return nil
	}
	switch v.T {
	case "null":
		return &event.Value{Type: event.NullType}
	case "bool":
		return event.Bool(v.B)
	case "float":
		return event.Float(math.Float64frombits(v.U))
	case "int":
		return event.Integer(v.I)
	case "uint":
		return event.UnsignedInteger(v.U)
	case "str":
		return event.String(v.str())
	case "time":
		return event.Timestamp(v.I)
	case "arr":
		if v.B && len(v.A) == 0 {
			return event.Array()
		}
		items := make([]*event.Value, 0, len(v.A))
		for _, x := range v.A {
			items = append(items, x.build())
		}
		return event.Array(items...)
	case "obj":
		if v.B && len(v.O) == 0 {
			return event.Object(nil)
		}
		o := make(map[string]*event.Value, len(v.O))
		for _, k := range v.keys() {
			o[k] = v.O[k].build()
		}
		return event.Object(o)
	}
	return nil
}

// goValue is the plain Go value, for processor options.
func (v *MV) goValue() interface{} {
	if v.isNil() {
		return nil
	}
	switch v.T {
	case "bool":
		return v.B
	case "float":
		return math.Float64frombits(v.U)
	case "int":
		return v.I
	case "uint":
		return v.U
	case "str":
		return v.str()
	case "arr":
		out := make([]interface{}, 0, len(v.A))
		for _, x := range v.A {
			out = append(out, x.goValue())
		}
		return out
	case "obj":
		out := map[string]interface{}{}
		for k, x := range v.O {
			out[k] = x.goValue()
		}
		return out
	}
	return nil
}

// fromValue reads an event value completely.
func fromValue(v *event.Value) *MV { return fromValueDepth(v, 0) }

func fromValueDepth(v *event.Value, depth int) *MV {
	if v == nil {
		return &MV{T: "nil"}
	}
	if depth > 2000 {
		return &MV{T: "str", S: "<too deep or cyclic>"}
	}
	switch v.Type {
	case event.NullType:
		return &MV{T: "null"}
	case event.BoolType:
		return mBool(v.Bool)
	case event.FloatType:
		return mFloat(v.Float)
	case event.IntegerType:
		return mInt(v.Integer)
	case event.UnsignedIntegerType:
		return mUint(v.UnsignedInteger)
	case event.StringType:
		return mStr(v.String)
	case event.TimestampType:
		return &MV{T: "time", I: v.Timestamp.UnixNanos}
	case event.ArrayType:
		out := mArr()
		for _, x := range v.Array {
			out.A = append(out.A, fromValueDepth(x, depth+1))
		}
		return out
	case event.ObjectType:
		out := mObj()
		for _, k := range sortedKeys(v.Object) {
			out.O[k] = fromValueDepth(v.Object[k], depth+1)
		}
		return out
	}
	return &MV{T: "str", S: fmt.Sprintf("<type %d>", v.Type)}
}

func sortedKeys(m map[string]*event.Value) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// content is the whole content of an event (an empty object if it has none).
func content(e *event.Event) *MV {
	if e == nil {
		return mObj()
	}
	root := e.Get(".")
	if root == nil {
		return mObj()
	}
	return fromValue(root)
}

// diff returns "" or where two values differ.
func diff(want, got *MV) string { return diffAt("", want, got) }

func diffAt(p string, a, b *MV) string {
	if a.isNil() || b.isNil() {
		if a.isNil() && b.isNil() {
			return ""
		}
		return fmt.Sprintf("at %q: want %s, got %s", p, a, b)
	}
	if a.T != b.T {
		return fmt.Sprintf("at %q: want %s, got %s", p, a, b)
	}
	switch a.T {
	case "arr":
		if len(a.A) != len(b.A) {
			return fmt.Sprintf("at %q: want %s, got %s", p, a, b)
		}
		for i := range a.A {
			if d := diffAt(p+"/"+strconv.Itoa(i), a.A[i], b.A[i]); d != "" {
				return d
			}
		}
		return ""
	case "obj":
		for _, k := range a.keys() {
			y, ok := b.O[k]
			if !ok {
				return fmt.Sprintf("at %q: missing, want %s", p+"/"+k, a.O[k])
			}
			if d := diffAt(p+"/"+k, a.O[k], y); d != "" {
				return d
			}
		}
		for _, k := range b.keys() {
			if _, ok := a.O[k]; !ok {
				return fmt.Sprintf("at %q: unexpected %s", p+"/"+k, b.O[k])
			}
		}
		return ""
	case "float":
		if a.U == b.U {
			return ""
		}
		x, y := math.Float64frombits(a.U), math.Float64frombits(b.U)
		if x == y || x != x && y != y {
			return ""
		}
	case "bool":
		if a.B == b.B {
			return ""
		}
	case "uint":
		if a.U == b.U {
			return ""
		}
	case "int", "time":
		if a.I == b.I {
			return ""
		}
	case "str":
		if a.str() == b.str() {
			return ""
		}
	default:
		return ""
	}
	return fmt.Sprintf("at %q: want %s, got %s", p, a, b)
}

func (v *MV) keys() []string {
	out := make([]string, 0, len(v.O))
	for k := range v.O {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (v *MV) String() string {
	var b strings.Builder
	v.write(&b)
	s := b.String()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (v *MV) write(b *strings.Builder) {
	if v.isNil() {
		b.WriteString("<none>")
		return
	}
	switch v.T {
	case "null":
		b.WriteString("null")
	case "bool":
		fmt.Fprintf(b, "%v", v.B)
	case "float":
		fmt.Fprintf(b, "%vf", math.Float64frombits(v.U))
	case "int":
		fmt.Fprintf(b, "%d", v.I)
	case "uint":
		fmt.Fprintf(b, "%du", v.U)
	case "time":
		fmt.Fprintf(b, "@%d", v.I)
	case "str":
		b.WriteString(strconv.Quote(v.str()))
	case "arr":
		b.WriteByte('[')
		for i, x := range v.A {
			if i > 0 {
				b.WriteByte(' ')
			}
			x.write(b)
		}
		b.WriteByte(']')
	case "obj":
		b.WriteByte('{')
		for i, k := range v.keys() {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(strconv.Quote(k))
			b.WriteByte(':')
			v.O[k].write(b)
		}
		b.WriteByte('}')
	}
}

// full is an unabridged rendering used for state hashes and leak scans.
func (v *MV) full() string {
	var b strings.Builder
	v.write(&b)
	return b.String()
}

// jsonEqual compares a model value with decoded JSON (json.Number numbers):
// numbers by value, times by instant, invalid UTF-8 as replacement runes.
func jsonEqual(v *MV, j interface{}) string { return jsonEqualAt("", v, j) }

func jsonEqualAt(p string, v *MV, j interface{}) string {
	bad := func() string { return fmt.Sprintf("at %q: want %s, got JSON %v", p, v, j) }
	if v.isNil() || v.T == "null" {
		if j == nil {
			return ""
		}
		return bad()
	}
	switch v.T {
	case "bool":
		if b, ok := j.(bool); ok && b == v.B {
			return ""
		}
	case "int":
		if n, ok := j.(json.Number); ok && sameNumber(n, strconv.FormatInt(v.I, 10)) {
			return ""
		}
	case "uint":
		if n, ok := j.(json.Number); ok && sameNumber(n, strconv.FormatUint(v.U, 10)) {
			return ""
		}
	case "float":
		if n, ok := j.(json.Number); ok {
			f, err := n.Float64()
			if err == nil && f == math.Float64frombits(v.U) {
				return ""
			}
		}
	case "str":
		if s, ok := j.(string); ok && s == toValid(v.str()) {
			return ""
		}
	case "time":
		if s, ok := j.(string); ok {
			t, err := time.Parse(time.RFC3339Nano, s)
			if err == nil && t.Equal(time.Unix(0, v.I)) {
				return ""
			}
		}
	case "arr":
		a, ok := j.([]interface{})
		if !ok && len(v.A) == 0 && j == nil {
			return ""
		}
		if !ok || len(a) != len(v.A) {
			return bad()
		}
		for i := range a {
			if d := jsonEqualAt(p+"/"+strconv.Itoa(i), v.A[i], a[i]); d != "" {
				return d
			}
		}
		return ""
	case "obj":
		o, ok := j.(map[string]interface{})
		if !ok && len(v.O) == 0 && j == nil {
			return ""
		}
		if !ok || len(o) != len(v.O) {
			return bad()
		}
		for _, k := range v.keys() {
			x, ok := o[toValid(k)]
			if !ok {
				return fmt.Sprintf("at %q: missing in JSON", p+"/"+k)
			}
			if d := jsonEqualAt(p+"/"+k, v.O[k], x); d != "" {
				return d
			}
		}
		return ""
	}
	return bad()
}

func sameNumber(n json.Number, want string) bool {
	s := n.String()
	if s == want {
		return true
	}
	// Another spelling of the same number.
	f, err := strconv.ParseFloat(s, 64)
	g, err2 := strconv.ParseFloat(want, 64)
	return err == nil && err2 == nil && f == g && strings.ContainsAny(s, ".eE") && math.Abs(f) < 1<<53
}

// toValid replaces every invalid byte, as encoding/json does.
func toValid(s string) string {
	if utf8.ValidString(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		b.WriteRune(r)
	}
	return b.String()
}

func decodeJSON(data []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	var extra interface{}
	if d.Decode(&extra) == nil {
		return nil, fmt.Errorf("more than one JSON value")
	}
	return v, nil
}

// --- tree operations of the model -----------------------------------------

// get returns the value at path, or nil.
func (v *MV) get(path []string) *MV {
	cur := v
	for _, k := range path {
		if cur.isNil() || cur.T != "obj" {
			return nil
		}
		next, ok := cur.O[k]
		if !ok {
			return nil
		}
		cur = next
	}
	if cur.isNil() {
		return nil
	}
	return cur
}

// put sets path to x, making parents. It reports whether a parent is not an
// object, in which case nothing changes.
func (v *MV) put(path []string, x *MV) bool {
	cur := v
	for _, k := range path[:len(path)-1] {
		next, ok := cur.O[k]
		if !ok {
			break
		}
		if next.isNil() || next.T != "obj" {
			return false
		}
		cur = next
	}
	cur = v
	for _, k := range path[:len(path)-1] {
		next, ok := cur.O[k]
		if !ok {
			next = mObj()
			cur.O[k] = next
		}
		if next.O == nil {
			next.O = map[string]*MV{}
		}
		cur = next
	}
	cur.O[path[len(path)-1]] = x
	return true
}

// del removes path and returns what was there.
func (v *MV) del(path []string) *MV {
	old := v.get(path)
	if old == nil {
		return nil
	}
	parent := v
	if len(path) > 1 {
		parent = v.get(path[:len(path)-1])
	}
	delete(parent.O, path[len(path)-1])
	return old
}

// keyOf joins path names into an event key.
func keyOf(path []string) string {
	parts := make([]string, len(path))
	for i, p := range path {
		parts[i] = strings.ReplaceAll(p, ".", `\.`)
	}
	return strings.Join(parts, ".")
}
