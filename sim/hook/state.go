package hook

import (
	"reflect"
	"strings"
	"sync"
	"unsafe"
)

// Package-level variables of the code under test are put back to what they
// were after initialisation before every run, so that a run sees what a fresh
// process would see.

var (
	stateVars []interface{}
	statePkg  string
	restores  []func()
)

// State announces package-level variables (pointers to them).
func State(module string, vars ...interface{}) {
	statePkg = module
	stateVars = append(stateVars, vars...)
}

// Snapshot remembers the current state.
func Snapshot() {
	restores = nil
	sn := &snapper{seen: map[uintptr]bool{}}
	for _, p := range stateVars {
		sn.snap(reflect.ValueOf(p).Elem(), 0)
	}
	restores = sn.out
	idleSnapshot()
}

// Restore goes back to the remembered state.
func Restore() {
	idleRestore()
	for _, f := range restores {
		f()
	}
}

type snapper struct {
	seen map[uintptr]bool
	out  []func()
}

func ours(t reflect.Type) bool {
	p := t.PkgPath()
	switch p {
	case "container/list", "container/ring", "sync/atomic", "bytes":
		return true
	}
	return p == "" || p == statePkg || strings.HasPrefix(p, statePkg+"/")
}

func open(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

var syncMap = reflect.TypeOf(sync.Map{})

func (sn *snapper) syncMap(m *sync.Map, depth int) {
	type pair struct{ k, v interface{} }
	var pairs []pair
	m.Range(func(k, v interface{}) bool {
		pairs = append(pairs, pair{k, v})
		sn.inner(reflect.ValueOf(v), depth+1)
		return true
	})
	sn.out = append(sn.out, func() {
		m.Range(func(k, v interface{}) bool { m.Delete(k); return true })
		for _, p := range pairs {
			m.Store(p.k, p.v)
		}
	})
}

// snap handles an addressable value.
func (sn *snapper) snap(v reflect.Value, depth int) {
	v = open(v)
	saved := reflect.New(v.Type()).Elem()
	saved.Set(v)
	sn.out = append(sn.out, func() { v.Set(saved) })
	sn.inner(v, depth)
}

// inner handles what a value refers to.
func (sn *snapper) inner(v reflect.Value, depth int) {
	if depth > 20 || !v.IsValid() {
		return
	}
	if k := v.Kind(); (k == reflect.Slice || k == reflect.Map || k == reflect.Ptr) && !v.CanInterface() {
		return
	}
	switch v.Kind() {
	case reflect.Struct:
		if v.Type() == syncMap && v.CanAddr() {
			sn.syncMap(v.Addr().Interface().(*sync.Map), depth)
			return
		}
		if !ours(v.Type()) {
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if f.CanAddr() {
				f = open(f)
			}
			sn.inner(f, depth+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len() && i < 1000; i++ {
			sn.inner(v.Index(i), depth+1)
		}
	case reflect.Ptr:
		if v.IsNil() || !ours(v.Type().Elem()) && v.Type().Elem() != syncMap || sn.seen[v.Pointer()] {
			return
		}
		sn.seen[v.Pointer()] = true
		sn.snap(v.Elem(), depth+1)
	case reflect.Chan:
		if v.IsNil() || v.Type().ChanDir() != reflect.BothDir || !v.CanInterface() || sn.seen[v.Pointer()] {
			return
		}
		sn.seen[v.Pointer()] = true
		c := v
		if v.CanSet() {
			c = reflect.ValueOf(v.Interface())
		}
		if closed(&Case{v: c, p: c.Pointer(), n: c.Cap(), send: true}) {
			return
		}
		items := drain(c)
		fill(c, items)
		sn.out = append(sn.out, func() {
			to := c
			drain(to)
			if closed(&Case{v: c, p: c.Pointer(), n: c.Cap(), send: true}) && v.CanSet() {
				to = reflect.MakeChan(v.Type(), c.Cap())
				v.Set(to)
			}
			fill(to, items)
		})
	case reflect.Interface:
		if !v.IsNil() {
			sn.inner(v.Elem(), depth+1)
		}
	case reflect.Slice:
		if v.Len() == 0 || v.Len() > 1<<16 || sn.seen[v.Pointer()] {
			return
		}
		sn.seen[v.Pointer()] = true
		n := v.Len()
		c := reflect.MakeSlice(v.Type(), n, n)
		reflect.Copy(c, v)
		sn.out = append(sn.out, func() { reflect.Copy(v.Slice(0, n), c) })
		if k := v.Type().Elem().Kind(); k == reflect.Struct || k >= reflect.Array && k != reflect.String {
			for i := 0; i < n; i++ {
				sn.inner(v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		if v.IsNil() || sn.seen[v.Pointer()] {
			return
		}
		sn.seen[v.Pointer()] = true
		m := reflect.New(v.Type()).Elem()
		m.Set(v)
		keys := v.MapKeys()
		vals := make([]reflect.Value, len(keys))
		for i, k := range keys {
			vals[i] = v.MapIndex(k)
			sn.inner(vals[i], depth+1)
		}
		sn.out = append(sn.out, func() {
			for _, k := range m.MapKeys() {
				m.SetMapIndex(k, reflect.Value{})
			}
			for i, k := range keys {
				m.SetMapIndex(k, vals[i])
			}
		})
	}
}

func drain(c reflect.Value) []reflect.Value {
	var items []reflect.Value
	for n := c.Len(); n > 0; n-- {
		x, ok := c.TryRecv()
		if !ok {
			break
		}
		items = append(items, x)
	}
	return items
}

func fill(c reflect.Value, items []reflect.Value) {
	if len(items) == 0 || closed(&Case{v: c, p: c.Pointer(), n: c.Cap(), send: true}) {
		return
	}
	for _, x := range items {
		c.TrySend(x)
	}
}
