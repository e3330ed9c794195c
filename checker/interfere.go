package main

// Interference: what a call may see of another call that runs at the same
// time. One call (the environment) is followed first and its state recorded
// at every synchronisation step; a second call then starts before the first
// step, and at each of its own synchronising reads any further steps of the
// environment may have happened. Every schedule looked at is a real one.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type envStep struct {
	st   *State
	diff map[*Obj]*Content // contents that changed since the step before
}

type envLog struct {
	steps []envStep
	rec   bool // being recorded
}

func flatten(st *State) map[*Obj]*Content {
	m := map[*Obj]*Content{}
	for l := st.h; l != nil; l = l.parent {
		for o, c := range l.m {
			if _, ok := m[o]; !ok {
				m[o] = c
			}
		}
	}
	return m
}

// envMark records a synchronisation step of the environment.
func (in *Interp) envMark(st *State) {
	e := in.envRec
	if e == nil || !e.rec || len(e.steps) > 80 {
		return
	}
	s := envStep{st: st.fork(), diff: map[*Obj]*Content{}}
	cur := flatten(s.st)
	var old map[*Obj]*Content
	if n := len(e.steps); n > 0 {
		old = flatten(e.steps[n-1].st)
	}
	for o, c := range cur {
		if old[o] != c {
			s.diff[o] = c
		}
	}
	e.steps = append(e.steps, s)
}

func (in *Interp) envAssoc(st *State, o *Obj) map[string]Val {
	m := map[string]Val{}
	ct := st.content(o)
	if ct == nil {
		return m
	}
	for _, e := range ct.assoc {
		m[e.key] = e.v
	}
	return m
}

// envVisible reports whether step j changes what reading o gives: the entry of
// a container under the key, or the bytes at the pointer.
func (in *Interp) envVisible(e *envLog, j int, p Ptr, key string, lock string) bool {
	if lock != "" {
		return e.steps[j-1].st.locks.has(lock) && !e.steps[j].st.locks.has(lock)
	}
	c, ok := e.steps[j].diff[p.Obj]
	if !ok {
		return false
	}
	old := e.steps[j-1].st.content(p.Obj)
	if key != "" {
		v := func(c *Content) string {
			if c == nil {
				return ""
			}
			for _, x := range c.assoc {
				if x.key == key {
					return fmt.Sprintf("%v", x.v)
				}
			}
			return ""
		}
		return v(old) != v(c)
	}
	off, ok := p.Off.constInt()
	if !ok {
		return true
	}
	v := func(c *Content) string {
		if c == nil {
			return ""
		}
		x, ok := c.c[off]
		if !ok {
			return ""
		}
		return fmt.Sprintf("%v", x.val)
	}
	return v(old) != v(c)
}

// interfere lists the states a synchronising read may happen in.
func (in *Interp) interfere(st *State, p Ptr, key, lock string) []*State {
	e := st.env
	if e == nil || p.Obj == nil {
		return []*State{st}
	}
	blocked := func(j int) bool { // the environment is inside a section the reader is in
		for _, l := range e.steps[j].st.locks {
			for _, m := range st.locks {
				if l[1:] == m[1:] && (l[0] == 'W' || m[0] == 'W') && l[0] != 'O' && m[0] != 'O' {
					return true
				}
			}
		}
		return false
	}
	busy := func(j int) bool { return lock != "" && e.steps[j].st.locks.has(lock) }
	var out []*State
	if !busy(st.envAt) {
		out = append(out, st)
	}
	base := st
	for j := st.envAt + 1; j < len(e.steps); j++ {
		if blocked(j) {
			break
		}
		if busy(j) || !in.envVisible(e, j, p, key, lock) {
			continue
		}
		n := base.fork()
		for i := base.envAt + 1; i <= j; i++ {
			for o, c := range e.steps[i].diff {
				n.h.m[o] = c
				delete(n.own, o)
			}
		}
		n.envAt = j
		out = append(out, n)
	}
	if len(out) == 0 {
		return []*State{st} // the environment ends inside the section; reported as such
	}
	return out
}

// envWrote: once the call has written shared memory itself, the environment is
// held where it is (what it would do next was computed without that write).
func (in *Interp) envWrote(st *State) { st.env = nil }

// syncRead describes what a synchronising operation reads.
func (in *Interp) syncRead(fn *ssa.Function, name string, args []Val) (p Ptr, key, lock string, ok bool) {
	if len(args) == 0 {
		return
	}
	switch {
	case strings.HasPrefix(name, "(*sync.Map).") || strings.HasPrefix(name, "(*github.com/RomiChan/syncx.Map[K, V])."):
		switch fn.Name() {
		case "Load", "LoadOrStore", "LoadAndDelete", "Swap":
			p = in.asPtr(args[0])
			ks, ok := in.keyOf(args[1])
			return p, contKey(p, ks), "", ok
		}
	case strings.HasPrefix(name, "(*sync/atomic.Pointer[T]).") || strings.HasPrefix(name, "(*sync/atomic.Value)."):
		if fn.Name() != "Store" {
			p = in.asPtr(args[0])
			ks, ok := in.keyOf(intC(0, 64, true))
			return p, contKey(p, ks), "", ok
		}
	case strings.HasPrefix(name, "sync/atomic.") && fn.Signature.Recv() == nil && fn.Blocks == nil:
		if !strings.HasPrefix(fn.Name(), "Store") {
			return in.asPtr(args[0]), "", "", true
		}
	case strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex)."):
		switch fn.Name() {
		case "Lock", "RLock", "TryLock":
			p = in.asPtr(args[0])
			return p, "", "W " + in.lockName(p), true
		}
	}
	return
}

// syncWrite: operations after which the environment's state is recorded.
func syncWrite(fn *ssa.Function, name string) bool {
	switch {
	case strings.HasPrefix(name, "(*sync.Map)."), strings.HasPrefix(name, "(*github.com/RomiChan/syncx.Map[K, V])."),
		strings.HasPrefix(name, "(*sync/atomic.Pointer[T])."), strings.HasPrefix(name, "(*sync/atomic.Value)."),
		strings.HasPrefix(name, "sync/atomic.") && fn.Signature.Recv() == nil && fn.Blocks == nil:
		return fn.Name() != "Load" && fn.Name() != "Range" && !strings.HasPrefix(fn.Name(), "Load") || fn.Name() == "LoadOrStore" || fn.Name() == "LoadAndDelete"
	case strings.HasPrefix(name, "(*sync.Mutex)."), strings.HasPrefix(name, "(*sync.RWMutex)."):
		return true
	}
	return false
}

func (in *Interp) intrinsic(st *State, fn *ssa.Function, bind, args []Val) ([]Outcome, bool) {
	if st.env == nil && (in.envRec == nil || !in.envRec.rec) {
		return in.intrinsic1(st, fn, bind, args)
	}
	name := originName(fn)
	if st.env != nil {
		p, key, lock, ok := in.syncRead(fn, name, args)
		if !ok {
			return in.intrinsic1(st, fn, bind, args)
		}
		var outs []Outcome
		for _, s := range in.interfere(st, p, key, lock) {
			o, ok := in.intrinsic1(s, fn, bind, args)
			if !ok {
				return nil, false
			}
			outs = append(outs, o...)
		}
		return outs, true
	}
	outs, ok := in.intrinsic1(st, fn, bind, args)
	if ok && syncWrite(fn, name) && len(outs) == 1 {
		in.envMark(outs[0].st)
	}
	return outs, ok
}

// interferencePairs: types that share Go types and message types but not tags.
func interferencePairs() []func() [2]*MsgSpec {
	two := func(a, b []*FieldSpec) [2]*MsgSpec {
		return [2]*MsgSpec{{name: "A", fields: a}, {name: "B", fields: b}}
	}
	return []func() [2]*MsgSpec{
		func() [2]*MsgSpec {
			x, y := fld("In", "message", fpPlain, 2), fld("In", "message", fpPlain, 5)
			y.msg = x.msg
			return two([]*FieldSpec{fld("F", "sint32", fpPlain, 1), x}, []*FieldSpec{fld("F", "int32", fpPlain, 1), y})
		},
		func() [2]*MsgSpec {
			return two([]*FieldSpec{fld("F", "sint64", fpRepeated, 3), fld("G", "fixed64", fpOption, 2)}, []*FieldSpec{fld("F", "int64", fpRepeated, 3), fld("G", "uint64", fpOption, 2)})
		},
		func() [2]*MsgSpec {
			return two([]*FieldSpec{fld("G", "sfixed32", fpPointer, 1), mapFld("F", "sint32", "sfixed64", 3)}, []*FieldSpec{fld("G", "int32", fpPointer, 1), mapFld("F", "int32", "int64", 3)})
		},
	}
}

// checkInterference: a call on a message of type a gives what it would give
// alone, whatever steps of calls on messages of types a and b happen meanwhile.
func (s *Scen) checkInterference(a, b *MsgSpec, order string, enc bool) {
	in := s.in
	s.undecided = guard(func() {
		e := &envLog{rec: true}
		in.envRec = e
		st := s.st.fork()
		in.envMark(st)
		zero := func(m *MsgSpec) Iface {
			o := in.newZero(st, s.p.buildMsg(m), "zero")
			return s.iface(m, ptrTo(o))
		}
		for _, c := range order {
			m := a
			if c == 'b' {
				m = b
			}
			for _, f := range []string{"Size", "Marshal"} {
				outs := s.call(st, f, zero(m))
				if len(outs) != 1 || outs[0].panic {
					s.note = "the environment has several paths and is left out"
					return
				}
				st = outs[0].st
			}
		}
		e.rec = false
		in.envRec = nil
		s.steps = len(e.steps) - 1
		s.only = []string{"C27", "C15"}
		start := e.steps[0].st.fork()
		start.pub = st.pub
		start.env = e
		start.envAt = 0
		s.st = start
		s.undecided = ""
		if enc {
			s.checkEncode(a)
		} else {
			s.checkDecode(a)
		}
		for i := range in.findings {
			if !contains(in.findings[i].Props, "C27") {
				in.findings[i].Props = s.only
			}
		}
		if s.undecided != "" {
			// too many schedules to follow: the single-call analyses decide the rest
			s.note = "schedules not exhausted: " + s.undecided
		}
	})
}
