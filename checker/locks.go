package main

// Locks and shared memory: which locks a path holds, and whether every access
// to memory that calls share is made under a lock all of them use (the lockset
// discipline). Memory is shared once it is reachable from a package variable or
// a synchronised container; atomics count as one lock, and so does having
// passed a sync.Once.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A lockSet is what a path holds: "W key" and "R key" for locks, "O key" for
// a completed sync.Once.
type lockSet []string

func (l lockSet) with(t string) lockSet {
	n := append(append(lockSet(nil), l...), t)
	sort.Strings(n)
	return n
}

func (l lockSet) has(t string) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

func (l lockSet) without(t string) lockSet {
	n := lockSet{}
	gone := false
	for _, x := range l {
		if x == t && !gone {
			gone = true
			continue
		}
		n = append(n, x)
	}
	return n
}

// exclusive reports whether a lock that excludes others is held.
func (l lockSet) exclusive() bool {
	for _, x := range l {
		if x[0] == 'W' {
			return true
		}
	}
	return false
}

// held lists the locks (not the completed Onces).
func (l lockSet) held() string {
	var s []string
	for _, x := range l {
		if x[0] != 'O' {
			s = append(s, x)
		}
	}
	return strings.Join(s, ", ")
}

func (in *Interp) lockName(p Ptr) string { return p.Obj.name + "+" + p.Off.Key() }

// lockOp models Lock, Unlock, RLock and RUnlock.
func (in *Interp) lockOp(st *State, v Val, op string) []Outcome {
	p := in.asPtr(v)
	if p.Obj == nil {
		return []Outcome{in.fault(st, op+" of a nil mutex")}
	}
	k := in.lockName(p)
	w, r := "W "+k, "R "+k
	switch op {
	case "Lock", "RLock":
		if st.locks.has(w) || op == "Lock" && st.locks.has(r) {
			in.report(st, "deadlock", fmt.Sprintf("%s is locked while the same call already holds it", k), "C27", "C15")
			return []Outcome{in.fault(st, "deadlock on "+k)}
		}
		if op == "Lock" {
			st.locks = st.locks.with(w)
		} else {
			st.locks = st.locks.with(r)
		}
	case "Unlock", "RUnlock":
		t := w
		if op == "RUnlock" {
			t = r
		}
		if !st.locks.has(t) {
			return []Outcome{in.fault(st, "unlock of unlocked mutex "+k)}
		}
		st.locks = st.locks.without(t)
		in.flushShared(st)
	}
	return ret(st)
}

// shared: a value is stored where other calls find it. What is stored under an
// exclusive lock is visible when the lock is released.
func (in *Interp) shared(st *State, o *Obj, v Val) {
	if o == nil || !in.initDone || o.global == nil && !st.pub.m[o] {
		return
	}
	switch v.(type) {
	case Int, Bool:
		return
	}
	if st.locks.exclusive() {
		st.lockPub = append(append([]Val(nil), st.lockPub...), v)
		return
	}
	in.publish(st, v)
}

func (in *Interp) flushShared(st *State) {
	if len(st.lockPub) == 0 || st.locks.exclusive() {
		return
	}
	for _, v := range st.lockPub {
		in.publish(st, v)
	}
	st.lockPub = nil
}

// atomicOp models the functions of sync/atomic on integers and pointers.
func (in *Interp) atomicOp(st *State, fn *ssa.Function, args []Val) ([]Outcome, bool) {
	name := fn.Name()
	p := in.asPtr(args[0])
	t := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	const tok = "W atomic"
	locked := func(f func()) {
		old := st.locks
		st.locks = st.locks.with(tok)
		f()
		st.locks = old
		in.flushShared(st)
	}
	var v Val
	switch {
	case strings.HasPrefix(name, "Load"):
		locked(func() { v = in.load(st, p, t) })
		return ret(st, v), true
	case strings.HasPrefix(name, "Store"):
		locked(func() { in.store(st, p, args[1], t) })
		return ret(st), true
	case strings.HasPrefix(name, "Swap"):
		locked(func() { v = in.load(st, p, t); in.store(st, p, args[1], t) })
		return ret(st, v), true
	case strings.HasPrefix(name, "CompareAndSwap"):
		locked(func() { v = in.load(st, p, t) })
		var outs []Outcome
		for _, b := range in.splitCond(st, in.equal(st, v, args[1], t)) {
			st = b.st
			if b.val {
				locked(func() { in.store(st, p, args[2], t) })
			}
			outs = append(outs, ret(st, Bool{condB(b.val)})...)
		}
		return outs, true
	case strings.HasPrefix(name, "Add"):
		// what other calls add is unknown, so is the result
		locked(func() {
			in.load(st, p, t)
			v = in.havocVal(fmt.Sprintf("atomic@%d", in.curPos()), t, nil)
			in.store(st, p, v, t)
		})
		return ret(st, v), true
	}
	return nil, false
}

type accKey struct {
	o     *Obj
	off   int64 // -1: anywhere in the object
	size  int64
	write bool
	locks string
}

type accRec struct {
	pos token.Pos
	fn  string
}

// access records an access to memory that calls share.
func (in *Interp) access(st *State, o *Obj, off *Lin, size int64, write bool) {
	if o == nil || !in.initDone || in.quiet > 0 || o.kind == oType {
		return
	}
	if o.global == nil && !st.pub.m[o] {
		return
	}
	if write {
		in.envWrote(st)
	}
	k := accKey{o: o, off: -1, size: size, write: write}
	if off != nil {
		if c, ok := off.constInt(); ok {
			k.off = c
		}
	}
	if len(st.locks) > 0 {
		k.locks = strings.Join(st.locks, "|")
	}
	if _, ok := in.acc[k]; ok {
		return
	}
	if in.acc == nil {
		in.acc = map[accKey]accRec{}
	}
	pos, fn := in.repoPos()
	in.acc[k] = accRec{pos, fn}
}

// races reports accesses to shared memory that no common lock orders.
func (in *Interp) races() int {
	byObj := map[*Obj][]accKey{}
	for k := range in.acc {
		byObj[k.o] = append(byObj[k.o], k)
	}
	n := 0
	for o, ks := range byObj {
		wr := false
		for _, k := range ks {
			wr = wr || k.write && k.locks != ""
		}
		if !wr {
			continue
		}
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, w := range ks {
			if !w.write || w.locks == "" {
				continue
			}
			for _, k := range ks {
				if w.off >= 0 && k.off >= 0 && (w.off+w.size <= k.off || k.off+k.size <= w.off) {
					continue
				}
				n++
				if commonLock(w.locks, k.locks) {
					continue
				}
				what := "read"
				if k.write {
					what = "written"
				}
				a := in.acc[k]
				in.reportAt("race", fmt.Sprintf("%s is %s %s, but written under %s", o.name, what, under(k.locks), under(w.locks)), a.pos, a.fn, "C15", "C27")
			}
		}
	}
	return n
}

func under(l string) string {
	if l == "" {
		return "without a lock"
	}
	return "{" + l + "}"
}

// commonLock: the write is made under an exclusive lock that the other access
// also holds (in any mode).
func commonLock(w, k string) bool {
	for _, a := range strings.Split(w, "|") {
		if a == "" || a[0] != 'W' {
			continue
		}
		for _, b := range strings.Split(k, "|") {
			if b != "" && b[1:] == a[1:] {
				return true
			}
		}
	}
	return false
}

// released: a call that ends holds no lock.
func (in *Interp) released(o Outcome, name string) {
	if h := o.st.locks.held(); h != "" {
		pos, fn := in.repoPos()
		how := "returns"
		if o.panic {
			how = "panics"
			pos = o.pos
		}
		if fn == "" {
			f := in.P.protoPkg.Func(name)
			if pos == token.NoPos {
				pos = f.Pos()
			}
			fn = f.String()
		}
		in.reportAt("lock-kept", fmt.Sprintf("%s %s while it holds %s", name, how, h), pos, fn, "C27", "C15")
	}
}
