package main

// The family of message types and call sequences that is analysed, and which
// properties each analysis decides.

import (
	"fmt"
	"go/types"
	"regexp"
)

// field numbers of every key length
var nums = []uint64{1, 15, 16, 2047, 2048, 262143, 262144, 33554431, 33554432, 536870911}

func scalarKinds() []*kindInfo {
	var out []*kindInfo
	for _, k := range kindList {
		if k.class != ecMsg {
			out = append(out, k)
		}
	}
	return out
}

var keyKinds = []string{"bool", "int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "sfixed32", "fixed64", "sfixed64", "string"}

func innerMsg(fields ...*FieldSpec) *MsgSpec {
	if len(fields) == 0 {
		fields = []*FieldSpec{{name: "X", kind: kinds["int32"], num: 1}}
	}
	return &MsgSpec{name: "Inner", fields: fields}
}

func fld(name, kind string, pos fieldPos, num uint64) *FieldSpec {
	f := &FieldSpec{name: name, kind: kinds[kind], pos: pos, num: num}
	if kind == "message" {
		f.msg = innerMsg()
	}
	return f
}

func mapFld(name, key, kind string, num uint64) *FieldSpec {
	f := fld(name, kind, fpMap, num)
	f.key = kinds[key]
	return f
}

func msg1(fs ...*FieldSpec) *MsgSpec { return &MsgSpec{name: "M", fields: fs} }

// positionsOf lists the supported positions of a kind.
func positionsOf(k *kindInfo) []fieldPos {
	switch {
	case k.class == ecMsg:
		return []fieldPos{fpPlain, fpRepeated}
	case k.name == "bytes":
		return []fieldPos{fpPlain, fpPointer, fpRepeated}
	}
	return []fieldPos{fpPlain, fpOption, fpPointer, fpRepeated}
}

type msgGen struct {
	name string
	mk   func() *MsgSpec
}

// singles: every kind in every position alone, field numbers cycling through
// the key lengths (all of them when deep).
func singles(deep bool) []msgGen {
	var out []msgGen
	i := 0
	add := func(mk func(num uint64) *MsgSpec, all bool) {
		if all || deep {
			for _, n := range nums {
				n := n
				out = append(out, msgGen{mk: func() *MsgSpec { return mk(n) }})
			}
			return
		}
		n := nums[i%len(nums)]
		i++
		out = append(out, msgGen{mk: func() *MsgSpec { return mk(n) }})
	}
	for _, k := range kindList {
		for _, pos := range positionsOf(k) {
			k, pos := k, pos
			add(func(n uint64) *MsgSpec { return msg1(fld("F", k.name, pos, n)) }, k.name == "int32" || k.name == "bytes")
		}
	}
	for i := range out {
		out[i].name = out[i].mk().String()
	}
	return out
}

// mapPairs: map fields; all pairs when deep, otherwise every key kind and
// every value kind at least twice.
func mapPairs(deep bool) []msgGen {
	var out []msgGen
	n := 0
	for i, key := range keyKinds {
		for j, v := range kindList {
			if !deep && (i*5+j)%4 != 0 && !(key == "string" && v.name == "message") {
				continue
			}
			key, v, num := key, v, nums[n%len(nums)]
			n++
			mk := func() *MsgSpec { return msg1(mapFld("F", key, v.name, num)) }
			out = append(out, msgGen{mk().String(), mk})
		}
	}
	return out
}

func mapPairsDec(deep bool) []msgGen {
	if deep {
		return mapPairs(true)
	}
	// every key kind and every value kind, and the pairs that share kinds
	var out []msgGen
	for i, v := range kindList {
		key, v, num := keyKinds[i%len(keyKinds)], v, nums[i%len(nums)]
		mk := func() *MsgSpec { return msg1(mapFld("F", key, v.name, num)) }
		out = append(out, msgGen{mk().String(), mk})
	}
	return out
}

func combosDec(deep bool) []msgGen {
	var out []msgGen
	for _, g := range combos() {
		if f := g.mk().fields[0]; f.pos == fpMap && f.kind.class == ecMsg && !deep {
			continue // slow; mapPairsDec has one already
		}
		out = append(out, g)
	}
	return out
}

// combos: several fields together, so that fields must not disturb each other.
func combos() []msgGen {
	mk := []func() *MsgSpec{
		func() *MsgSpec {
			return msg1(fld("A", "int32", fpPlain, 1), fld("B", "sint32", fpPlain, 2), fld("C", "sfixed32", fpPlain, 3))
		},
		func() *MsgSpec {
			return msg1(fld("A", "sfixed64", fpPlain, 4), fld("B", "sint64", fpPlain, 3), fld("C", "int64", fpPlain, 2))
		},
		func() *MsgSpec {
			return msg1(fld("A", "uint32", fpPlain, 1), fld("B", "fixed32", fpPlain, 2), fld("C", "fixed64", fpPlain, 3), fld("D", "uint64", fpPlain, 4))
		},
		func() *MsgSpec { return msg1(fld("A", "sint32", fpOption, 1), fld("B", "int32", fpOption, 2)) },
		func() *MsgSpec { return msg1(fld("A", "sfixed64", fpPointer, 1), fld("B", "int64", fpPointer, 2)) },
		func() *MsgSpec {
			return msg1(fld("A", "sint64", fpPointer, 2), fld("B", "int64", fpPlain, 1), fld("C", "sint64", fpOption, 3))
		},
		func() *MsgSpec { return msg1(fld("A", "fixed32", fpRepeated, 1), fld("B", "uint32", fpRepeated, 2)) },
		func() *MsgSpec { return msg1(fld("A", "sint32", fpRepeated, 1), fld("B", "int32", fpRepeated, 2)) },
		func() *MsgSpec {
			return msg1(fld("A", "string", fpPlain, 2), fld("B", "bytes", fpPlain, 1), fld("C", "bool", fpPlain, 16))
		},
		func() *MsgSpec {
			return msg1(mapFld("A", "sint32", "int64", 1), mapFld("B", "int32", "sint64", 2))
		},
		func() *MsgSpec {
			return msg1(mapFld("A", "sint32", "sint64", 1), mapFld("B", "int32", "int64", 2))
		},
		func() *MsgSpec {
			return msg1(mapFld("A", "string", "fixed32", 1), mapFld("B", "string", "uint32", 2))
		},
		func() *MsgSpec { // other entry layouts
			return msg1(mapFld("A", "string", "string", 1), mapFld("B", "bool", "int32", 2))
		},
		func() *MsgSpec {
			f := fld("A", "message", fpPlain, 1)
			f.msg = innerMsg(fld("X", "string", fpPlain, 1), fld("Y", "sint64", fpPlain, 2))
			g := fld("B", "message", fpPlain, 2)
			g.msg = &MsgSpec{name: "Other", fields: []*FieldSpec{fld("X", "bool", fpPlain, 3)}}
			return msg1(f, g)
		},
		func() *MsgSpec {
			f := fld("A", "message", fpRepeated, 1)
			f.msg = innerMsg(fld("X", "string", fpRepeated, 1))
			return msg1(f, fld("B", "uint64", fpPlain, 2))
		},
		func() *MsgSpec {
			f := fld("A", "message", fpPlain, 3)
			g := fld("X", "message", fpPlain, 2)
			g.msg = &MsgSpec{name: "Leaf", fields: []*FieldSpec{fld("V", "double", fpPlain, 1)}}
			f.msg = innerMsg(g)
			return msg1(f)
		},
		func() *MsgSpec {
			f := mapFld("A", "string", "message", 3)
			f.msg = innerMsg(fld("X", "bytes", fpPlain, 1))
			return msg1(f)
		},
		func() *MsgSpec {
			f := fld("A", "message", fpRepeated, 3)
			f.msg = innerMsg(fld("X", "bytes", fpPlain, 1), fld("Y", "int64", fpOption, 2))
			return msg1(f)
		},
	}
	var out []msgGen
	for _, f := range mk {
		out = append(out, msgGen{f().String(), f})
	}
	return out
}

// ignoredCombos: fields the codec must not touch between those it must.
func ignoredCombos() []msgGen {
	mk := []func() *MsgSpec{}
	for _, k := range []string{"bool", "uint32", "int64", "string", "bytes"} {
		for _, pos := range []fieldPos{fpPlain, fpOption, fpRepeated} {
			k, pos := k, pos
			if k == "bytes" && pos == fpOption {
				continue
			}
			mk = append(mk, func() *MsgSpec {
				a := fld("a", k, fpIgnored, 1)
				b := fld("B", k, fpIgnored, 2)
				c := fld("c", "bool", fpIgnored, 4)
				d := fld("d", k, fpIgnored, 5)
				d.embedded = true
				return msg1(a, fld("F", k, pos, 3), d, c, b)
			})
		}
	}
	var out []msgGen
	for _, f := range mk {
		out = append(out, msgGen{f().String(), f})
	}
	return out
}

// farCombos: fields far into their message, and messages of many fields.
func farCombos() []msgGen {
	var out []msgGen
	for _, pad := range []int64{1 << 8, 1 << 16, 1<<32 + 1} {
		pad := pad
		mk := func() *MsgSpec {
			f := fld("C", "message", fpPlain, 3)
			f.msg = innerMsg()
			m := msg1(fld("A", "bool", fpPlain, 1), fld("B", "string", fpOption, 2), f)
			m.pad = pad
			return m
		}
		out = append(out, msgGen{fmt.Sprintf("fields after %d bytes: %s", pad, mk()), mk})
	}
	return out
}

// wideCombos: messages with a dozen fields of every sort, numbers not in order.
func wideCombos() []msgGen {
	inner := func(name string, pos fieldPos, num uint64) *FieldSpec {
		f := fld(name, "message", pos, num)
		f.msg = innerMsg(fld("X", "bool", fpPlain, 1))
		return f
	}
	mk := []func() *MsgSpec{
		func() *MsgSpec {
			return msg1(
				fld("A", "int32", fpPlain, 7), fld("B", "sint64", fpOption, 3), inner("C", fpPlain, 1000), fld("D", "string", fpPlain, 1),
				fld("E", "fixed32", fpPointer, 70), fld("F", "bytes", fpPlain, 2), fld("G", "double", fpOption, 64), fld("H", "bool", fpPlain, 16),
				inner("I", fpRepeated, 15), fld("J", "uint64", fpPlain, 2048), fld("K", "string", fpRepeated, 536870911), fld("L", "float", fpPlain, 4))
		},
		func() *MsgSpec {
			return msg1(
				fld("A", "fixed64", fpRepeated, 12), fld("B", "bool", fpRepeated, 11), fld("C", "bytes", fpRepeated, 10), fld("D", "sint32", fpRepeated, 9),
				fld("E", "uint32", fpOption, 8), fld("F", "bool", fpPointer, 7), fld("G", "string", fpOption, 6), fld("H", "float", fpRepeated, 5),
				inner("I", fpPlain, 4), inner("J", fpRepeated, 3), mapFld("K", "uint32", "sint32", 2), fld("L", "int64", fpPlain, 1))
		},
	}
	var out []msgGen
	for i, f := range mk {
		out = append(out, msgGen{fmt.Sprintf("twelve fields %d", i), f})
	}
	return out
}

// manyFields: more fields than fit a byte.
func manyFields() []msgGen {
	mk := func() *MsgSpec {
		var fs []*FieldSpec
		for i := 0; i < 258; i++ {
			fs = append(fs, fld(fmt.Sprintf("F%d", i), "bool", fpRepeated, uint64(i+1)))
		}
		return msg1(fs...)
	}
	return []msgGen{{"258 fields", mk}}
}

// emptyCombos: messages without fields.
func emptyCombos() []msgGen {
	in := func(pos fieldPos) func() *MsgSpec {
		return func() *MsgSpec {
			f := fld("A", "message", pos, 1)
			if pos == fpMap {
				f = mapFld("A", "string", "message", 1)
			}
			f.msg = innerMsg()
			return msg1(f, fld("X", "bool", fpPlain, 2))
		}
	}
	mk := []func() *MsgSpec{func() *MsgSpec { return msg1() }, in(fpPlain), in(fpRepeated), in(fpMap)}
	var out []msgGen
	for i, f := range mk {
		out = append(out, msgGen{fmt.Sprintf("message without fields %d: %s", i, f()), f})
	}
	return out
}

func (p *Program) allJobs(tier string) []*job {
	deep := tier == "thorough"
	var jobs []*job
	enc := func(gs []msgGen, props ...string) {
		for _, g := range gs {
			g := g
			ps := append([]string{"C01", "C03", "C04", "C11", "C14", "C20", "C23"}, props...)
			for _, f := range g.mk().fields {
				ps = append(ps, f.props()...)
				ps = append(ps, f.zig()...)
			}
			jobs = append(jobs, &job{name: "encode " + g.name, props: ps, run: func(r *jobResult) {
				s := p.newScen(r.job.name)
				s.extra = nil
				if contains(props, "C20") {
					s.extra = []string{"C20"}
				}
				if contains(props, "+C14") { // fields together
					s.extra = []string{"C14"}
				}
				if contains(props, "+C16") { // attributes of tags
					s.extra = []string{"C16"}
				}
				s.checkEncode(g.mk())
				r.fromScen(s)
			}})
		}
	}
	dec := func(gs []msgGen, props ...string) {
		for _, g := range gs {
			g := g
			ps := append([]string{"C05", "C06", "C07", "C08", "C09", "C10", "C12", "C14", "C18", "C20", "C22", "C23"}, props...)
			cost := 1
			for _, f := range g.mk().fields {
				ps = append(ps, f.props()...)
				ps = append(ps, f.zig()...)
				if f.pos == fpMap {
					ps = append(ps, "C13")
					cost += 4
					if f.kind.class == ecMsg {
						cost += 30
					}
				}
			}
			jobs = append(jobs, &job{name: "decode " + g.name, props: ps, cost: cost, run: func(r *jobResult) {
				s := p.newScen(r.job.name)
				s.extra = nil
				if contains(props, "C20") {
					s.extra = []string{"C20"}
				}
				if contains(props, "+C14") { // fields together
					s.extra = []string{"C14"}
				}
				if contains(props, "+C16") { // attributes of tags
					s.extra = []string{"C16"}
				}
				s.checkDecode(g.mk())
				r.fromScen(s)
			}})
		}
	}
	enc(singles(deep), "C15", "C27")
	enc(mapPairs(deep), "C15", "C27")
	enc(combos(), "+C14", "C15", "C27")
	enc(wideCombos()[1:], "+C14", "C15", "C27")
	dec(wideCombos(), "+C14", "C15", "C27")
	enc(ignoredCombos(), "C20")
	enc(emptyCombos(), "+C14")
	dec(emptyCombos(), "+C14")
	enc(farCombos(), "C20", "+C14")
	dec(farCombos(), "C20", "+C14")
	if deep {
		dec(manyFields(), "+C14")
	}
	dec(singles(deep), "C15", "C27")
	dec(mapPairsDec(deep), "C15", "C27")
	dec(combosDec(deep), "+C14", "C15", "C27")
	dec(ignoredCombos(), "C20")
	add := func(name string, props []string, f func(s *Scen)) {
		jobs = append(jobs, &job{name: name, props: props, run: func(r *jobResult) {
			s := p.newScen(r.job.name)
			f(s)
			if s.note != "" {
				r.notes = append(r.notes, r.job.name+": "+s.note)
			}
			r.fromScen(s)
		}})
	}
	for _, n := range typeNames() {
		n := n
		add("prepare "+n, []string{"C15", "C27"}, func(s *Scen) { s.checkPrepare(recursiveTypes[n]) })
	}
	for _, b := range append(badTypes(), badTags()...) {
		b := b
		add("refuse "+b.name, []string{"C16", "C15", "C27"}, func(s *Scen) { s.checkBad(b) })
	}
	// further attributes of a tag mean nothing
	for i, sfx := range tagSuffixes {
		sfx := sfx
		mk := suffixed(sfx)
		for j, m := range mk {
			m := m
			enc([]msgGen{{fmt.Sprintf("with tag attributes %q: %s", sfx, m()), m}}, "C16", "+C16")
			if (i+j)%4 == 0 || deep {
				dec([]msgGen{{fmt.Sprintf("with tag attributes %q: %s", sfx, m()), m}}, "C16", "+C16")
			}
		}
	}
	// types that print alike (C14)
	for i, pr := range namesakes() {
		pr := pr
		m, o := pr()
		add(fmt.Sprintf("encode %s after a type of the same name (%d: %s)", m, i, o), []string{"C14", "C15"}, func(s *Scen) { m, o := pr(); s.checkHistory(o, m, true) })
		if m.fields[0].pos == fpMap && !deep {
			continue // slow
		}
		add(fmt.Sprintf("decode %s after a type of the same name (%d: %s)", m, i, o), []string{"C14", "C15"}, func(s *Scen) { m, o := pr(); s.checkHistory(o, m, false) })
	}
	// what one field or type does must not show in another (C14)
	for _, pr := range sameGoType() {
		a, b := pr[0], pr[1]
		for _, pb := range goPositions {
			pb := pb
			target := func() *MsgSpec { return msg1(goFld("F", b, pb, 3)) }
			before := func() *MsgSpec { return &MsgSpec{name: "Before", fields: allPositions(a)} }
			around := func() *MsgSpec {
				f := fld("In", "message", fpRepeated, 9)
				f.msg = &MsgSpec{name: "Before", fields: allPositions(a)}
				g := fld("In2", "message", fpPlain, 10)
				g.msg = f.msg
				return &MsgSpec{name: "Around", fields: append(allPositions(a), f, g)}
			}
			for i, h := range []func() *MsgSpec{before, around} {
				h := h
				what := [...]string{"fields of", "messages with fields of"}[i]
				add(fmt.Sprintf("encode %s after using %s %s", target(), what, a), []string{"C14"}, func(s *Scen) { s.checkHistory(h(), target(), true) })
				if pb != fpMap || deep {
					add(fmt.Sprintf("decode %s after using %s %s", target(), what, a), []string{"C14"}, func(s *Scen) { s.checkHistory(h(), target(), false) })
				}
			}
			for _, pa := range goPositions {
				pa := pa
				pair := func() *MsgSpec { return msg1(goFld("A", a, pa, 1), goFld("B", b, pb, 2)) }
				add("encode "+pair().String()+" (pair)", []string{"C14"}, func(s *Scen) { s.extra = []string{"C14"}; s.checkEncode(pair()) })
				if pa == pb && pa != fpMap || deep {
					add("decode "+pair().String()+" (pair)", []string{"C14"}, func(s *Scen) { s.extra = []string{"C14"}; s.checkDecode(pair()) })
				}
			}
		}
	}
	i := 0
	for _, b := range []badType{{"int", goType(basic(types.Int)), `protobuf:"varint,2,opt"`}, {"int32 with a bad tag", goType(basic(types.Int32)), `protobuf:"int32,2,opt"`}, {"map without tags", goType(types.NewMap(basic(types.Int32), basic(types.Int32))), `protobuf:"bytes,2,rep"`}} {
		for _, pos := range []fieldPos{fpPlain, fpRepeated, fpMap} {
			for _, first := range []bool{true, false} {
				b, pos, first := b, pos, first
				good := func() *MsgSpec {
					return &MsgSpec{name: "Good", fields: []*FieldSpec{fld("A", "sint32", fpPlain, 1), fld("B", "message", fpRepeated, 2), fld("C", "string", fpOption, 3)}}
				}
				i++
				add(fmt.Sprintf("use after a refused type (%s, %s, %v)", b.name, pos, first), []string{"C15", "C16", "C27"}, func(s *Scen) { s.checkAfterFailure(b, good, first, pos) })
			}
		}
	}
	for i, pr := range interferencePairs() {
		pr := pr
		for _, order := range []string{"aba", "bab"} {
			for _, enc := range []bool{true, false} {
				order, enc := order, enc
				if !enc && (order != "aba" || i == 2 && !deep) {
					continue // the map's decoder has too many paths of its own
				}
				what := map[bool]string{true: "encode", false: "decode"}[enc]
				add(fmt.Sprintf("%s %s while %s are used (%s)", what, pr()[0], pr()[1], order), []string{"C27", "C15"}, func(s *Scen) {
					p := pr()
					s.checkInterference(p[0], p[1], order, enc)
				})
			}
		}
	}
	add("arguments", []string{"C17"}, func(s *Scen) { s.checkArgs() })
	for _, t := range optTypes {
		t := t
		add("Option["+t+"]", []string{"C19"}, func(s *Scen) { s.checkOption(t) })
	}
	jobs = append(jobs, p.genJobs(deep)...)
	jobs = append(jobs, &job{name: "functions linked to the runtime", props: []string{"C23"}, run: func(r *jobResult) { p.linknameJob(r, deep) }})
	jobs = append(jobs, &job{name: "views of typed memory", props: []string{"C23"}, run: p.viewJob})
	jobs = append(jobs, &job{name: "integers turned into pointers", props: []string{"C23"}, run: p.uintptrJob})
	jobs = append(jobs, &job{name: "recursion over the input", props: []string{"C22"}, run: func(r *jobResult) { p.recursionJob(r) }})
	jobs = append(jobs, &job{name: "varint primitives", props: []string{"C02", "C01", "C03", "C05", "C06", "C07"}, run: func(r *jobResult) { p.varintJob(r) }})
	return jobs
}

// jobsNamed: the analyses whose names match a pattern (debugging).
func (p *Program) jobsNamed(re string) []*job {
	var out []*job
	for _, j := range p.allJobs("quick") {
		if regexp.MustCompile(re).MatchString(j.name) {
			out = append(out, j)
		}
	}
	return out
}

func (p *Program) jobsFor(id, tier string) []*job {
	var out []*job
	for _, j := range p.allJobs(tier) {
		if contains(j.props, id) {
			out = append(out, j)
		}
	}
	return out
}

// varintJob reports the verdicts of the varint primitives.
func (p *Program) varintJob(r *jobResult) {
	for _, name := range varintPrimitives {
		fn := p.protoPkg.Func(name)
		if fn == nil {
			r.undecided = "function " + name + " not found"
			return
		}
		v := p.verdicts[fn]
		if v == nil {
			r.undecided = fmt.Sprintf("%s no longer has the signature of a varint primitive", name)
			return
		}
		r.obl += v.parts
		r.fns[fn.RelString(nil)] = true
		if v.state != 1 {
			if v.class == "undecided" {
				r.undecided = name + ": " + v.why
				continue
			}
			if v.class == "effects" { // judged where it is called
				continue
			}
			r.add("varint-"+v.class, p.pos(fn.Pos()), fn.String(), v.breaks(), "%s %s", name, v.why)
		}
	}
	s := p.newScen(r.job.name)
	s.extra = []string{"C02"}
	s.checkEncode(msg1(fld("F", "uint64", fpPlain, 1)))
	r.fromScen(s)
}

// sameGoType: ordered pairs of kinds that share a Go type.
func sameGoType() [][2]string {
	var out [][2]string
	for _, a := range kindList {
		for _, b := range kindList {
			if a != b && a.basic == b.basic && a.basic != types.Invalid {
				out = append(out, [2]string{a.name, b.name})
			}
		}
	}
	return out
}

var goPositions = []fieldPos{fpPlain, fpOption, fpPointer, fpRepeated, fpMap}

func goFld(name, kind string, pos fieldPos, num uint64) *FieldSpec {
	if pos == fpMap {
		return mapFld(name, kind, kind, num)
	}
	return fld(name, kind, pos, num)
}

func allPositions(kind string) []*FieldSpec {
	var out []*FieldSpec
	for i, pos := range goPositions {
		out = append(out, goFld(fmt.Sprintf("F%d", i), kind, pos, uint64(i+1)))
	}
	return out
}

// checkHistory: a type's encoding after another type was used.
func (s *Scen) checkHistory(before, m *MsgSpec, enc bool) {
	s.undecided = guard(func() {
		outs := s.prepare(s.st, s.p.buildMsg(before))
		if len(outs) != 1 || outs[0].panic {
			s.find(&specErr{[]string{"C14"}, "preparing " + before.String() + " fails"}, "prepare")
			return
		}
		s.st = outs[0].st
		s.extra = []string{"C14"}
		s.undecided = ""
		if enc {
			s.checkEncode(m)
		} else {
			s.checkDecode(m)
		}
		if s.undecided != "" {
			giveUp("%s", s.undecided)
		}
	})
}

func (f *FieldSpec) zig() []string {
	if contains(f.props("C03"), "C02") {
		return []string{"C02"}
	}
	return nil
}

// tagSuffixes: attributes protoc writes into struct tags after the first three.
var tagSuffixes = []string{",name=f,json=f,proto3", ",packed", ",packed,name=f", ",name=bytes,rep", ",enum=x.Y", ",def=7", ",oneof", ",json=fixed32,proto3", ",", ",opt,rep,opt"}

func suffixed(sfx string) []func() *MsgSpec {
	in := func(fs ...*FieldSpec) func() *MsgSpec {
		return func() *MsgSpec {
			m := msg1()
			for _, f := range fs {
				g := *f
				g.suffix = sfx
				m.fields = append(m.fields, &g)
			}
			return m
		}
	}
	return []func() *MsgSpec{
		in(fld("A", "int32", fpPlain, 1), fld("B", "sint64", fpOption, 2), fld("C", "string", fpPlain, 3)),
		in(fld("A", "uint32", fpRepeated, 1), fld("B", "bytes", fpPlain, 2)),
		in(fld("A", "sint32", fpRepeated, 1), fld("B", "fixed64", fpRepeated, 2)),
		in(mapFld("A", "int32", "sint32", 1), fld("B", "double", fpPointer, 2)),
	}
}

// namesakes: a type, and one from another package that prints the same and is used first.
func namesakes() []func() (*MsgSpec, *MsgSpec) {
	other := func(m *MsgSpec) *MsgSpec { m.pkg = otherScenPkg; return m }
	with := func(pos fieldPos, key string, in *MsgSpec) *MsgSpec {
		f := fld("F", "message", pos, 1)
		f.msg = in
		if pos == fpMap {
			f.key = kinds[key]
		}
		return msg1(f)
	}
	in1 := func() *MsgSpec { return innerMsg(fld("X", "sint32", fpPlain, 1)) }
	in2 := func() *MsgSpec { return other(innerMsg(fld("Y", "string", fpPlain, 2))) }
	out := []func() (*MsgSpec, *MsgSpec){
		func() (*MsgSpec, *MsgSpec) {
			return msg1(fld("F", "sint64", fpPlain, 1)), other(msg1(fld("G", "bool", fpPlain, 2), fld("H", "int64", fpPlain, 1)))
		},
	}
	for _, pos := range []fieldPos{fpPlain, fpRepeated, fpMap} {
		pos := pos
		out = append(out, func() (*MsgSpec, *MsgSpec) {
			before := with(pos, "bool", in2())
			before.name = "Before"
			return with(pos, "bool", in1()), before
		})
	}
	return out
}
