package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"
)

// parse "kind pos num" or "map key val num"
func dbgMsg(spec string) *MsgSpec {
	m := &MsgSpec{name: "M"}
	for i, f := range strings.Split(spec, ";") {
		w := strings.Fields(f)
		fs := &FieldSpec{name: fmt.Sprintf("F%d", i)}
		var sub *MsgSpec
		for j := range w { // message:bytes,int64.option
			if strings.HasPrefix(w[j], "message:") {
				var fl []string
				for n, x := range strings.Split(w[j][8:], ",") {
					kp := strings.Split(x+".plain", ".")
					fl = append(fl, fmt.Sprintf("%s %s %d", kp[0], kp[1], n+1))
				}
				sub = dbgMsg(strings.Join(fl, ";"))
				sub.name = fmt.Sprintf("Inner%d", i)
				w[j] = "message"
			}
		}
		if w[0] == "map" {
			fs.pos = fpMap
			fs.key = kinds[w[1]]
			fs.kind = kinds[w[2]]
			fmt.Sscan(w[3], &fs.num)
		} else {
			fs.kind = kinds[w[0]]
			fs.pos = map[string]fieldPos{"plain": fpPlain, "option": fpOption, "pointer": fpPointer, "repeated": fpRepeated, "ignored": fpIgnored}[w[1]]
			fmt.Sscan(w[2], &fs.num)
		}
		if fs.kind.name == "message" {
			fs.msg = &MsgSpec{name: "Inner", fields: []*FieldSpec{{name: "X", kind: kinds["int32"], num: 1}}}
		}
		if sub != nil {
			fs.msg = sub
		}
		m.fields = append(m.fields, fs)
	}
	return m
}

func debugMain(p *Program, args []string) {
	switch args[0] {
	case "contract":
		fn := p.protoPkg.Func(args[1])
		v := &contractVerdict{kind: contractShape(fn)}
		p.verdicts[fn] = v
		t0 := time.Now()
		p.verifyContract(fn, v)
		fmt.Println(args[1], v.kind, v.state, v.class, v.why, v.parts, time.Since(t0), v.errT, v.errO)
	case "dec2":
		p.prepareContracts()
		for _, a := range args[1:] {
			fmt.Print(a, ": ")
			m := dbgMsg(a)
			t0 := time.Now()
			s := p.newScen(m.String())
			s.checkDecode(m)
			fmt.Println(len(s.in.findings), s.undecided, s.obl, s.paths, time.Since(t0))
			for _, f := range s.in.findings {
				fmt.Println("FINDING", f.Rule, brief(f.Msg), f.Props, p.pos(f.Pos), f.Fn)
			}
		}
	case "jobs": // run the analyses matching a pattern, list what they find
		n := 0
		for _, r := range runJobs(p, p.jobsNamed(args[1]), 20*time.Minute) {
			n++
			if r.undecided != "" {
				fmt.Println("UNDECIDED", r.job.name, "::", brief(r.undecided))
			}
			for _, f := range r.findings {
				var ps []string // those whose check runs this analysis
				for _, id := range f.Props {
					if contains(r.job.props, id) && !contains(ps, id) {
						ps = append(ps, id)
					}
				}
				f.Props = ps
				fmt.Println("FINDING", r.job.name, "::", f.Rule, brief(f.Msg), f.Props, p.pos(f.Pos), f.Fn)
			}
		}
		fmt.Println(n, "analyses")
	case "enc2":
		for _, a := range args[1:] {
			fmt.Print(a, ": ")
			debugEnc2(p, a)
		}
	case "enc":
		m := dbgMsg(args[1])
		t0 := time.Now()
		s := p.newScen(m.String())
		fmt.Println("init", time.Since(t0))
		t0 = time.Now()
		ptr := s.message(m, "m")
		msg := guard(func() {
			outs := s.call(s.st, "Size", s.iface(m, ptr))
			for _, o := range outs {
				if o.panic {
					fmt.Println("SIZE PANIC", o.fault, show(s.in, o.pv))
					continue
				}
				fmt.Println("SIZE", show(s.in, o.vals[0]), "| facts", len(o.st.f.list()))
				if len(args) > 2 {
					continue
				}
				outs := s.call(o.st, "Marshal", s.iface(m, ptr))
				for _, o := range outs {
					if o.panic {
						fmt.Println("  MARSHAL PANIC", o.fault, show(s.in, o.pv))
						continue
					}
					sl := o.vals[0].(Slice)
					fmt.Println("  MARSHAL", s.in.showSeq(s.in.contentOf(o.st, sl.Data, sl.Len)), show(s.in, o.vals[1]))
					for _, f := range o.st.f.list() {
						fmt.Println("      ", f)
					}
				}
			}
		})
		fmt.Println(msg, time.Since(t0))
		for _, f := range s.in.findings {
			fmt.Println("FINDING", f.Rule, brief(f.Msg), f.Props, p.pos(f.Pos), f.Fn)
		}
	case "dec":
		m := dbgMsg(args[1])
		s := p.newScen(m.String())
		in := s.in
		ptr := s.message(m, "m")
		t0 := time.Now()
		msg := guard(func() {
			outs := s.call(s.st, "Size", Iface{T: types.NewPointer(p.buildMsg(m)), V: nilPtr()})
			fmt.Println("warm", len(outs), outs[0].panic, outs[0].fault)
			st := outs[0].st
			mark := st.ev
			input := in.symSlice("input", types.Typ[types.Uint8], false)
			input.Data.Obj.input = true
			st = st.fork()
			in.onLoop = func(L *Loop, e *State) {
				fmt.Println("LOOP", L.id, L.nl.fn.Name(), in.P.pos(in.curPos()))
			}
			in.onBackEdge = func(L *Loop, b backEdge, back map[*Atom]*Lin) {
				st := b.s.st
				fmt.Println("  BACK", L.id, len(st.f.list()))
				for a, l := range back {
					fmt.Println("       ", a.key, ":=", l)
				}
				for _, e := range st.eventsSince(L.headMark) {
					fmt.Println("        ev", e.kind, e.obj, e.off, e.size, show(in, e.val))
				}
				for _, f := range st.f.list() {
					fmt.Println("           fact", f)
				}
			}
			outs = s.call(st, "Unmarshal", input, s.iface(m, ptr))
			for _, o := range outs {
				if o.panic {
					fmt.Println("PANIC", o.fault, show(in, o.pv), p.pos(o.pos))
					continue
				}
				fmt.Println("RET", show(in, o.vals[0]))
				for _, e := range o.st.eventsSince(mark) {
					if e.kind == "loophead" || e.kind == "loopexit" || strings.HasPrefix(e.kind, "varint") || e.kind == "store" {
						fmt.Println("        ev", e.kind, e.obj, e.off, e.size, show(in, e.val))
					}
				}
			}
		})
		fmt.Println(msg, time.Since(t0), in.stats)
		for _, f := range s.in.findings {
			fmt.Println("FINDING", f.Rule, brief(f.Msg), f.Props, p.pos(f.Pos), f.Fn)
		}
	}
}

func debugEnc2(p *Program, spec string) {
	m := dbgMsg(spec)
	t0 := time.Now()
	s := p.newScen(m.String())
	s.checkEncode(m)
	fmt.Println(len(s.in.findings), s.undecided, time.Since(t0))
	for _, f := range s.in.findings {
		fmt.Println("FINDING", f.Rule, brief(f.Msg), f.Props, p.pos(f.Pos), f.Fn)
	}
}
