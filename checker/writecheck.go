package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Write failures. Each write to the destination is taken to succeed or to
// fail; a failure sticks to a buffered writer, as it does in package bufio.
// The functions that print recursively are replaced by a summary of the ways
// in which they end once a write has failed, computed to a fixpoint, and
// PrintTree is then interpreted with that summary.

func init() { checks["C15"] = checkC15 }

type writeMon struct {
	failed bool // a write has failed
	lost   bool // on a writer for which failures do not stick
	dirty  bool // something was written and not flushed since
	n      int  // 0 nothing printed yet
}

func (m *writeMon) Clone() Monitor   { c := *m; return &c }
func (m *writeMon) Roots() []*Term   { return nil }
func (m *writeMon) SetRoots([]*Term) {}
func (m *writeMon) Key() string      { return fmt.Sprint(*m) }

type writeCheck struct {
	p     *Program
	r     *Report
	pc    *printer
	rec   map[*ssa.Function]bool // the functions that print recursively
	types map[string]types.Type  // what is panicked with after a failure; nil: some error
	holds map[string]bool        // "type field": an error it holds, never nil
	soft  bool                   // they may return after a failure
	errs  map[*ssa.Function]int  // error results after a failure: 1 never nil, 2 perhaps nil
	clean map[*ssa.Function]int  // error results without a failure: 1 always nil, 2 perhaps not
	grew  bool
	last  bool
}

var tError = types.Universe.Lookup("error").Type()

// checkC15 decides that every write failure is reported.
func checkC15(p *Program, r *Report) {
	r.rule("every write to the destination reachable from PrintTree may fail; on each path with a failure PrintTree must return an error that is not nil, without panicking, and where it returns nil everything written must have been flushed, without an error, after the last write; recursion by a fixpoint over the ways the printing functions end after a failure")
	pc := newPrinter(p, r, "C15")
	if pc == nil {
		return
	}
	w := &writeCheck{p: p, r: r, pc: pc, rec: map[*ssa.Function]bool{}, types: map[string]types.Type{}, holds: map[string]bool{}, errs: map[*ssa.Function]int{}, clean: map[*ssa.Function]int{}}
	for f := range pc.emits {
		if pc.selfReach(f) {
			w.rec[f] = true
		}
	}
	if w.rec[pc.entry] {
		r.fail("anchor", "PrintTree", "-", "PrintTree is recursive")
		return
	}
	r.count("recursive_printers", len(w.rec))
	r.need("recursive_printers", 2)
	for round := 0; round < 8; round++ {
		w.grew = false
		for _, f := range p.fns {
			if w.rec[f] && f.Synthetic == "" {
				w.run(f)
			}
		}
		if !w.grew {
			break
		}
	}
	w.last = true
	w.run(pc.entry)
	w.newPrinter()
	w.stores()
	r.need("writes", 2)
	r.need("paths", 2)
}

func (w *writeCheck) ends(fn *ssa.Function, st *State, ret, pv *Term) {
	mon := st.mon.(*writeMon)
	if pv != nil {
		if !mon.failed {
			return
		}
		key, t := "?", types.Type(nil)
		if pv.op == OIface {
			key, t = typeKey(pv.typ2), pv.typ2
		} else if ts := st.typesOf(pv); len(ts) == 1 {
			key, t = typeKey(ts[0]), ts[0]
		}
		_, seen := w.types[key]
		if !seen {
			w.types[key] = t
			w.grew = true
		}
		if s := structOf(t); t != nil && s != nil && pv.op == OIface {
			for i := 0; i < s.NumFields(); i++ {
				if !types.Identical(s.Field(i).Type(), tError) {
					continue
				}
				k := fmt.Sprint(key, i)
				set := st.isNil(fieldOf(pv.args[0], i, tError)) == no
				if !seen {
					w.holds[k] = set
				} else if w.holds[k] && !set {
					w.holds[k] = false
					w.grew = true
				}
			}
		}
		return
	}
	if mon.failed && !w.soft {
		w.soft, w.grew = true, true
	}
	if er := errResult(fn, ret); er != nil {
		tab, want := w.clean, yes
		if mon.failed {
			tab, want = w.errs, no
		}
		v := 2
		if st.isNil(er) == want {
			v = 1
		}
		if v > tab[fn] {
			tab[fn] = v
			w.grew = true
		}
	}
}

// errResult gives the error among the results of fn.
func errResult(fn *ssa.Function, ret *Term) *Term {
	rs := fn.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if types.Identical(rs.At(i).Type(), tError) {
			if rs.Len() == 1 {
				return ret
			}
			if ret != nil && ret.op == OTuple && i < len(ret.args) {
				return ret.args[i]
			}
		}
	}
	return nil
}

// aboutErrors says whether f handles errors.
func aboutErrors(f *ssa.Function) bool {
	is := func(t types.Type) bool {
		return types.Implements(t, tError.Underlying().(*types.Interface)) || types.Implements(types.NewPointer(t), tError.Underlying().(*types.Interface))
	}
	tup := func(t *types.Tuple) bool {
		for i := 0; i < t.Len(); i++ {
			u := t.At(i).Type()
			if is(u) {
				return true
			}
			if pt := pointee(u); pt != nil && is(pt) {
				return true
			}
			if _, ok := u.Underlying().(*types.Interface); ok && u.String() == "interface{}" || u.String() == "any" {
				return true
			}
		}
		return false
	}
	return tup(f.Signature.Params()) || tup(f.Signature.Results()) || f.Signature.Recv() != nil && is(f.Signature.Recv().Type())
}

func hasRecover(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if b, ok := c.Common().Value.(*ssa.Builtin); ok && b.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

func (w *writeCheck) run(fn *ssa.Function) {
	p := w.p
	e := newEngine(p)
	e.closedNonNil = true
	e.smallK = 1
	e.noExact = true
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	e.initGlobals()
	where := posString(p, fn.Pos())
	result := func(st *State, ci *callInfo, er *Term) *Term {
		tup, ok := ci.typ.(*types.Tuple)
		if !ok {
			return er
		}
		var rs []*Term
		for i := 0; i < tup.Len(); i++ {
			if types.Identical(tup.At(i).Type(), tError) {
				rs = append(rs, er)
			} else {
				n := newSym("n", tup.At(i).Type())
				if isIntType(n.typ) {
					st.restrictInt(n, rng(0, posInf))
				}
				rs = append(rs, n)
			}
		}
		return T.intern(&Term{op: OTuple, args: rs, typ: tup})
	}
	someErr := func(st *State) *Term {
		er := newSym("writeError", tError)
		st.facts.bools[eqTerm(er, nilTerm)] = false
		return er
	}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		mon := st.mon.(*writeMon)
		name := ""
		if ci.fn != nil {
			name = fnName(ci.fn)
		} else if ci.method != nil {
			name = ci.method.FullName()
		}
		write, flush, sticky := false, false, true
		switch {
		case strings.HasPrefix(name, "(*bufio.Writer)."):
			switch strings.TrimPrefix(name, "(*bufio.Writer).") {
			case "WriteString", "Write", "WriteByte", "WriteRune", "ReadFrom":
				write = true
			case "Flush":
				flush = true
			case "Available", "Buffered", "Size", "AvailableBuffer":
			default:
				w.r.fail("undecided", name, posString(p, ci.pos), "a call of %s is not understood", name)
			}
		case name == "io.WriteString" || name == "fmt.Fprint" || name == "fmt.Fprintf" || name == "fmt.Fprintln":
			write = true
			sticky = ci.args[0].op == OIface && strings.HasSuffix(ci.args[0].typ2.String(), "bufio.Writer")
		case name == "(io.Writer).Write" || name == "(io.StringWriter).WriteString":
			write, sticky = true, false
		}
		switch {
		case write:
			w.r.count("writes", 1)
			if sticky {
				mon.dirty = true
			}
			bad := st.fork()
			bm := bad.mon.(*writeMon)
			bm.failed = true
			if !sticky {
				bm.lost = true
			}
			outs := []Outcome{{st: bad, ret: result(bad, ci, someErr(bad))}}
			if !mon.failed || !sticky {
				outs = append(outs, Outcome{st: st, ret: result(st, ci, nilTerm)})
			}
			return true, outs
		case flush:
			w.r.count("flushes", 1)
			mon.dirty = false
			bad := st.fork()
			bm := bad.mon.(*writeMon)
			bm.failed = true
			outs := []Outcome{{st: bad, ret: someErr(bad)}}
			if !mon.failed || mon.lost {
				outs = append(outs, Outcome{st: st, ret: nilTerm})
			}
			return true, outs
		}
		f := ci.fn
		if f == nil || !p.ours(f) || len(f.Blocks) == 0 {
			return false, nil
		}
		if w.rec[f] && f.Synthetic == "" {
			w.r.count("recursive_calls", 1)
			var outs []Outcome
			was := mon.failed
			mon.dirty = true
			ret := func(s *State, failed bool) *Term {
				tab := w.clean
				if failed {
					tab = w.errs
				}
				x := opaqueResult(f.Name(), ci.typ)
				er := errResult(f, x)
				if er == nil || tab[f] != 1 {
					return x
				}
				if failed {
					s.facts.bools[eqTerm(er, nilTerm)] = false
					return x
				}
				if x.op == OTuple {
					var as []*Term
					for _, a := range x.args {
						if a == er {
							a = nilTerm
						}
						as = append(as, a)
					}
					return T.intern(&Term{op: OTuple, args: as, typ: x.typ})
				}
				return nilTerm
			}
			for key, t := range w.types {
				s := st.fork()
				s.mon.(*writeMon).failed = true
				v := newSym("panicValue", tError)
				if t != nil {
					x := newSym("panicValue:"+key, t)
					v = mkIface(x, t)
					if fs := structOf(t); fs != nil {
						for i := 0; i < fs.NumFields(); i++ {
							if w.holds[fmt.Sprint(key, i)] {
								s.facts.bools[eqTerm(fieldOf(x, i, tError), nilTerm)] = false
							}
						}
					}
				}
				s.facts.bools[eqTerm(v, nilTerm)] = false
				outs = append(outs, Outcome{st: s, panic: v})
			}
			if w.soft {
				s := st.fork()
				s.mon.(*writeMon).failed = true
				outs = append(outs, Outcome{st: s, ret: ret(s, true)})
			}
			if !was {
				outs = append(outs, Outcome{st: st, ret: ret(st, false)})
			} else if !w.soft {
				outs = append(outs, Outcome{st: st, ret: ret(st, true)})
			}
			return true, outs
		}
		if w.pc.emits[f] || hasRecover(f) || aboutErrors(f) && !w.pc.selfReach(f) || neverReturns(f) {
			return false, nil
		}
		return true, []Outcome{{st: st, ret: opaqueResult(f.Name(), ci.typ)}}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		if !w.last {
			w.ends(fn, st, ret, pv)
			return nil
		}
		w.r.count("paths", 1)
		mon := st.mon.(*writeMon)
		er := errResult(fn, ret)
		switch {
		case mon.failed && pv != nil:
			w.r.fail("panic", fn.Name(), where, "after a failed write %s may panic", fn.Name())
		case pv != nil:
		case er == nil:
			w.r.fail("anchor", fn.Name(), where, "%s returns no error", fn.Name())
		case mon.failed && st.isNil(er) != no:
			w.r.fail("lost", fn.Name(), where, "after a failed write %s may return nil", fn.Name())
		case !mon.failed && mon.dirty && st.isNil(er) != no:
			w.r.fail("flush", fn.Name(), where, "%s may return nil without having flushed what was written", fn.Name())
		}
		return nil
	}
	st := e.newState(&writeMon{})
	var args []*Term
	for _, prm := range fn.Params {
		x := newSym("!"+prm.Name(), prm.Type())
		if isPtr(prm.Type()) || types.Identical(prm.Type(), w.pc.m.iface) {
			st.facts.bools[eqTerm(x, nilTerm)] = false
		}
		args = append(args, x)
	}
	e.pushCall(st, fn, args, nil, nil)
	e.Run(st)
	w.r.engineStats(e)
}

// newPrinter checks that a printer writes to the destination it was made for.
func (w *writeCheck) newPrinter() {
	fn := w.p.pkgs["format"].Func("NewPrinter")
	if fn == nil || len(fn.Params) != 1 {
		w.r.fail("anchor", "NewPrinter", "-", "NewPrinter not found")
		return
	}
	where := posString(w.p, fn.Pos())
	e := newEngine(w.p)
	e.closedNonNil = true
	e.initGlobals()
	dst := newSym("!w", fn.Params[0].Type())
	var made []*Term
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		if ci.fn == nil {
			return false, nil
		}
		switch fnName(ci.fn) {
		case "bufio.NewWriter", "bufio.NewWriterSize":
			w.r.count("buffers_made", 1)
			if st.evalEq(ci.args[0], dst) != yes {
				w.r.fail("destination", "NewPrinter", posString(w.p, ci.pos), "the printer's buffer does not write to the destination given")
			}
			x := newSym("buffer", ci.typ)
			st.facts.bools[eqTerm(x, nilTerm)] = false
			made = append(made, x)
			return true, []Outcome{{st: st, ret: x}}
		}
		return false, nil
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		if pv != nil {
			w.r.fail("panic", "NewPrinter", where, "NewPrinter panics")
			return nil
		}
		for _, v := range st.heap {
			for _, x := range made {
				if v == x || st.evalEq(v, dst) == yes && !isNilType(v) {
					return nil
				}
			}
			if v == dst {
				return nil
			}
		}
		w.r.fail("destination", "NewPrinter", where, "the printer made does not hold the destination given")
		return nil
	}
	st := e.newState(&writeMon{})
	e.pushCall(st, fn, []*Term{dst}, nil, nil)
	e.Run(st)
	w.r.engineStats(e)
}

func isNilType(t *Term) bool { return t == nilTerm }

// stores checks that the writer of a printer is not exchanged while printing.
func (w *writeCheck) stores() {
	for _, f := range w.pc.g.reach(w.pc.entry) {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				w.r.count("instructions_scanned", 1)
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				if t := pointee(fa.Type()); t != nil && strings.HasSuffix(t.String(), "bufio.Writer") {
					if _, fresh := fa.X.(*ssa.Alloc); !fresh {
						w.r.fail("destination", fnName(f), posString(w.p, ins.Pos()), "%s exchanges the writer of a printer", fnName(f))
					}
				}
			}
		}
	}
}
