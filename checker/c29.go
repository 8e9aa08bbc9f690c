package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C29"] = checkC29 }

// cmpMon holds the range of names a text has been found to differ from.
type cmpMon struct {
	lo, hi *Term // nil before the first comparison
	hit    bool
}

func (m *cmpMon) Clone() Monitor      { c := *m; return &c }
func (m *cmpMon) Roots() []*Term      { return []*Term{m.lo, m.hi} }
func (m *cmpMon) SetRoots(ts []*Term) { m.lo, m.hi = ts[0], ts[1] }
func (m *cmpMon) Key() string         { return fmt.Sprint(m.hit, m.lo != nil) }

func (m *cmpMon) differs(st *State, i *Term) {
	switch {
	case m.lo == nil:
		m.lo, m.hi = i, addK(i, 1)
	case st.evalEq(i, m.hi) == yes:
		m.hi = addK(i, 1)
	case st.evalEq(addK(i, 1), m.lo) == yes:
		m.lo = i
	}
}

func (m *cmpMon) all(st *State, n *Term) bool {
	return m.lo != nil && st.provesLE(toLin(m.lo)) && st.provesLE(toLin(n).add(toLin(m.hi), -1))
}

// noEffects makes an engine report stores to memory the code did not allocate,
// unproved panics, map writes and goroutines.
func noEffects(e *Engine, r *Report, what string) {
	p := e.prog
	e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
		if rootOf(addr).op != OObj {
			r.fail("effect", what, posString(p, ins.Pos()), "%s writes memory it did not allocate: %s", what, addr)
		}
	}
	e.onMap = func(st *State, ins ssa.Instruction, m *Term) {
		if m.op != OObj {
			r.fail("effect", what, posString(p, ins.Pos()), "%s writes a map it did not allocate", what)
		}
	}
	e.onMayPanic = func(st *State, ins ssa.Instruction, kind string, proven bool) {
		r.count("panic_obligations", 1)
		if !proven {
			r.fail("panic", what+":"+kind, posString(p, ins.Pos()), "%s may panic (%s)", what, kind)
		}
	}
}

func checkC29(p *Program, r *Report) {
	r.rule("each predicate is interpreted over a node of unknown kind; on every path the answer must be implied, one way or the other, by the facts of the path and agree with the documented set of node kinds; no store to foreign memory, no unproved panic")
	m := p.nodes()
	kinds := map[string][]string{"Symbol": {"SymbolNode"}, "Newline": {"NewlineNode"}, "Vector": {"VectorNode"},
		"Keyword": {"KeywordNode"}, "Comment": {"CommentNode"},
		"Semantic": {"NewlineNode", "CommentNode", "MetadataNode", "TagNode"}}
	for name, ks := range kinds {
		for _, k := range ks {
			if m.kinds[k] == nil {
				r.fail("kind", k, "-", "node kind %s not found", k)
				return
			}
		}
		fn := p.fn("", name)
		if fn == nil {
			r.fail("anchor", name, "-", "predicate %s not found", name)
			continue
		}
		e := newEngine(p)
		e.closedNonNil = true
		e.initGlobals()
		noEffects(e, r, name)
		want := yes
		if name == "Semantic" {
			want = no
		}
		node := newSym("!node", m.iface)
		e.onExit = func(st *State, ret, pv *Term) []*State {
			if pv != nil {
				r.fail("panic", name, posString(p, fn.Pos()), "%s panics", name)
				return nil
			}
			r.count("paths", 1)
			for _, v := range []bool{true, false} {
				s := st.fork()
				if !s.assume(ret, v) {
					continue
				}
				w := want
				if !v {
					w = yes + no - want
				}
				if s.isKind(m, node, ks...) != w {
					r.fail("predicate", name, posString(p, fn.Pos()), "%s answers %v for node kinds %s", name, v, kindNames(s.kindsOf(m, node)))
				}
			}
			return nil
		}
		st := e.newState(nil)
		e.pushCall(st, fn, []*Term{node}, nil, nil)
		e.Run(st)
		r.engineStats(e)
		r.count("predicates", 1)
	}
	for name, kn := range map[string]string{"FnFormSymbol": "SymbolNode", "FnFormKeyword": "KeywordNode"} {
		checkFnForm(p, r, m, name, kn)
	}
	r.need("predicates", 8)
}

func kindNames(ks []*nodeKind) string {
	s := ""
	for i, k := range ks {
		if i > 0 {
			s += ", "
		}
		if i == 6 && len(ks) > 8 {
			return s + "..."
		}
		s += k.name
	}
	return s
}

func checkFnForm(p *Program, r *Report, m *nodeModel, name, kn string) {
	fn := p.fn("", name)
	list, k := m.kinds["ListNode"], m.kinds[kn]
	if fn == nil || list == nil || k == nil || list.seq == nil || k.texts["Val"] == nil {
		r.fail("anchor", name, "-", "%s or the node kinds it needs were not found", name)
		return
	}
	e := newEngine(p)
	e.closedNonNil = true
	e.initGlobals()
	noEffects(e, r, name)
	node := newSym("!node", m.iface)
	names := newSym("!names", types.NewSlice(tString))
	st := e.newState(&cmpMon{})
	// the terms the documentation speaks of
	nodesAddr := fieldAddr(st.ptrOf(node, list), list.seq)
	nodes := st.load(nodesAddr, types.NewSlice(m.iface))
	first := mkIdx(nodes, mkInt(0), m.iface)
	val := st.load(fieldAddr(st.ptrOf(first, k), k.texts["Val"]), tString)
	e.onAssume = func(st *State, t *Term, v bool) bool {
		if t.op == OBin && t.name == "==" {
			a, b := t.args[0], t.args[1]
			if b == val {
				a, b = b, a
			}
			if a == val && b.op == OIdx && b.args[0] == names {
				mon := st.mon.(*cmpMon)
				if v {
					mon.hit = true
				} else {
					mon.differs(st, b.args[1])
				}
			}
		}
		return true
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		if pv != nil {
			r.fail("panic", name, posString(p, fn.Pos()), "%s panics", name)
			return nil
		}
		r.count("paths", 1)
		for _, v := range []bool{true, false} {
			s := st.fork()
			if !s.assume(ret, v) {
				continue
			}
			mon := s.mon.(*cmpMon)
			isList := s.isKind(m, node, "ListNode")
			hasFirst := unknown
			if s.provesLE(lin{nil, 1}.add(toLin(mkLen(nodes)), -1)) {
				hasFirst = yes
			} else if s.provesLE(toLin(mkLen(nodes))) {
				hasFirst = no
			}
			isSym := s.isKind(m, first, kn)
			noNames := s.evalEq(mkLen(names), mkInt(0))
			allDiffer := mon.all(s, mkLen(names))
			ok := false
			if v {
				ok = isList == yes && hasFirst == yes && isSym == yes && (noNames == yes || mon.hit)
			} else {
				ok = isList == no || hasFirst == no || isSym == no || (noNames == no && allDiffer && !mon.hit)
			}
			if !ok {
				r.fail("predicate", name, posString(p, fn.Pos()), "%s answers %v where list=%v non-empty=%v %s=%v names-empty=%v name-equal=%v all-names-differ=%v",
					name, v, isList, hasFirst, kn, isSym, noNames, mon.hit, allDiffer)
			}
		}
		return nil
	}
	e.pushCall(st, fn, []*Term{node, names}, nil, nil)
	e.Run(st)
	r.engineStats(e)
	r.count("predicates", 1)
}

func (t tri) String() string { return [...]string{"?", "yes", "no"}[t] }
