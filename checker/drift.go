package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// driftBound is how far the indentation may lie from what it is relative to.
const driftBound = 8

// driftMon follows the indentation in one sequence.
type driftMon struct {
	cols   []*Term // the columns that the function is given
	first  *Term   // the column behind the first form
	ind    *Term   // what has been written at the start of this line; nil if something else follows it
	class  map[string]string
	visits map[int]int
}

func (m *driftMon) Clone() Monitor {
	c := *m
	c.class, c.visits = map[string]string{}, map[int]int{}
	for k, v := range m.class {
		c.class[k] = v
	}
	for k, v := range m.visits {
		c.visits[k] = v
	}
	return &c
}
func (m *driftMon) Roots() []*Term { return append([]*Term{m.first, m.ind}, m.cols...) }
func (m *driftMon) SetRoots(ts []*Term) {
	m.first, m.ind, m.cols = ts[0], ts[1], append([]*Term(nil), ts[2:]...)
}
func (m *driftMon) Key() string {
	var s []string
	for k, v := range m.class {
		s = append(s, k+v)
	}
	sort.Strings(s)
	var n []int
	for k := range m.visits {
		n = append(n, k)
	}
	sort.Ints(n)
	for _, k := range n {
		s = append(s, fmt.Sprint(k, ":", m.visits[k]))
	}
	return fmt.Sprint(m.first != nil, m.ind != nil, s)
}

// drift decides that the indentation in a sequence does not grow with it.
func (pc *printer) drift() {
	defer func(n, l int64) {
		widenSmall, widenLow, widenFar, widenBack = n, l, false, 0
	}(widenSmall, widenLow)
	widenSmall, widenLow, widenFar, widenBack = 0, 3, true, driftBound
	p, fn, r := pc.p, pc.seq, pc.r
	e := pc.engine()
	e.smallK = 1
	e.noExact = true
	nodes := newSym("!nodes", types.NewSlice(pc.m.iface))
	st := e.newState(&driftMon{class: map[string]string{}, visits: map[int]int{}})
	args := pc.params(st, fn, nodes)
	mon := st.mon.(*driftMon)
	for i, prm := range fn.Params {
		if types.Identical(prm.Type(), tInt) {
			mon.cols = append(mon.cols, args[i])
		}
	}
	nl := pc.m.kinds["NewlineNode"].typ
	head := func(st *State, seq *Term) bool {
		st.restrictInt(mkLen(seq), rng(0, posInf))
		arr, lo, _ := sliceParts(seq)
		return st.assumeType(st.loadElem(arr, lo, pc.m.iface), nl, false)
	}
	head(st, nodes)
	// near says what n is relative to.
	near := func(st *State, n *Term, bases ...*Term) string {
		for i, b := range bases {
			if b == nil {
				continue
			}
			if d := toLin(n).add(toLin(b), -1); st.provesLE(d.add(lin{nil, -driftBound}, 1)) && st.provesLE(lin{nil, 0}.add(d, -1)) {
				return fmt.Sprint(i)
			}
		}
		return "-"
	}
	at := posString(p, fn.Pos())
	flush := func(st *State, pos string) {
		mon := st.mon.(*driftMon)
		if mon.ind == nil {
			return
		}
		r.count("lines_judged", 1)
		if near(st, mon.ind, append([]*Term{mon.first}, mon.cols...)...) == "-" {
			pc.fail("C23", "drift", fn.Name(), pos, "the indentation of a line is not bounded by the column of its form or of what is behind its first form: %s", mon.ind)
		}
	}
	e.onArrive = func(st *State, blk *ssa.BasicBlock, header bool) {
		if blk.Parent() != fn {
			return
		}
		mon := st.mon.(*driftMon)
		if header {
			mon.class = map[string]string{}
			if mon.visits[blk.Index] < 3 {
				mon.visits[blk.Index]++
			}
		}
		for _, ins := range blk.Instrs {
			phi, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			v := st.val(phi)
			switch b, _ := basicOf(phi.Type()); {
			case b == nil:
			case b.Info()&types.IsBoolean != 0:
				mon.class[phi.Name()] = map[tri]string{yes: "T", no: "F", unknown: "?"}[st.eval(v)]
			case constantsOnly(phi, map[ssa.Value]bool{}):
				mon.class[phi.Name()] = "=" + v.String()
			case types.Identical(phi.Type(), tInt):
				mon.class[phi.Name()] = near(st, v, append([]*Term{mon.first}, mon.cols...)...)
			}
		}
	}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		mon := st.mon.(*driftMon)
		where := posString(p, ci.pos)
		if t, ret, ok := pc.written(st, ci); ok {
			for _, pt := range st.pieces(t) {
				if c, ok := pt.strVal(); ok {
					for _, ch := range c {
						switch {
						case ch == '\n':
							mon.ind = mkInt(0)
						case ch == ' ' || ch == '\t':
							if mon.ind != nil {
								mon.ind = addK(mon.ind, 1)
							}
						}
					}
					continue
				}
				if mon.ind == nil {
					continue
				}
				switch {
				case pt.op == OExt && pt.name == "repeat":
					unit := pt.args[0]
					if v, ok := unit.strVal(); ok && len(v) == 1 && strings.Trim(v, " \t") == "" || pc.isIndentChar(unit) {
						mon.ind = add(mon.ind, pt.args[1])
					}
				case pc.isIndentChar(pt):
					mon.ind = addK(mon.ind, 1)
				}
			}
			return true, []Outcome{{st: st, ret: ret}}
		}
		switch {
		case ci.fn == pc.node:
			flush(st, where)
			if mon.ind != nil {
				for i, prm := range ci.fn.Params {
					if types.Identical(prm.Type(), tInt) && near(st, ci.args[i], append([]*Term{mon.first}, mon.cols...)...) == "-" {
						pc.fail("C23", "column", fn.Name(), where, "the column that a form at the start of a line is given is not bounded by that of the form it is in: %s", ci.args[i])
					}
				}
			}
			mon.ind = nil
			ret := pc.col(st, ci.typ)
			if mon.first == nil {
				mon.first = ret
			}
			return true, []Outcome{{st: st, ret: ret}}
		case ci.fn == pc.seq:
			mon.ind = nil
			return true, []Outcome{{st: st, ret: pc.col(st, ci.typ)}}
		case pc.slice[ci.fn]:
			base := newSym("!fixed", types.NewSlice(pc.m.iface))
			head(st, base)
			return true, []Outcome{{st: st, ret: base}}
		case pc.quiet(ci.fn):
			return true, []Outcome{{st: st, ret: opaqueResult(ci.fn.Name(), ci.typ)}}
		}
		return false, nil
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		if pv == nil {
			r.count("sequence_exits", 1)
			flush(st, at)
		}
		return nil
	}
	e.pushCall(st, fn, args, nil, nil)
	e.Run(st)
	r.engineStats(e)
	r.need("lines_judged", 2)
	r.need("sequence_exits", 1)
}

// constantsOnly says whether v is one of a few constants.
func constantsOnly(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.Phi:
		for _, x := range v.Edges {
			if !constantsOnly(x, seen) {
				return false
			}
		}
		return true
	}
	return false
}
