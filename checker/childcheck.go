package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The bookkeeping of sub-forms and parents. Each method of each node kind is
// interpreted for a node with unknown contents; calls of setParent on the
// sub-forms are events, and a range of indices says for which of them the
// event has happened.

func init() { checks["C07"] = checkC07 }

// covered is the range of indices for which something has been done.
type covered struct{ lo, hi *Term }

func (c *covered) add(st *State, i *Term) {
	switch {
	case c.lo == nil:
		c.lo, c.hi = i, addK(i, 1)
	case st.evalEq(i, c.hi) == yes:
		c.hi = addK(i, 1)
	case st.evalEq(addK(i, 1), c.lo) == yes:
		c.lo = i
	}
}

func (c *covered) all(st *State, n *Term) bool {
	if st.provesLE(toLin(n)) {
		return true
	}
	return c.lo != nil && st.provesLE(toLin(c.lo)) && st.provesLE(toLin(n).add(toLin(c.hi), -1))
}

// childMon follows what is done to the sub-forms: cov[0] those that lost
// their parent, cov[1] those that got one, cov[2] those descended into.
type childMon struct {
	cov   [3]covered
	set   bool
	bad   string
	last  *Term // the root linked last
	pend  *Term // the root kept last, if not linked yet
	dirty bool  // some root was kept and not linked
}

func (m *childMon) Clone() Monitor { c := *m; return &c }
func (m *childMon) Roots() []*Term {
	out := []*Term{m.last, m.pend}
	for _, c := range m.cov {
		out = append(out, c.lo, c.hi)
	}
	return out
}
func (m *childMon) SetRoots(ts []*Term) {
	m.last, m.pend = ts[0], ts[1]
	for i := range m.cov {
		m.cov[i].lo, m.cov[i].hi = ts[2+2*i], ts[3+2*i]
	}
}
func (m *childMon) Key() string {
	return fmt.Sprint(m.set, m.bad, m.dirty, m.last != nil, m.pend != nil, m.cov[0].lo != nil, m.cov[1].lo != nil, m.cov[2].lo != nil)
}

func checkC07(p *Program, r *Report) {
	r.rule("for each node kind, Children, SetChildren, Parent and setParent are interpreted over a node with unknown contents and an unknown list: Children must be exactly the sub-forms held, SetChildren must clear the parents of all sub-forms held before and then set those of all the new ones, or panic for a leaf or a wrong number; the linking of parents after parsing must set the parent of each child and descend into each, for each root kept; no other code stores a parent")
	m := p.nodes()
	if m.iface == nil || len(m.kinds) < 20 {
		r.fail("anchor", "kinds", "-", "the node kinds were not found")
		return
	}
	for _, name := range m.order {
		checkKind(p, r, m, m.kinds[name])
	}
	r.need("kinds", 20)
	r.need("methods", 80)
	checkParentStores(p, r, m)
	checkLinking(p, r, m)
}

func checkKind(p *Program, r *Report, m *nodeModel, k *nodeKind) {
	r.count("kinds", 1)
	pkg := p.pkgs["parse"].Pkg
	if k.parent == nil {
		r.fail("anchor", k.name, "-", "%s has no field for its parent", k.name)
		return
	}
	seqT := types.NewSlice(m.iface)
	for _, name := range []string{"Parent", "setParent", "Children", "SetChildren"} {
		fn := p.ssa.LookupMethod(k.typ, pkg, name)
		if fn == nil {
			r.fail("anchor", k.name+"."+name, "-", "method %s of %s not found", name, k.name)
			continue
		}
		r.count("methods", 1)
		where := posString(p, fn.Pos())
		what := k.name + "." + name
		e := newEngine(p)
		e.closedNonNil = true
		e.initGlobals()
		recv := newSym("!n", k.typ)
		self := mkIface(recv, k.typ)
		st := e.newState(&childMon{})
		st.facts.bools[eqTerm(recv, nilTerm)] = false
		st.assumeType(self, k.typ, true)
		parentAddr := fieldAddr(recv, k.parent)
		oldParent := st.load(parentAddr, m.iface)
		var fieldA, old *Term
		switch {
		case k.seq != nil:
			fieldA = fieldAddr(recv, k.seq)
			old = st.load(fieldA, seqT)
		case k.single != nil:
			fieldA = fieldAddr(recv, k.single)
			old = st.load(fieldA, m.iface)
			st.facts.bools[eqTerm(old, nilTerm)] = false
		}
		var arg *Term
		args := []*Term{recv}
		if name == "setParent" {
			arg = newSym("!parent", m.iface)
			args = append(args, arg)
		}
		if name == "SetChildren" {
			arg = newSym("!nodes", seqT)
			args = append(args, arg)
		}
		// which sub-form is x?
		event := func(st *State, x, par *Term) {
			mon := st.mon.(*childMon)
			clear := st.isNil(par) == yes
			isSelf := par == self || st.evalEq(par, self) == yes
			known := false
			index := func(base *Term) *Term {
				if x.op == OIdx && base != nil && x.args[0] == base {
					return x.args[1]
				}
				return nil
			}
			switch {
			case clear && k.seq != nil && index(old) != nil:
				mon.cov[0].add(st, index(old))
				known = true
			case clear && k.single != nil && st.evalEq(x, old) == yes:
				mon.cov[0].add(st, mkInt(0))
				known = true
			case isSelf && index(arg) != nil:
				mon.cov[1].add(st, index(arg))
				mon.set = true
				known = true
			}
			if clear && known && mon.set {
				mon.bad = "may take the parent of a sub-form away after giving it one"
			}
			if !known {
				mon.bad = "gives a node a parent that is neither nil for an old sub-form nor itself for a new one"
			}
		}
		e.onDispatch = func(st *State, ci *callInfo) (bool, []Outcome) {
			if ci.method.Name() == "setParent" && len(ci.args) == 2 {
				event(st, ci.args[0], ci.args[1])
				return true, []Outcome{{st: st}}
			}
			return false, nil
		}
		if name == "SetChildren" {
			e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
				if ci.method != nil && ci.method.Name() == "setParent" && ci.fn != nil && len(ci.args) == 2 {
					// of a node of known kind
					r.fail("parent", what, where, "%s treats some node kinds in their own way", what)
					return true, []Outcome{{st: st}}
				}
				return false, nil
			}
		}
		e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
			if rootOf(addr).op == OObj {
				return
			}
			switch {
			case name == "setParent" && addr == parentAddr:
			case name == "SetChildren" && fieldA != nil && addr == fieldA:
			default:
				r.fail("effect", what, posString(p, ins.Pos()), "%s writes something that is not its own: %s", what, addr)
			}
		}
		e.onMayPanic = func(st *State, ins ssa.Instruction, kind string, proven bool) {
			r.count("panic_obligations", 1)
			if !proven && kind != "nil-call" { // sub-forms are never nil
				r.fail("panic", what, posString(p, ins.Pos()), "%s may panic (%s)", what, kind)
			}
		}
		exits := 0
		e.onExit = func(st *State, ret, pv *Term) []*State {
			r.count("paths", 1)
			mon := st.mon.(*childMon)
			if mon.bad != "" {
				r.fail("parent", what, where, "%s %s", what, mon.bad)
				return nil
			}
			if name != "SetChildren" {
				if pv != nil {
					r.fail("panic", what, where, "%s panics", what)
					return nil
				}
				exits++
			}
			switch name {
			case "Parent":
				if st.evalEq(ret, oldParent) != yes {
					r.fail("parent", what, where, "%s does not return the parent that was set", what)
				}
			case "setParent":
				if v := st.load(parentAddr, m.iface); st.evalEq(v, arg) != yes {
					r.fail("parent", what, where, "%s does not keep the parent it is given", what)
				}
			case "Children":
				got := st.content(ret)
				ok := false
				switch {
				case k.seq != nil:
					ok = ret == old || got == st.content(old)
				case k.single != nil:
					ok = len(got.args) == 1 && got.args[0] == old
				default:
					ok = st.isNil(ret) == yes || st.provesLE(toLin(mkLen(ret)))
				}
				if !ok {
					r.fail("children", what, where, "%s is not exactly the sub-forms held", what)
				}
			case "SetChildren":
				n := mkLen(arg)
				one := st.evalEq(n, mkInt(1))
				if pv != nil {
					if k.seq != nil || k.single != nil && one != no {
						r.fail("count", what, where, "%s panics for a list it should accept", what)
					}
					return nil
				}
				exits++
				if k.leaf() {
					if !st.provesLE(toLin(n)) {
						r.fail("count", what, where, "%s accepts sub-forms for a leaf", what)
					}
					return nil
				}
				if k.single != nil {
					if one != yes {
						r.fail("count", what, where, "%s accepts a wrong number of sub-forms", what)
						return nil
					}
					if v := st.load(fieldA, m.iface); st.evalEq(v, mkIdx(arg, mkInt(0), m.iface)) != yes {
						r.fail("children", what, where, "%s does not keep the sub-form it is given", what)
					}
					if !mon.cov[0].all(st, mkInt(1)) {
						r.fail("parent", what, where, "%s leaves the sub-form it drops its parent", what)
					}
				} else {
					v := st.load(fieldA, seqT)
					if v != arg && st.content(v) != st.content(arg) {
						r.fail("children", what, where, "%s does not keep the sub-forms it is given", what)
					}
					if !mon.cov[0].all(st, mkLen(old)) {
						r.fail("parent", what, where, "%s leaves some sub-form it drops its parent", what)
					}
				}
				if !mon.cov[1].all(st, n) {
					r.fail("parent", what, where, "%s does not become the parent of every sub-form it is given", what)
				}
			}
			return nil
		}
		e.pushCall(st, fn, args, nil, nil)
		e.Run(st)
		r.engineStats(e)
		if exits == 0 && !(name == "SetChildren" && k.leaf()) && !enough() {
			r.fail("undecided", what, where, "%s never returns", what)
		}
	}
}

// parentWrites says whether ins stores a parent.
func parentWrites(m *nodeModel, ins ssa.Instruction) bool {
	s, ok := ins.(*ssa.Store)
	if !ok {
		return false
	}
	fa, ok := s.Addr.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	if c, ok := s.Val.(*ssa.Const); ok && c.IsNil() {
		if _, fresh := fa.X.(*ssa.Alloc); fresh {
			return false
		}
	}
	st := structOf(pointee(fa.X.Type()))
	if st == nil {
		return false
	}
	f := st.Field(fa.Field)
	if f.Exported() || !types.Identical(f.Type(), m.iface) {
		return false
	}
	// a field of a node, or of a struct that nodes are made of
	for _, k := range m.kinds {
		t := k.st
		for _, i := range k.parent {
			s := structOf(t)
			if s.Field(i) == f {
				return true
			}
			t = s.Field(i).Type()
		}
	}
	return false
}

func checkParentStores(p *Program, r *Report, m *nodeModel) {
	setters := map[*ssa.Function]bool{}
	for _, k := range m.kinds {
		if fn := p.ssa.LookupMethod(k.typ, p.pkgs["parse"].Pkg, "setParent"); fn != nil {
			setters[fn] = true
			for _, b := range fn.Blocks { // a wrapper for an embedded method
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
						setters[c.Common().StaticCallee()] = true
					}
				}
			}
		}
	}
	for _, fn := range p.fns {
		r.count("functions_scanned", 1)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if parentWrites(m, ins) && !setters[fn] {
					r.fail("effect", fnName(fn), posString(p, ins.Pos()), "%s stores a parent, which only setParent may do", fnName(fn))
				}
			}
		}
	}
}

// indexInSlices finds at which index x is in a sequence of nodes that some
// field holds.
func (st *State) indexInSlices(m *nodeModel, x *Term) *Term {
	for a, v := range st.heap {
		if x == nil || a.op != OField || v.op != OSlice || !isNodeSlice(v.typ, m.iface) {
			continue
		}
		c := st.content(v)
		if x.op == OExt && x.name == "elem" && x.args[0] == c {
			return x.args[1]
		}
		at := mkInt(0)
		for _, part := range c.args {
			if part == x {
				return at
			}
			if part.op == OSeg && x.op == OIdx && x.args[0] == part.args[0] &&
				st.lessEq(part.args[1], x.args[1]) && st.less(x.args[1], part.args[2]) {
				return add(at, sub(x.args[1], part.args[1]))
			}
			at = add(at, partLen(part))
		}
	}
	return nil
}

// checkLinking decides that parsing links every node below each root it keeps.
func checkLinking(p *Program, r *Report, m *nodeModel) {
	sp := p.pkgs["parse"]
	kindMethod := func(fn *ssa.Function) bool {
		rc := fn.Signature.Recv()
		return rc != nil && m.kindOf(rc.Type()) != nil
	}
	// The functions that link a node: they take one and set parents.
	links := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		if fnPkg(fn) != sp.Pkg || kindMethod(fn) || fn.Signature.Recv() != nil && namedOf(fn.Signature.Recv().Type()) != nil && namedOf(fn.Signature.Recv().Type()).Obj().Name() != "Tree" {
			continue
		}
		nodes := 0
		for _, prm := range fn.Params {
			if types.Identical(prm.Type(), m.iface) {
				nodes++
			}
		}
		if nodes == 1 && callsSetParent(p, fn, map[*ssa.Function]bool{}) {
			links[fn] = true
		}
	}
	if len(links) == 0 {
		r.fail("anchor", "linking", "-", "no function was found that gives nodes their parents after parsing")
		return
	}
	nodeArg := func(fn *ssa.Function, args []*Term) *Term {
		for i, prm := range fn.Params {
			if types.Identical(prm.Type(), m.iface) && i < len(args) {
				return args[i]
			}
		}
		return nil
	}
	done := map[*ssa.Function]bool{}
	linkOne := func(from *State, fn *ssa.Function, bindings []*Term) {
		if done[fn] {
			return
		}
		done[fn] = true
		r.count("linking_functions", 1)
		where := posString(p, fn.Pos())
		what := fnName(fn)
		e := newEngine(p)
		e.closedNonNil = true
		e.initGlobals()
		node := newSym("!node", m.iface)
		kids := newSym("!children", types.NewSlice(m.iface))
		event := func(st *State, i int, x *Term) {
			mon := st.mon.(*childMon)
			if x.op != OIdx || x.args[0] != kids {
				mon.bad = "does something to a node that is no child of the one it is given"
				return
			}
			mon.cov[i].add(st, x.args[1])
		}
		e.onDispatch = func(st *State, ci *callInfo) (bool, []Outcome) {
			switch ci.method.Name() {
			case "Children":
				if ci.args[0] == node {
					return true, []Outcome{{st: st, ret: kids}}
				}
			case "setParent":
				if st.evalEq(ci.args[1], node) != yes {
					st.mon.(*childMon).bad = "gives a node a parent other than the node that holds it"
				}
				event(st, 1, ci.args[0])
				return true, []Outcome{{st: st}}
			}
			return false, nil
		}
		e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
			if ci.fn != nil && links[ci.fn] && ci.fn == fn {
				event(st, 2, nodeArg(fn, ci.args))
				return true, []Outcome{{st: st, ret: opaqueResult(fn.Name(), ci.typ)}}
			}
			return false, nil
		}
		e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
			if rootOf(addr).op != OObj {
				r.fail("effect", what, posString(p, ins.Pos()), "%s changes something other than parents", what)
			}
		}
		e.onExit = func(st *State, ret, pv *Term) []*State {
			r.count("paths", 1)
			mon := st.mon.(*childMon)
			n := mkLen(kids)
			switch {
			case mon.bad != "":
				r.fail("linking", what, where, "%s %s", what, mon.bad)
			case pv != nil:
				r.fail("linking", what, where, "%s panics", what)
			case !mon.cov[1].all(st, n):
				r.fail("linking", what, where, "%s leaves some child without its parent", what)
			case !mon.cov[2].all(st, n):
				r.fail("linking", what, where, "%s does not go on to the children of some child", what)
			}
			return nil
		}
		st := e.newState(&childMon{})
		st.facts.bools[eqTerm(node, nilTerm)] = false
		if from != nil {
			for a, v := range from.heap {
				st.heap[a] = v
			}
		}
		var args []*Term
		for _, prm := range fn.Params {
			if types.Identical(prm.Type(), m.iface) {
				args = append(args, node)
			} else {
				args = append(args, newSym("!"+prm.Name(), prm.Type()))
			}
		}
		e.pushCall(st, fn, args, bindings, nil)
		e.Run(st)
		r.engineStats(e)
	}
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	for _, top := range []string{"Reader", "File"} {
		fn := sp.Func(top)
		if fn == nil {
			r.fail("anchor", top, "-", "%s not found", top)
			continue
		}
		where := posString(p, fn.Pos())
		e := newEngine(p)
		e.closedNonNil = true
		e.smallK = 1
		e.noExact = true
		e.initGlobals()
		e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
			f := ci.fn
			if f == nil {
				return false, nil
			}
			if links[f] {
				var bindings []*Term
				if ci.clo != nil && ci.clo.op == OClosure {
					bindings = ci.clo.args
				}
				linkOne(st, f, bindings)
				mon := st.mon.(*childMon)
				x := nodeArg(f, ci.args)
				if x != nil && mon.pend != nil && st.evalEq(x, mon.pend) == yes {
					mon.pend = nil
				}
				mon.last = x
				if i := st.indexInSlices(m, x); i != nil {
					mon.cov[2].add(st, i)
				}
				return true, []Outcome{{st: st, ret: opaqueResult(f.Name(), ci.typ)}}
			}
			if !p.ours(f) {
				return false, nil
			}
			for i := 0; i < f.Signature.Results().Len(); i++ {
				if types.Identical(f.Signature.Results().At(i).Type(), m.iface) {
					r.count("forms_read", 1)
					return true, []Outcome{{st: st, ret: opaqueResult(f.Name(), ci.typ)}}
				}
			}
			return false, nil
		}
		e.onAppend = func(st *State, ci *callInfo, s, xs, ret *Term) []Outcome {
			if isNodeSlice(ci.typ, m.iface) {
				mon := st.mon.(*childMon)
				for _, x := range xs.args {
					if x.op == OSeg {
						mon.dirty = true
						continue
					}
					r.count("roots_kept", 1)
					if mon.pend != nil {
						mon.dirty = true
					}
					mon.pend = nil
					if mon.last == nil || st.evalEq(x, mon.last) != yes {
						mon.pend = x
					}
				}
			}
			return []Outcome{{st: st, ret: ret}}
		}
		e.onArrive = func(st *State, blk *ssa.BasicBlock, header bool) {
			// a loop over all the roots kept so far?
			mon := st.mon.(*childMon)
			if header || mon.pend == nil && !mon.dirty || mon.cov[2].lo == nil {
				return
			}
			for a, v := range st.heap {
				if a.op == OField && v.op == OSlice && isNodeSlice(v.typ, m.iface) && mon.cov[2].all(st, mkLen(v)) {
					mon.pend, mon.dirty = nil, false
					return
				}
			}
		}
		e.onExit = func(st *State, ret, pv *Term) []*State {
			r.count("paths", 1)
			mon := st.mon.(*childMon)
			if pv != nil || ret == nil || ret.op != OTuple || len(ret.args) == 0 {
				return nil
			}
			tree := ret.args[0]
			if st.isNil(tree) == yes || mon.pend == nil && !mon.dirty {
				return nil
			}
			if debugLevel == "f" {
				fmt.Printf("BAD %+v %s\n", mon, st.dump())
			}
			r.fail("linking", top, where, "%s may return a tree with a root whose sub-forms were not given their parents", top)
			return nil
		}
		st := e.newState(&childMon{})
		e.pushCall(st, fn, nil, nil, nil)
		e.Run(st)
		r.engineStats(e)
	}
	r.need("linking_functions", 1)
	r.need("roots_kept", 1)
}
