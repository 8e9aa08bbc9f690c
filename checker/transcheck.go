package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// The rewriting of the tree before it is printed. Where the formatter hands
// a form to a function that may change it, the function is interpreted for a
// form of each kind, with unknown contents; the contents it leaves must be
// those it was given, newlines aside. Calls for sub-forms are the same
// question again.

func init() {
	checks["C17"] = checkC17
}

type workItem struct {
	fn   *ssa.Function
	clos []*Term // function values given along with the node
}

func (w workItem) key() string {
	var b strings.Builder
	b.WriteString(w.fn.String())
	for _, c := range w.clos {
		if c != nil {
			fmt.Fprintf(&b, " %d", c.id)
		}
	}
	return b.String()
}

type transformer struct {
	*printer
	work   []workItem
	seen   map[string]bool
	slices map[*ssa.Function]bool
	uses   map[*ssa.Function]bool // results of usesSettings
	rw     *rewriter
	nested func(st *State, x *Term, to workItem)
	judge  func(fn *ssa.Function, k *nodeKind, st *State, t track) // what else to ask of a finished sequence
	setup  func(w *rewriter)
	reach  func(k *nodeKind, st *State, src, v *Term) // asked, instead of how a sequence is put together, at the end
	begin  func(w *rewriter, starts []*State, src *Term) []*State
}

func newTransformer(p *Program, r *Report, id string) *transformer {
	pc := newPrinter(p, r, id)
	if pc == nil {
		return nil
	}
	return &transformer{printer: pc, seen: map[string]bool{}, slices: map[*ssa.Function]bool{}, uses: map[*ssa.Function]bool{}}
}

// nodeParam finds the parameter of f that is a node: its index, or -1.
func (tr *transformer) nodeParam(f *ssa.Function) int {
	at := -1
	for i, prm := range f.Params {
		if types.Identical(prm.Type(), tr.m.iface) || tr.m.kindOf(prm.Type()) != nil {
			if at >= 0 {
				return -1
			}
			at = i
		}
	}
	return at
}

// takesSettings says whether what f does may depend on which transforms are
// on: it is given a map or a truth value, or what holds one.
func (tr *transformer) takesSettings(f *ssa.Function) bool {
	for _, prm := range f.Params {
		if holdsSettings(prm.Type(), 0) {
			return true
		}
	}
	return false
}

// recursive says whether f may call itself.
func (tr *transformer) recursive(f *ssa.Function) bool {
	for _, g := range tr.g.reach(tr.g.out[f]...) {
		if g == f {
			return true
		}
	}
	return false
}

func isSettings(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	n, ok := m.Key().(*types.Named)
	return ok && n.Obj().Name() == "Transform"
}

// usesSettings says whether f, or what it calls, handles the settings of the
// transforms.
func (tr *transformer) usesSettings(f *ssa.Function) bool {
	if v, ok := tr.uses[f]; ok {
		return v
	}
	v := false
	for _, g := range tr.g.reach(f) {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if x, ok := ins.(ssa.Value); ok && isSettings(x.Type()) {
					v = true
				}
			}
		}
		for _, prm := range g.Params {
			v = v || isSettings(prm.Type())
		}
	}
	tr.uses[f] = v
	return v
}

func holdsSettings(t types.Type, depth int) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&types.IsBoolean != 0
	case *types.Map:
		return isSettings(t)
	case *types.Pointer:
		return depth < 2 && holdsSettings(u.Elem(), depth+1)
	case *types.Struct:
		n, ok := t.(*types.Named)
		if ok && (n.Obj().Pkg() == nil || n.Obj().Pkg().Name() != "format") {
			return false
		}
		for i := 0; i < u.NumFields(); i++ {
			if depth < 2 && holdsSettings(u.Field(i).Type(), depth+1) {
				return true
			}
		}
	}
	return false
}

// rewriterOf says whether f is a function that may change the node it is
// given.
func (tr *transformer) rewritesNode(f *ssa.Function) bool {
	return f != nil && tr.nodeW[f] && !tr.emits[f] && fnPkg(f) != tr.p.pkgs["parse"].Pkg && tr.nodeParam(f) >= 0 && (!tr.takesSettings(f) || tr.recursive(f))
}

// name describes the function and what it is given.
func (w workItem) name() string {
	s := w.fn.Name()
	for _, c := range w.clos {
		if c != nil {
			s += " " + c.String()
		}
	}
	return s
}

func (tr *transformer) add(ci *callInfo) workItem {
	it := workItem{fn: ci.fn, clos: closures(ci)}
	if !tr.seen[it.key()] {
		tr.seen[it.key()] = true
		tr.work = append(tr.work, it)
	}
	return it
}

// node gives the node a term stands for as an interface value.
func (tr *transformer) asNode(x *Term, t types.Type) *Term {
	if tr.m.kindOf(t) != nil {
		return mkIface(x, t)
	}
	return x
}

// headName stands for the name of the symbol that a list begins with.
func headName(x *Term) *Term { return ext("headName", tString, x) }

// formTest answers a call of the predicate that says whether a form is a list
// that begins with one of some symbols; what it must answer is another check's
// business (C29).
func (tr *transformer) formTest(st *State, ci *callInfo) []Outcome {
	if fnName(ci.fn) != "github.com/cespare/goclj.FnFormSymbol" || len(ci.args) != 2 {
		return nil
	}
	x := ci.args[0]
	c := st.content(ci.args[1])
	var out []Outcome
	for _, a := range c.args {
		if _, ok := st.knownStr(a); !ok || a.op == OSeg {
			return nil
		}
	}
	if len(c.args) == 0 {
		return nil
	}
	for _, a := range c.args {
		if st.evalStrEq(headName(x), a) == yes {
			return []Outcome{{st: st, ret: trueT}}
		}
		o := st.fork()
		if o.assumeType(x, tr.m.kinds["ListNode"].typ, true) && o.assume(eqTerm(headName(x), a), true) {
			out = append(out, Outcome{st: o, ret: trueT})
		}
		if !st.assume(eqTerm(headName(x), a), false) {
			return out
		}
	}
	return append(out, Outcome{st: st, ret: falseT})
}

// headIs says whether node x is a list whose first element is the symbol name.
func (st *State) headIs(m *nodeModel, x *Term, names ...string) tri {
	for _, name := range names {
		if st.evalStrEq(headName(x), mkStr(name)) == yes {
			return yes
		}
	}
	not := true
	for _, name := range names {
		if st.evalStrEq(headName(x), mkStr(name)) != no {
			not = false
		}
	}
	if not {
		return no
	}
	list := m.kinds["ListNode"]
	sym := m.kinds["SymbolNode"]
	switch st.isKind(m, x, "ListNode") {
	case no:
		return no
	case unknown:
		return unknown
	}
	kids := st.load(fieldAddr(st.ptrOf(x, list), list.seq), types.NewSlice(m.iface))
	c := st.content(kids)
	n := seqLen(c)
	if st.provesLE(toLin(n)) {
		return no
	}
	var first *Term
	if len(c.args) > 0 {
		if p := c.args[0]; p.op == OSeg {
			first = mkIdx(p.args[0], p.args[1], m.iface)
		} else {
			first = p
		}
	}
	if first == nil {
		return unknown
	}
	known := st.provesLE(lin{nil, 1}.add(toLin(n), -1))
	switch st.isKind(m, first, "SymbolNode") {
	case no:
		return no
	case unknown:
		return unknown
	}
	val := st.load(fieldAddr(st.ptrOf(first, sym), sym.texts["Val"]), types.Typ[types.String])
	all := true
	for _, name := range names {
		switch st.evalStrEq(val, mkStr(name)) {
		case yes:
			if known {
				return yes
			}
			all = false
		case unknown:
			all = false
		}
	}
	if all {
		return no
	}
	return unknown
}

type transMon struct{ bad string }

func (m *transMon) Clone() Monitor      { c := *m; return &c }
func (m *transMon) Roots() []*Term      { return nil }
func (m *transMon) SetRoots(ts []*Term) {}
func (m *transMon) Key() string         { return m.bad }

func checkC17(p *Program, r *Report) {
	r.rule("the formatter is followed from its entry to the calls that hand a form to a function that may change it; each such function is interpreted for a form of every kind with unknown contents, and the contents it leaves must be all those it was given that are no newlines, in order; an element of them at an unknown index is followed to decide that none is left out. A form that is known to be an ns form is left to the checks of ns forms")
	tr := newTransformer(p, r, "C17")
	if tr == nil {
		return
	}
	tr.drive()
	r.need("rewriting_calls", 3)
	tr.contracts()
	r.need("rewriters", 3)
	r.need("kinds_rewritten", 20)
}

// driveCalls says what to do at the calls met when following the formatter's
// entry; found is told of those that may change a form (or, with x nil, that
// rewrite a sequence).
func (tr *transformer) driveCalls(found func(st *State, ci *callInfo, x *Term)) func(st *State, ci *callInfo) (bool, []Outcome) {
	return func(st *State, ci *callInfo) (bool, []Outcome) {
		f := ci.fn
		if f == nil {
			return false, nil
		}
		opaque := func() (bool, []Outcome) {
			return true, []Outcome{{st: st, ret: opaqueResult(f.Name(), ci.typ)}}
		}
		if outs := tr.formTest(st, ci); outs != nil {
			return true, outs
		}
		switch {
		case !tr.p.ours(f):
			return false, nil
		case tr.emits[f]:
			return opaque()
		case tr.slice[f] && len(f.Params) == 1:
			tr.slices[f] = true
			found(st, ci, nil)
			return true, []Outcome{{st: st, ret: ext("rewritten", ci.typ, ci.args[0])}}
		case tr.rewritesNode(f):
			i := tr.nodeParam(f)
			found(st, ci, tr.asNode(ci.args[i], f.Params[i].Type()))
			return opaque()
		case tr.nodeW[f]:
			return false, nil
		}
		res := f.Signature.Results()
		if res.Len() == 1 {
			if b, ok := basicOf(res.At(0).Type()); ok && b.Info()&types.IsBoolean != 0 {
				return false, nil
			}
		}
		if tr.usesSettings(f) || fnPkg(f) != tr.p.pkgs["format"].Pkg {
			return false, nil
		}
		return opaque()
	}
}

// drive follows the formatter's entry.
func (tr *transformer) drive() {
	e := tr.engine()
	p, r := tr.p, tr.r
	e.smallK = 1
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	var tree *Term
	exits := 0
	e.onCall = tr.driveCalls(func(st *State, ci *callInfo, x *Term) {
		r.count("rewriting_calls", 1)
		switch {
		case x == nil:
		case st.headIs(tr.m, x, "ns") != yes:
			tr.add(ci)
		default:
			r.count("calls_for_ns_forms", 1)
		}
	})
	e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
		where := posString(p, ins.Pos())
		if tr.ofNode(st, addr) {
			r.fail("effect", fnName(ins.Parent()), where, "the formatter changes a node in a place that cannot be followed")
		}
		if rootOf(addr) != tree {
			return
		}
		old := st.load(addr, val.typ)
		for val.op == OExt && val.name == "rewritten" {
			val = val.args[0]
		}
		for old.op == OExt && old.name == "rewritten" {
			old = old.args[0]
		}
		if val != old {
			r.fail("roots", fnName(ins.Parent()), where, "the formatter replaces the root forms of the file by others")
		}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		exits++
		r.count("paths", 1)
		return nil
	}
	st := e.newState(&transMon{})
	var args []*Term
	for i, prm := range tr.entry.Params {
		x := newSym("!"+prm.Name(), prm.Type())
		if i == 0 || isPtr(prm.Type()) {
			st.facts.bools[eqTerm(x, nilTerm)] = false
		}
		if i > 0 {
			tree = x
		}
		args = append(args, x)
	}
	e.pushCall(st, tr.entry, args, nil, nil)
	e.Run(st)
	r.engineStats(e)
	if exits == 0 && !enough() {
		r.fail("undecided", "entry", posString(p, tr.entry.Pos()), "the formatter never returns")
	}
}

// contracts decides what every function found does to a form.
func (tr *transformer) contracts() {
	r := tr.r
	w := &rewriter{p: tr.p, r: r, m: tr.m}
	var fs []*ssa.Function
	for f := range tr.slices {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		r.count("rewriters", 1)
		w.sliceContract(f, false, r.fail)
	}
	for len(tr.work) > 0 {
		it := tr.work[0]
		tr.work = tr.work[1:]
		r.count("rewriters", 1)
		i := tr.nodeParam(it.fn)
		for _, name := range tr.m.order {
			k := tr.m.kinds[name]
			if pk := tr.m.kindOf(it.fn.Params[i].Type()); pk != nil && pk != k {
				continue
			}
			r.count("kinds_rewritten", 1)
			tr.rewriteKind(it, k)
		}
	}
}

func (tr *transformer) rewriteKind(it workItem, k *nodeKind) {
	p, r, m, fn := tr.p, tr.r, tr.m, it.fn
	e := newEngine(p)
	e.closedNonNil = true
	e.smallK = 1
	e.noExact = true
	e.maxStates = 20000
	e.budget = 60 * time.Second
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	e.initGlobals()
	w := &rewriter{p: p, r: r, m: m, e: e}
	tr.rw = w
	defer func(n int64) { widenLow = n }(widenLow)
	what := fn.Name() + " " + k.name
	where := posString(p, fn.Pos())
	seqT := types.NewSlice(m.iface)
	ptr := newSym("!n", k.typ)
	self := mkIface(ptr, k.typ)
	pkg := p.pkgs["parse"].Pkg
	setter := p.ssa.LookupMethod(k.typ, pkg, "SetChildren")
	var fieldA, src *Term
	switch {
	case k.seq != nil:
		fieldA = fieldAddr(ptr, k.seq)
		src = T.intern(&Term{op: OInit, args: []*Term{fieldA}, typ: seqT})
	case k.single != nil:
		fieldA = fieldAddr(ptr, k.single)
		src = newSym("!none", seqT)
	default:
		src = newSym("!none", seqT)
	}
	var parentA *Term
	if k.parent != nil {
		parentA = fieldAddr(ptr, k.parent)
	}
	e.onArrive = w.arrive
	e.onAppend = w.onAppend
	e.onAssert = w.onAssert
	if tr.setup != nil {
		tr.setup(w)
		if w.tight {
			widenLow = 4
		}
	}
	if tr.reach != nil {
		w.watch()
	}
	e.onDispatch = func(st *State, ci *callInfo) (bool, []Outcome) {
		switch ci.method.Name() {
		case "setParent":
			return true, []Outcome{{st: st}}
		case "Children", "Position", "String", "Parent":
			return true, []Outcome{{st: st, ret: opaqueResult(ci.method.Name(), ci.typ)}}
		case "SetChildren":
			r.fail("effect", what, posString(p, ci.pos), "%s changes a form other than the one it is given", fn.Name())
			return true, []Outcome{{st: st}}
		}
		return false, nil
	}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		f := ci.fn
		if f == nil {
			return false, nil
		}
		switch {
		case ci.method != nil && f.Name() == "setParent":
			return true, []Outcome{{st: st}}
		case f == setter && ci.args[0] == ptr && fieldA != nil:
			v := ci.args[1]
			if k.seq != nil {
				st.store(fieldA, v, seqT)
			} else {
				st.store(fieldA, st.loadSlice(v, mkInt(0), m.iface), m.iface)
			}
			if w.newlines && tr.reach == nil && k.seq != nil {
				var outs []Outcome
				for _, o := range w.given(st, v) {
					outs = append(outs, Outcome{st: o})
				}
				return true, outs
			}
			if tr.reach != nil && k.seq != nil {
				m := st.mon.(*rewriteMon)
				m.fin = false
				for _, h := range m.hits {
					m.fin = m.fin || st.holdsBase(v, h)
				}
			}
			return true, []Outcome{{st: st}}
		case ci.method != nil && f.Name() == "SetChildren" && rootOf(ci.args[0]).op != OObj && ci.args[0] != ptr:
			r.fail("effect", what, posString(p, ci.pos), "%s changes a form other than the one it is given", fn.Name())
			return true, []Outcome{{st: st}}
		case tr.rewritesNode(f):
			i := tr.nodeParam(f)
			x := tr.asNode(ci.args[i], f.Params[i].Type())
			if x == self || st.evalEq(x, self) == yes {
				return false, nil // part of the work on this form
			}
			r.count("nested_calls", 1)
			it := tr.add(ci)
			if tr.nested != nil {
				tr.nested(st, x, it)
				if m := st.mon.(*rewriteMon); tr.reach != nil && k.seq != nil && len(m.hits) > 0 {
					m.fin = m.fin || st.holdsBase(st.load(fieldA, seqT), m.hits[len(m.hits)-1])
				}
			}
			return true, []Outcome{{st: st, ret: opaqueResult(f.Name(), ci.typ)}}
		}
		return false, nil
	}
	e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
		root := rootOf(addr)
		w.changed(st, root)
		switch {
		case root.op == OObj, fieldA != nil && addr == fieldA, parentA != nil && addr == parentA:
		case root.op == OArr && root.args[0] == src:
		default:
			r.fail("effect", what, posString(p, ins.Pos()), "%s changes something other than the sequence of forms it is given", fn.Name())
		}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		r.count("rewrite_exits", 1)
		if pv != nil {
			return nil
		}
		if tr.reach != nil {
			var v *Term
			switch {
			case k.seq != nil:
				v = st.load(fieldA, seqT)
			case k.single != nil:
				v = T.intern(&Term{op: OInit, args: []*Term{fieldA}, typ: m.iface})
			}
			tr.reach(k, st, src, v)
			return nil
		}
		if k.seq == nil {
			if k.single != nil {
				old := T.intern(&Term{op: OInit, args: []*Term{fieldA}, typ: m.iface})
				if st.evalEq(st.load(fieldA, m.iface), old) != yes {
					tr.fail("C17", "order", what, where, "%s replaces the form that a %s holds", fn.Name(), k.name)
				}
			}
			return nil
		}
		for _, o := range w.result(st, st.load(fieldA, seqT)) {
			if why := w.verdict(o.t); why != "" {
				if debugLevel == "f" {
					fmt.Printf("BAD %+v %s\n", o.t, o.st.dump())
				}
				tr.fail("C17", "order", what, where, "%s, given a %s: what it leaves %s", fn.Name(), k.name, why)
			}
			if tr.judge != nil {
				tr.judge(fn, k, o.st, o.t)
			}
		}
		return nil
	}
	starts := w.start(src, fn)
	if k.seq == nil {
		starts = starts[:1]
	}
	if tr.begin != nil {
		starts = tr.begin(w, starts, src)
	}
	for _, st := range starts {
		st.facts.bools[eqTerm(ptr, nilTerm)] = false
		st.assumeType(self, k.typ, true)
		if k.seq != nil {
			st.heap[fieldA] = src
		}
		var args []*Term
		for i, prm := range fn.Params {
			switch {
			case i == tr.nodeParam(fn) && m.kindOf(prm.Type()) != nil:
				args = append(args, ptr)
			case i == tr.nodeParam(fn):
				args = append(args, self)
			case it.clos[i] != nil:
				args = append(args, it.clos[i])
			default:
				args = append(args, newSym("!"+prm.Name(), prm.Type()))
			}
		}
		e.pushCall(st, fn, args, nil, nil)
		e.Run(st)
	}
	r.engineStats(e)
}

// holdsBase says whether the elements of slice value v are all those of base.
func (st *State) holdsBase(v, base *Term) bool {
	c := st.content(v)
	return len(c.args) == 1 && c.args[0].op == OSeg && c.args[0].args[0] == base
}

// loadSlice reads element i of slice value v.
func (st *State) loadSlice(v, i *Term, typ types.Type) *Term {
	arr, lo, _ := sliceParts(v)
	return st.loadElem(arr, add(lo, i), typ)
}
