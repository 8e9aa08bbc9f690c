package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Which indent style a form gets: the built-in table against the documentation,
// the merging of the caller's overrides, and the look-up of a form's name.

func init() { checks["C30"] = checkC30 }

var documentedStyles = map[string]string{
	"fn": "IndentListBody", "when": "IndentListBody", "when-not": "IndentListBody", "def": "IndentListBody", "defn": "IndentListBody",
	"let": "IndentLet", "binding": "IndentLet", "dotimes": "IndentLet", "if-let": "IndentLet", "when-some": "IndentLet", "loop": "IndentLet",
	"for": "IndentFor", "doseq": "IndentFor", "letfn": "IndentLetfn",
	"deftype": "IndentDeftype", "defrecord": "IndentDeftype", "defprotocol": "IndentDeftype", "definterface": "IndentDeftype", "extend-type": "IndentDeftype", "reify": "IndentDeftype",
	"cond": "IndentCond0", "case": "IndentCond1", "cond->": "IndentCond1", "cond->>": "IndentCond1", "condp": "IndentCond2",
}

var documentedThreads = map[string]string{"->": "ThreadFirstNormal", "some->": "ThreadFirstNormal", "cond->": "ThreadFirstCondArrow"}

// styleMon tells apart the ways that learnt different things from the tables.
type styleMon struct{ seen map[string]bool }

func (m *styleMon) Clone() Monitor {
	c := &styleMon{seen: map[string]bool{}}
	for k := range m.seen {
		c.seen[k] = true
	}
	return c
}
func (m *styleMon) Roots() []*Term      { return nil }
func (m *styleMon) SetRoots(ts []*Term) {}
func (m *styleMon) Key() string         { return strings.Join(sortedKeys(m.seen), ";") }

type styles struct {
	*settings
	pc             *printer
	style          *types.Named
	table, user    []int // the printer's fields
	userT, tableT  types.Type
	thread, userTh []int
	reqs, refs     []int
	strMap         types.Type
	marks          []int
	marksT         types.Type
	marked         *Term // its contents at first
}

func checkC30(p *Program, r *Report) {
	r.rule("(1) the formatter is followed from its entry to the printing: the table of styles must be the built-in one with everything in the caller's overrides put over it, and give every documented name its documented style unless overridden. (2) the function that prints a node is followed for a list and a function literal whose first form is a symbol of unknown text: the style the sequence is printed with must be the one found under the first of the documented names that has one, and every name before it must be known to have none")
	s := newSettings(p, r, "C30")
	pc := newPrinter(p, r, "C30")
	if s == nil || pc == nil {
		return
	}
	sc := &styles{settings: s, pc: pc}
	scope := p.pkgs["format"].Pkg.Scope()
	tn, _ := scope.Lookup("IndentStyle").(*types.TypeName)
	th, _ := scope.Lookup("ThreadFirstStyle").(*types.TypeName)
	st, ok := s.recv.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if tn == nil || th == nil || !ok {
		r.fail("anchor", "IndentStyle", "-", "the types of the styles were not found")
		return
	}
	sc.style, _ = tn.Type().(*types.Named)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		m, ok := f.Type().Underlying().(*types.Map)
		if !ok || !isString(m.Key()) {
			if ok && types.Identical(m.Elem(), tn.Type()) {
				sc.marks, sc.marksT = []int{i}, f.Type()
			}
			continue
		}
		switch {
		case types.Identical(m.Elem(), tn.Type()) && f.Exported():
			sc.user, sc.userT = []int{i}, f.Type()
		case types.Identical(m.Elem(), tn.Type()):
			sc.table, sc.tableT = []int{i}, f.Type()
		case types.Identical(m.Elem(), th.Type()) && f.Exported():
			sc.userTh = []int{i}
		case types.Identical(m.Elem(), th.Type()):
			sc.thread = []int{i}
		case isString(m.Elem()):
			sc.strMap = f.Type()
			switch f.Name() {
			case "requires":
				sc.reqs = []int{i}
			case "refers":
				sc.refs = []int{i}
			}
		}
	}
	if sc.user == nil || sc.table == nil || sc.reqs == nil || sc.refs == nil || sc.thread == nil || sc.userTh == nil || sc.marks == nil {
		r.fail("anchor", "Printer", "-", "the printer's tables of styles and names were not found")
		return
	}
	sc.tables()
	for _, k := range []string{"ListNode", "FnLiteralNode"} {
		sc.lookups(k)
	}
	r.need("tables_judged", 2)
	r.need("lookups_judged", 10)
}

func (sc *styles) value(name string) *Term {
	c, _ := sc.p.pkgs["format"].Pkg.Scope().Lookup(name).(*types.Const)
	if c == nil {
		return nil
	}
	n, _ := constant.Int64Val(c.Val())
	return mkConst(constant.MakeInt64(n), c.Type())
}

// inMap finds what map contents c hold under constant key k, given that the
// contents over do (or do not) hold it.
func inMap(st *State, c, k, over *Term, overridden bool, elem types.Type) *Term {
	for c != nil {
		if c == over {
			if overridden {
				return ext("lookup", elem, over, k)
			}
			return nil
		}
		switch c.name {
		case "put":
			switch st.evalEq(c.args[1], k) {
			case yes:
				return c.args[2]
			case unknown:
				return nil
			}
			c = c.args[0]
		case "merge":
			if v := inMap(st, c.args[1], k, over, overridden, elem); v != nil || c.args[1] != over {
				return v
			}
			c = c.args[0]
		default:
			return nil
		}
	}
	return nil
}

// tables follows the entry up to the printing and looks at the tables.
func (sc *styles) tables() {
	r, p := sc.r, sc.p
	e := sc.engine()
	e.smallK = 1
	e.unrollMaps = true
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	st := e.newState(nil)
	var args []*Term
	for i, prm := range sc.entry.Params {
		x := newSym("!"+prm.Name(), prm.Type())
		if i == 0 || isPtr(prm.Type()) {
			st.facts.bools[eqTerm(x, nilTerm)] = false
		}
		args = append(args, x)
	}
	type tab struct {
		what        string
		table, user []int
		typ         types.Type
		doc         map[string]string
	}
	recv := sc.recv.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	tabs := []tab{{"indent styles", sc.table, sc.user, sc.tableT, documentedStyles},
		{"thread-first styles", sc.thread, sc.userTh, recv.Field(sc.thread[0]).Type(), documentedThreads}}
	var over []*Term
	for _, t := range tabs {
		over = append(over, st.mapContent(st.load(fieldAddr(args[0], t.user), recv.Field(t.user[0]).Type())))
	}
	judged := 0
	judge := func(st *State, pos token.Pos) {
		for i, t := range tabs {
			c := st.mapContent(st.load(fieldAddr(args[0], t.table), t.typ))
			elem := t.typ.Underlying().(*types.Map).Elem()
			where := posString(p, pos)
			r.count("tables_judged", 1)
			any := newSym("!anyname", tString)
			if c != over[i] {
				v := inMap(st, c, any, over[i], true, elem)
				if v == nil || v != ext("lookup", elem, over[i], any) {
					r.fail("override", t.what, where, "the %s the printing goes by do not have everything in the caller's overrides over the built-in ones", t.what)
					continue
				}
			}
			for name, want := range t.doc {
				w := sc.value(want)
				if w == nil {
					r.fail("anchor", want, "-", "the style %s was not found", want)
					continue
				}
				r.count("documented_names", 1)
				v := inMap(st, c, mkStr(name), over[i], false, elem)
				if v == nil || st.evalEq(v, w) != yes {
					got := "none"
					if v != nil {
						got = v.String()
					}
					r.fail("documented", name, where, "%s does not have the documented style %s (it has %s)", name, want, got)
				}
			}
		}
	}
	drive := sc.driveCalls(func(st *State, ci *callInfo, x *Term) {})
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		if ci.fn != nil && (ci.fn == sc.pc.seq || ci.fn == sc.pc.node) {
			judged++
			judge(st, ci.pos)
			return true, nil
		}
		if ci.fn != nil && sc.p.ours(ci.fn) && sc.touchesTables(ci.fn, map[*ssa.Function]bool{}) {
			return false, nil
		}
		return drive(st, ci)
	}
	e.onElem = func(st *State, ins *ssa.UnOp, v *Term) []*State {
		if types.Identical(v.typ, sc.m.iface) {
			st.set(ins, newSym("form", sc.m.iface))
		}
		return []*State{st}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State { return nil }
	e.pushCall(st, sc.entry, args, nil, nil)
	e.Run(st)
	r.engineStats(e)
	if judged == 0 && !enough() {
		r.fail("anchor", "printing", posString(p, sc.entry.Pos()), "the formatter never gets to the printing")
	}
}

// touchesTables says whether f, or what it calls, may change a table of styles.
func (sc *styles) touchesTables(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	isTable := func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok || !isString(m.Key()) {
			return false
		}
		n := namedOf(m.Elem())
		return n != nil && (n.Obj().Name() == "IndentStyle" || n.Obj().Name() == "ThreadFirstStyle")
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.MapUpdate:
				if isTable(ins.Map.Type()) {
					return true
				}
			case *ssa.MakeMap:
				if isTable(ins.Type()) {
					return true
				}
			case *ssa.Store:
				if isTable(ins.Val.Type()) {
					return true
				}
			}
		}
	}
	for _, c := range sc.pc.g.out[f] {
		if sc.p.ours(c) && sc.touchesTables(c, seen) {
			return true
		}
	}
	return false
}

// lookups follows the printing of a form whose first element is a symbol.
func (sc *styles) lookups(kind string) {
	r, p, pc := sc.r, sc.p, sc.pc
	e := pc.engine()
	fn := pc.node
	k, sym := pc.m.kinds[kind], pc.m.kinds["SymbolNode"]
	if k == nil || sym == nil || k.seq == nil || sym.texts["Val"] == nil {
		r.fail("anchor", kind, "-", "the node kinds were not found")
		return
	}
	node := newSym("!node", pc.m.iface)
	st := e.newState(nil)
	args := pc.params(st, fn, node)
	st.facts.bools[eqTerm(node, nilTerm)] = false
	st.assumeType(node, k.typ, true)
	seqT := types.NewSlice(pc.m.iface)
	nodes := st.load(fieldAddr(st.ptrOf(node, k), k.seq), seqT)
	st.restrictInt(mkLen(nodes), rng(1, posInf))
	first := mkIdx(nodes, mkInt(0), pc.m.iface)
	st.facts.bools[eqTerm(first, nilTerm)] = false
	st.assumeType(first, sym.typ, true)
	name := st.load(fieldAddr(st.ptrOf(first, sym), sym.texts["Val"]), tString)
	styleAt := -1
	for i, prm := range pc.seq.Params {
		if types.Identical(prm.Type(), sc.style) {
			styleAt = i
		}
	}
	if styleAt < 0 {
		r.fail("anchor", pc.seq.Name(), posString(p, pc.seq.Pos()), "the printing of a sequence is given no style")
		return
	}
	sc.marked = st.mapContent(st.load(fieldAddr(args[0], sc.marks), sc.marksT))
	given := 0
	st.mon = &styleMon{seen: map[string]bool{}}
	e.onLookup = func(st *State, ins *ssa.Lookup, mp, k *Term, has bool) {
		st.mon.(*styleMon).seen[fmt.Sprint(mp, k, has)] = true
	}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		if _, ret, ok := pc.written(st, ci); ok {
			return true, []Outcome{{st: st, ret: ret}}
		}
		switch {
		case ci.fn == pc.node:
			return true, []Outcome{{st: st, ret: pc.col(st, ci.typ)}}
		case ci.fn == pc.seq:
			if a := pc.argOf(ci); st.content(a) != st.content(nodes) {
				return true, []Outcome{{st: st, ret: pc.col(st, ci.typ)}}
			}
			given++
			sc.judgeStyle(st, args[0], node, name, ci.args[styleAt], kind, ci.pos)
			return true, nil
		case pc.quiet(ci.fn) && ci.fn.Signature.Results().Len() == 0:
			// It marks the sub-forms, which are printed later.
			r.count("marking_calls", 1)
			return true, []Outcome{{st: st}}
		}
		return false, nil
	}
	e.onExit = func(st *State, ret, pv *Term) []*State { return nil }
	e.pushCall(st, fn, args, nil, nil)
	e.Run(st)
	r.engineStats(e)
	if given == 0 && !enough() {
		r.fail("anchor", kind, posString(p, fn.Pos()), "the forms of a %s are never printed", kind)
	}
}

func (sc *styles) judgeStyle(st *State, pr, node, name, got *Term, kind string, pos token.Pos) {
	r := sc.r
	where := posString(sc.p, pos)
	content := func(path []int, t types.Type) *Term { return st.mapContent(st.load(fieldAddr(pr, path), t)) }
	tab, reqs, refs := content(sc.table, sc.tableT), content(sc.reqs, sc.strMap), content(sc.refs, sc.strMap)
	// A style set for this very form comes first.
	if st.eval(ext("has", tBool, sc.marked, node)) == yes {
		r.count("marked_forms", 1)
		return
	}
	slash := mkStr("/")
	cuts := []*Term{ext("strings.LastIndex", tInt, name, slash), ext("strings.IndexRune", tInt, name, mkInt('/'))}
	var i *Term
	qualified := unknown
	for _, c := range cuts {
		if st.provesLE(lin{nil, 0}.add(toLin(c), -1)) {
			i, qualified = c, yes
		} else if st.provesLE(toLin(c).add(lin{nil, 1}, 1)) && qualified == unknown {
			qualified = no
		}
	}
	if h := ext("strings.Contains", tBool, name, slash); qualified == unknown && st.eval(h) == no {
		qualified = no
	}
	var names [][]*Term // each in the ways it may be put together
	has := func(c, k *Term) tri { return st.eval(ext("has", tBool, c, k)) }
	known := true
	resolved := func(c, k, un *Term) {
		switch has(c, k) {
		case yes:
			l := ext("lookup", tString, c, k)
			alt := []*Term{mkConcat(l, slash, un)}
			if qualified == yes {
				alt = append(alt, mkConcat(l, st.substr(name, i, mkLen(name))))
			}
			names = append(names, alt)
		case unknown:
			known = false
		}
	}
	switch qualified {
	case yes:
		ns, un := st.substr(name, mkInt(0), i), st.substr(name, addK(i, 1), mkLen(name))
		resolved(reqs, ns, un)
		names = append(names, []*Term{name}, []*Term{un})
	case no:
		resolved(refs, name, name)
		names = append(names, []*Term{name})
	default:
		r.fail("lookup", kind, where, "the name of a form is used with no regard to whether it is qualified")
		return
	}
	r.count("lookups_judged", 1)
	if !known {
		r.fail("lookup", kind, where, "the style of a form is chosen without looking for the namespace its name (qualified: %v) stands for", qualified)
		return
	}
	for n, alt := range names {
		k := alt[0]
		for _, a := range alt[1:] {
			if has(tab, k) == unknown {
				k = a
			}
		}
		switch has(tab, k) {
		case no:
			continue
		case unknown:
			r.fail("lookup", kind, where, "the style of a form is chosen without looking under name %d of the %d it goes by (qualified: %v)", n+1, len(names), qualified)
			return
		}
		v := ext("lookup", sc.style, tab, k)
		if st.evalEq(got, v) == yes || sc.threaded(st, v, got) {
			return
		}
		r.fail("lookup", kind, where, "a form is printed in another style than the one given for its name (name %d of %d, qualified: %v)", n+1, len(names), qualified)
		return
	}
	// No style for it: the defaults.
	r.count("defaults_judged", 1)
	un := name
	if qualified == yes {
		un = st.substr(name, addK(i, 1), mkLen(name))
	}
	if st.eval(ext("strings.HasPrefix", tBool, un, mkStr("def"))) == yes && st.evalEq(got, sc.value("IndentListBody")) == no {
		r.fail("default", kind, where, "a form whose name begins with def, with no style of its own, is not printed as one with a body")
	}
}

// threaded says whether got is style v for a form another one is threaded into.
func (sc *styles) threaded(st *State, v, got *Term) bool {
	for _, pair := range []string{"IndentCond1 IndentCond0", "IndentCond2 IndentCond1"} {
		f := strings.Fields(pair)
		a, b := sc.value(f[0]), sc.value(f[1])
		if a != nil && b != nil && st.evalEq(v, a) == yes && st.evalEq(got, b) == yes {
			return true
		}
	}
	return false
}
