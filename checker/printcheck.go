package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The printer is decided in two parts, each by induction on the tree. The
// function that prints one node is interpreted for a node of unknown kind,
// nested calls of the printing functions standing for "prints this sub-form"
// and "prints this sequence"; what it writes on each path is compared with
// the spelling the reader expects for each kind the node may then have. The
// function that prints a sequence is interpreted for a sequence of unknown
// length and contents, in lockstep with the elements of the sequence.

func init() {
	for _, id := range []string{"C10", "C11", "C22", "C23"} {
		id := id
		checks[id] = func(p *Program, r *Report) { checkPrinter(p, r, id) }
	}
}

type printer struct {
	p     *Program
	r     *Report
	id    string
	m     *nodeModel
	g     *callGraph
	entry *ssa.Function // PrintTree
	recv  types.Type
	node  *ssa.Function
	seq   *ssa.Function
	emits map[*ssa.Function]bool // functions that may write output
	nodeW map[*ssa.Function]bool // functions that may write to nodes or node slices
	slice map[*ssa.Function]bool // functions from a sequence to a sequence

	// what calls of seq from inside a node have in common, by parameter
	seqArgs [][]string
	seqMin  []bool
	seqSeen bool
	topArgs []*Term
	e       *Engine
	indent  *Term // the indent character
	delim   bool
	used    map[*ssa.Function]bool // rewriting functions that the printing of a sequence uses
	texts   map[*ssa.Function]bool // functions that rewrite the text of a string
}

func (pc *printer) fail(id, rule, construct, where, format string, args ...interface{}) {
	if id == pc.id {
		pc.r.fail(rule, construct, where, format, args...)
	}
}

func isStdWriter(name string) bool {
	switch name {
	case "(*bufio.Writer).WriteString", "(*bufio.Writer).WriteByte", "(*bufio.Writer).WriteRune", "(*bufio.Writer).Write",
		"io.WriteString", "fmt.Fprint", "fmt.Fprintf", "fmt.Fprintln", "(*bufio.Writer).Flush", "(*bufio.Writer).ReadFrom":
		return true
	}
	return false
}

func newPrinter(p *Program, r *Report, id string) *printer {
	pc := &printer{p: p, r: r, id: id, m: p.nodes(), g: p.callGraph(), emits: map[*ssa.Function]bool{}, nodeW: map[*ssa.Function]bool{}, slice: map[*ssa.Function]bool{}, used: map[*ssa.Function]bool{}, texts: map[*ssa.Function]bool{}}
	fn, pr := p.printEntry()
	if fn == nil || pr == nil {
		r.fail("anchor", "PrintTree", "-", "the formatter's entry was not found")
		return nil
	}
	pc.entry, pc.recv = fn, fn.Signature.Recv().Type()
	reach := pc.g.reach(fn)
	base := map[*ssa.Function]bool{}
	for _, f := range reach {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if sc := c.Common().StaticCallee(); sc != nil && isStdWriter(fnName(sc)) {
						base[f] = true
					}
				}
				if s, ok := ins.(*ssa.Store); ok && pc.nodeAddr(s.Addr) {
					pc.nodeW[f] = true
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range reach {
			for _, c := range pc.g.out[f] {
				if (base[c] || pc.emits[c]) && !pc.emits[f] {
					pc.emits[f] = true
					changed = true
				}
				if pc.nodeW[c] && !pc.nodeW[f] {
					pc.nodeW[f] = true
					changed = true
				}
			}
			if base[f] && !pc.emits[f] {
				pc.emits[f] = true
				changed = true
			}
		}
	}
	nodeSlice := types.NewSlice(pc.m.iface)
	var nodeF, seqF []*ssa.Function
	for _, f := range reach {
		nNode, nSeq, nStr := 0, 0, 0
		ps := f.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			t := ps.At(i).Type()
			switch {
			case types.Identical(t, pc.m.iface):
				nNode++
			case types.Identical(t, nodeSlice):
				nSeq++
			case isString(t):
				nStr++
			}
		}
		res := f.Signature.Results()
		if f.Synthetic == "" && fnPkg(f) == p.pkgs["format"].Pkg && !pc.emits[f] && nSeq == 1 && nNode == 0 && res.Len() == 1 && types.Identical(res.At(0).Type(), nodeSlice) {
			pc.slice[f] = true
		}
		if !pc.emits[f] || !pc.selfReach(f) || nStr > 0 {
			continue
		}
		if nNode == 1 && nSeq == 0 {
			nodeF = append(nodeF, f)
		}
		if nSeq == 1 && nNode == 0 {
			seqF = append(seqF, f)
		}
	}
	pick := func(fs []*ssa.Function, name string) *ssa.Function {
		for _, f := range fs {
			if f.Name() == name {
				return f
			}
		}
		if len(fs) == 1 {
			return fs[0]
		}
		return nil
	}
	pc.node, pc.seq = pick(nodeF, "printNode"), pick(seqF, "printSequence")
	if pc.node == nil || pc.seq == nil {
		r.fail("anchor", "printer", "-", "the functions that print a node and a sequence of nodes were not found")
		return nil
	}
	return pc
}

func isString(t types.Type) bool {
	b, ok := basicOf(t)
	return ok && b.Info()&types.IsString != 0
}

// nodeAddr says whether addr is a field of a node or an element of a sequence
// of nodes.
func (pc *printer) nodeAddr(addr ssa.Value) bool {
	switch a := addr.(type) {
	case *ssa.FieldAddr:
		if _, ok := a.X.(*ssa.Alloc); ok {
			return false // a node under construction
		}
		for _, k := range pc.m.kinds {
			if pt := pointee(a.X.Type()); pt != nil && types.Identical(pt, k.st) {
				return true
			}
		}
		return pc.nodeAddr(a.X)
	case *ssa.IndexAddr:
		return isNodeSlice(a.X.Type(), pc.m.iface)
	}
	return false
}

func (pc *printer) selfReach(f *ssa.Function) bool {
	for _, c := range pc.g.out[f] {
		for _, x := range pc.g.reach(c) {
			if x == f {
				return true
			}
		}
	}
	return false
}

// written gives the text a call writes, and the result of the call.
func (pc *printer) written(st *State, ci *callInfo) (text, ret *Term, ok bool) {
	if ci.fn == nil {
		return nil, nil, false
	}
	a := ci.args
	pair := func(t *Term) *Term {
		tup, _ := ci.typ.(*types.Tuple)
		return T.intern(&Term{op: OTuple, args: []*Term{mkLen(t), nilTerm}, typ: tup})
	}
	switch fnName(ci.fn) {
	case "(*bufio.Writer).WriteString", "io.WriteString":
		t := a[1]
		if s, ok := st.knownStr(t); ok {
			t = mkStr(s)
		}
		return t, pair(t), true
	case "(*bufio.Writer).Write":
		t := pc.textOf(st, a[1])
		return t, pair(t), true
	case "(*bufio.Writer).WriteByte":
		return chrText(a[1]), nilTerm, true
	case "(*bufio.Writer).WriteRune":
		t := chrText(a[1])
		return t, pair(t), true
	}
	return nil, nil, false
}

func chrText(c *Term) *Term {
	if v, ok := c.intVal(); ok {
		return mkStr(string(rune(v)))
	}
	return ext("rune2str", tString, c)
}

func (pc *printer) textOf(st *State, b *Term) *Term {
	if b.op == OExt && b.name == "str2bytes" {
		return b.args[0]
	}
	return ext("bytes2str", tString, st.content(b))
}

// parts splits a text into constant and unknown pieces.
func (st *State) pieces(t *Term) []*Term {
	if t.op == OExt && t.name == "concat" {
		var out []*Term
		for _, a := range t.args {
			out = append(out, st.pieces(a)...)
		}
		return out
	}
	if s, ok := st.knownStr(t); ok {
		if s == "" {
			return nil
		}
		return []*Term{mkStr(s)}
	}
	return []*Term{t}
}

// quiet says whether f can be skipped: it writes no output and no node, and
// yields at most a choice of style.
func (pc *printer) quiet(f *ssa.Function) bool {
	if f == nil || pc.emits[f] || pc.nodeW[f] || !pc.p.ours(f) || len(f.Blocks) == 0 || pc.slice[f] || neverReturns(f) {
		return false
	}
	if fnPkg(f) != pc.p.pkgs["format"].Pkg {
		return false
	}
	res := f.Signature.Results()
	style := res.Len() == 0
	for i := 0; i < res.Len(); i++ {
		t := res.At(i).Type()
		if n := namedOf(t); n != nil && !isPtr(t) && isIntType(t) && n.Obj().Pkg() == pc.p.pkgs["format"].Pkg {
			style = true
			continue
		}
		if b, ok := basicOf(t); ok && b.Info()&types.IsBoolean != 0 && res.Len() > 1 {
			continue
		}
		return false
	}
	return style
}

// ---- one node ----

type pev struct {
	kind byte // t text, n node, s sequence
	t    *Term
}

type nodeMon struct {
	out []pev
	ok  bool
}

func (m *nodeMon) Clone() Monitor { return &nodeMon{out: append([]pev(nil), m.out...)} }
func (m *nodeMon) Roots() []*Term {
	var ts []*Term
	for _, e := range m.out {
		ts = append(ts, e.t)
	}
	return ts
}
func (m *nodeMon) SetRoots(ts []*Term) {
	for i := range m.out {
		m.out[i].t = ts[i]
	}
}
func (m *nodeMon) Key() string {
	var b strings.Builder
	for _, e := range m.out {
		b.WriteByte(e.kind)
		if s, ok := e.t.strVal(); ok {
			b.WriteString(s)
		} else if !e.t.syms || e.t.op == OExt {
			fmt.Fprintf(&b, "#%d", e.t.id)
		}
	}
	return b.String()
}

// emit adds text to the node's output.
func (m *nodeMon) emit(st *State, t *Term) {
	for _, p := range st.pieces(t) {
		if s, ok := p.strVal(); ok && len(m.out) > 0 && m.out[len(m.out)-1].kind == 't' {
			if q, ok := m.out[len(m.out)-1].t.strVal(); ok {
				m.out[len(m.out)-1].t = mkStr(q + s)
				continue
			}
		}
		m.out = append(m.out, pev{'t', p})
	}
}

func checkPrinter(p *Program, r *Report, id string) {
	switch id {
	case "C10":
		r.rule("what the function that prints a node writes on each path, nested forms standing for themselves, is compared with the spelling of every node kind that the path allows; a form is refused only where it is a newline")
	case "C22":
		r.rule("the text of a string or regex is written as it is, unless the string is marked as a docstring; the function that marks them is followed for a form with unknown elements, one of which, at an unknown index, is watched, and so is one between it and the name; the function that rewrites a docstring is followed with two lines at unknown indexes watched: the first must be kept, another may be trimmed and given blanks in front, each once and in order")
	case "C23":
		r.rule(fmt.Sprintf("the function that prints a sequence is followed for a sequence of any length: the white space written at the start of a line must be as wide as one of the columns the function is given, or as the column behind the first form, or at most %d wider; and a form that is printed there must be told so, within the same bound", driftBound))
	case "C11":
		r.rule("the function that prints a sequence is followed element by element: each element printed once and in order, each newline of the tree written, something between any two forms, a newline after every comment, nothing else but the indent character")
	}
	pc := newPrinter(p, r, id)
	if pc == nil {
		return
	}
	r.sawFns(pc.g.reach(pc.node, pc.seq))
	if id == "C23" {
		pc.drift()
		return
	}
	pc.runNode()
	if id == "C22" {
		r.need("node_kinds", 20)
		pc.docMarks()
		for _, f := range pc.g.reach(pc.node) {
			if pc.texts[f] {
				pc.docText(f)
			}
		}
	}
	if id == "C11" {
		pc.runEntry()
		pc.runSeq(true)
		pc.runSeq(false)
		r.need("sequence_exits", 2)
		w := &rewriter{p: p, r: r, m: pc.m}
		for _, f := range p.fns {
			if pc.used[f] {
				w.sliceContract(f, true, r.fail)
			}
		}
	}
	if id == "C10" {
		r.need("node_kinds", 20)
	}
}

func (pc *printer) engine() *Engine {
	e := newEngine(pc.p)
	e.closedNonNil = true
	e.initGlobals()
	pc.e = e
	return e
}

// intArg adds that integer parameters are not negative.
func (pc *printer) params(st *State, fn *ssa.Function, node *Term) []*Term {
	var args []*Term
	for i, prm := range fn.Params {
		t := prm.Type()
		switch {
		case i == 0 && fn.Signature.Recv() != nil:
			x := newSym("!p", t)
			st.facts.bools[eqTerm(x, nilTerm)] = false
			args = append(args, x)
		case types.Identical(t, pc.m.iface), isNodeSlice(t, pc.m.iface):
			args = append(args, node)
		default:
			x := newSym("!"+prm.Name(), t)
			if isIntType(t) {
				st.restrictInt(x, rng(0, posInf))
			}
			args = append(args, x)
		}
	}
	return args
}

func (pc *printer) col(st *State, typ types.Type) *Term {
	if typ == nil {
		return nil
	}
	if tup, ok := typ.(*types.Tuple); ok && tup.Len() == 0 {
		return nil
	}
	t := opaqueResult("col", typ)
	if isIntType(typ) {
		st.restrictInt(t, rng(0, posInf))
	}
	return t
}

// argOf finds the node or sequence a call of a printing function is for.
func (pc *printer) argOf(ci *callInfo) *Term {
	for i, prm := range ci.fn.Params {
		if types.Identical(prm.Type(), pc.m.iface) || isNodeSlice(prm.Type(), pc.m.iface) {
			return ci.args[i]
		}
	}
	return nil
}

func (pc *printer) runNode() {
	e := pc.engine()
	fn := pc.node
	p := pc.p
	node := newSym("!node", pc.m.iface)
	pc.seqMin = make([]bool, len(pc.seq.Params))
	for i := range pc.seqMin {
		pc.seqMin[i] = true
	}
	pc.seqArgs = make([][]string, len(pc.seq.Params))
	kinds := map[string]bool{}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		mon := st.mon.(*nodeMon)
		if t, ret, ok := pc.written(st, ci); ok {
			mon.emit(st, t)
			return true, []Outcome{{st: st, ret: ret}}
		}
		switch {
		case ci.fn == pc.node:
			mon.out = append(mon.out, pev{'n', pc.argOf(ci)})
			return true, []Outcome{{st: st, ret: pc.col(st, ci.typ)}}
		case ci.fn == pc.seq:
			x := pc.argOf(ci)
			mon.out = append(mon.out, pev{'s', st.content(x)})
			pc.seqSeen = true
			for i, a := range ci.args {
				if isIntType(ci.fn.Params[i].Type()) && !st.provesLE(lin{nil, 1}.add(toLin(a), -1)) {
					pc.seqMin[i] = false
				}
				pc.seqArgs[i] = append(pc.seqArgs[i], fmt.Sprint(a.isConst(), a.id))
			}
			return true, []Outcome{{st: st, ret: pc.col(st, ci.typ)}}
		case pc.quiet(ci.fn):
			pc.r.count("style_calls", 1)
			return true, []Outcome{{st: st, ret: opaqueResult(ci.fn.Name(), ci.typ)}}
		case pc.rewrites(ci.fn):
			pc.texts[ci.fn] = true
			// What it does to the text is another question.
			var as []*Term
			for i, a := range ci.args {
				if isString(ci.fn.Params[i].Type()) {
					as = append(as, a)
				}
			}
			return true, []Outcome{{st: st, ret: ext("rewritten by "+ci.fn.Name(), tString, as...)}}
		}
		return false, nil
	}
	e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
		if pc.ofNode(st, addr) {
			pc.fail("C10", "effect", fn.Name(), posString(p, ins.Pos()), "printing a node changes the tree")
		}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		pc.r.count("node_paths", 1)
		for _, k := range st.kindsOf(pc.m, node) {
			kinds[k.name] = true
			pc.judge(st, node, k, pv)
		}
		return nil
	}
	st := e.newState(&nodeMon{})
	args := pc.params(st, fn, node)
	e.pushCall(st, fn, args, nil, nil)
	e.Run(st)
	pc.r.engineStats(e)
	pc.r.count("node_kinds", len(kinds))
	for _, k := range pc.m.order {
		if !kinds[k] && !enough() {
			pc.fail("C10", "kind", k, posString(p, fn.Pos()), "%s never returns for a %s", fn.Name(), k)
		}
	}
}

// ofNode says whether addr is memory of a node or sequence that was there
// before.
func (pc *printer) ofNode(st *State, addr *Term) bool {
	root := rootOf(addr)
	if root.op == OObj {
		return false
	}
	if root.op == OArr {
		return isNodeSlice(root.typ, pc.m.iface)
	}
	if root.typ == nil {
		return false
	}
	return pc.m.kindOf(root.typ) != nil
}

// spelling is what the reader expects for a node: a list of alternatives of
// pieces.
type piece struct {
	kind byte // t text, n node, s sequence
	t    *Term
	sp   bool // spaces may come before it
}

var spellings = map[string][2]string{
	"DerefNode": {"@", ""}, "QuoteNode": {"'", ""}, "SyntaxQuoteNode": {"`", ""}, "UnquoteNode": {"~", ""},
	"UnquoteSpliceNode": {"~@", ""}, "MetadataNode": {"^", ""}, "ReaderDiscardNode": {"#_", ""}, "ReaderEvalNode": {"#=", ""},
	"FnLiteralNode": {"#(", ")"}, "ReaderCondNode": {"#?(", ")"}, "ReaderCondSpliceNode": {"#?@(", ")"}, "ListNode": {"(", ")"},
	"VectorNode": {"[", "]"}, "SetNode": {"#{", "}"}, "MapNode": {"{", "}"}, "NilNode": {"nil", ""},
	"StringNode": {`"`, `"`}, "RegexNode": {`#"`, `"`}, "VarQuoteNode": {"#'", ""}, "TagNode": {"#", ""},
	"SymbolNode": {"", ""}, "KeywordNode": {"", ""}, "NumberNode": {"", ""}, "CharacterNode": {"", ""}, "CommentNode": {"", ""}, "BoolNode": {"", ""},
}

var textField = map[string]string{"SymbolNode": "Val", "KeywordNode": "Val", "NumberNode": "Val", "CharacterNode": "Text", "CommentNode": "Text",
	"StringNode": "Val", "RegexNode": "Val", "VarQuoteNode": "Val", "TagNode": "Val", "MapNode": "Namespace", "BoolNode": "Val"}

// judge compares what was written with the spelling of kind k.
func (pc *printer) judge(st0 *State, node *Term, k *nodeKind, pv *Term) {
	st := st0.fork()
	where := posString(pc.p, pc.node.Pos())
	if !st.assumeType(node, k.typ, true) {
		return
	}
	if k.name == "NewlineNode" {
		return // printed with the sequence
	}
	if pv != nil {
		pc.fail("C10", "refused", k.name, where, "%s panics for a %s", pc.node.Name(), k.name)
		return
	}
	sp, ok := spellings[k.name]
	if !ok {
		pc.fail("C10", "kind", k.name, where, "no spelling is known for node kind %s", k.name)
		return
	}
	ptr := st.ptrOf(node, k)
	text := func(name string) *Term {
		path := k.texts[name]
		if path == nil {
			return nil
		}
		return T.intern(&Term{op: OInit, args: []*Term{fieldAddr(ptr, path)}, typ: k.textType[name]})
	}
	field := func(path []int, typ types.Type) *Term {
		return T.intern(&Term{op: OInit, args: []*Term{fieldAddr(ptr, path)}, typ: typ})
	}
	var val *Term
	if f := textField[k.name]; f != "" {
		if val = text(f); val == nil {
			pc.fail("C10", "anchor", k.name, where, "field %s of %s not found", f, k.name)
			return
		}
	}
	mon := st.mon.(*nodeMon)
	want := []piece{{'t', mkStr(sp[0]), false}}
	try := func(s *State, want []piece, label string) {
		if why := pc.match(s, mon.out, want); why != "" {
			pc.fail("C10", "spelling", k.name, where, "a %s%s is written as %s (%s)", k.name, label, pc.show(mon.out), why)
		}
	}
	switch k.name {
	case "BoolNode":
		for _, v := range []bool{true, false} {
			s := st.fork()
			if !s.assume(val, v) {
				continue
			}
			if len(mon.out) == 1 && mon.out[0].t.op == OExt && strings.HasPrefix(mon.out[0].t.name, "strconv.FormatBool") && mon.out[0].t.args[0] == val {
				continue
			}
			try(s, []piece{{'t', mkStr(fmt.Sprint(v)), false}}, fmt.Sprintf(" (%v)", v))
		}
		return
	case "MapNode":
		for _, empty := range []bool{true, false} {
			s := st.fork()
			if !s.assume(eqTerm(val, mkStr("")), empty) {
				continue
			}
			w := want
			if !empty {
				w = append([]piece{{'t', mkStr("#"), false}, {'t', val, false}}, want...)
			}
			w = append(w, piece{'s', field(k.seq, types.NewSlice(pc.m.iface)), false}, piece{'t', mkStr(sp[1]), false})
			try(s, w, map[bool]string{true: "", false: " with a namespace"}[empty])
		}
		return
	case "StringNode":
		out := mon.out
		if len(out) == 3 && out[1].kind == 't' && out[1].t != val {
			// A docstring may be written with other indentation.
			if why := pc.isDocstring(st, ptr); why != "" {
				pc.fail("C22", "verbatim", k.name, where, "the contents of a string that is %s are not written as they are", why)
				pc.fail("C10", "spelling", k.name, where, "the contents of a string that is %s are not written as they are", why)
				return
			}
			if t := out[1].t; pc.id == "C22" && (t.op != OExt || !strings.HasPrefix(t.name, "rewritten by ") || len(t.args) != 1 || t.args[0] != val) {
				pc.fail("C22", "verbatim", k.name, where, "a docstring is written as something other than its contents with other indentation")
				return
			}
			if !derivedFrom(out[1].t, val) {
				pc.fail("C22", "verbatim", k.name, where, "a docstring is written as something other than its contents")
				pc.fail("C10", "spelling", k.name, where, "a docstring is written as something other than its contents")
				return
			}
			val = out[1].t
		}
		want = append(want, piece{'t', val, false}, piece{'t', mkStr(sp[1]), false})
		if pc.id == "C22" {
			if why := pc.match(st, mon.out, want); why != "" {
				pc.fail("C22", "verbatim", k.name, where, "a %s is written as %s (%s)", k.name, pc.show(mon.out), why)
			}
		}
		try(st, want, "")
		return
	case "TagNode":
		// Between # and the name spaces may stand; they have to where the
		// name would read as another dispatch macro.
		out := mon.out
		want = append(want, piece{'t', val, true})
		spaced := false
		if len(out) > 0 {
			if s, ok := out[0].t.strVal(); ok && strings.HasPrefix(s, "# ") {
				spaced = true
			}
		}
		try(st, want, "")
		if !spaced {
			for _, c := range "!'<=?^_" {
				if !st.notFirst(val, c) {
					pc.fail("C10", "spelling", k.name, where, "a tag whose name starts with %q is written directly after #, which reads as a dispatch macro", c)
					return
				}
			}
		}
		return
	case "UnquoteNode":
		sub := field(k.single, pc.m.iface)
		out := mon.out
		s, _ := "", false
		if len(out) > 0 {
			s, _ = out[0].t.strVal()
		}
		want = append(want, piece{'n', sub, true})
		try(st, want, "")
		if s == "~" && st.isKind(pc.m, sub, "DerefNode") != no {
			pc.fail("C10", "spelling", k.name, where, "an unquoted deref is written without a space, which reads as an unquote-splice")
		}
		return
	case "RegexNode":
		want = append(want, piece{'t', val, false}, piece{'t', mkStr(sp[1]), false})
		if why := pc.match(st, mon.out, want); why != "" {
			pc.fail("C22", "verbatim", k.name, where, "a regex is written as %s (%s)", pc.show(mon.out), why)
		}
		try(st, want, "")
		return
	}
	switch {
	case k.seq != nil:
		want = append(want, piece{'s', field(k.seq, types.NewSlice(pc.m.iface)), false}, piece{'t', mkStr(sp[1]), false})
	case k.single != nil:
		want = append(want, piece{'n', field(k.single, pc.m.iface), true})
	case val != nil:
		want = append(want, piece{'t', val, false})
	}
	try(st, want, "")
}

func (pc *printer) show(out []pev) string {
	var b strings.Builder
	for _, e := range out {
		switch {
		case e.kind == 'n':
			b.WriteString("<form>")
		case e.kind == 's':
			b.WriteString("<forms>")
		default:
			if s, ok := e.t.strVal(); ok {
				b.WriteString(s)
			} else {
				b.WriteString("<text>")
			}
		}
	}
	return b.String()
}

// match compares output with the pieces wanted; it returns what is wrong.
func (pc *printer) match(st *State, out []pev, want []piece) string {
	// both as characters and unknown pieces
	type tok struct {
		kind byte
		c    rune
		t    *Term
		sp   bool
	}
	var a, b []tok
	add := func(dst *[]tok, kind byte, t *Term, sp bool) {
		if kind != 't' {
			*dst = append(*dst, tok{kind: kind, t: t, sp: sp})
			return
		}
		for _, p := range st.pieces(t) {
			if s, ok := p.strVal(); ok {
				for i, c := range s {
					*dst = append(*dst, tok{kind: 'c', c: c, sp: sp && i == 0})
				}
				continue
			}
			*dst = append(*dst, tok{kind: 't', t: p, sp: sp})
		}
	}
	for _, e := range out {
		add(&a, e.kind, e.t, false)
	}
	for _, p := range want {
		add(&b, p.kind, p.t, p.sp)
	}
	i := 0
	for _, w := range b {
		if w.sp {
			for i < len(a) && a[i].kind == 'c' && a[i].c == ' ' {
				i++
			}
		}
		if i == len(a) {
			return "something is missing at the end"
		}
		g := a[i]
		switch {
		case g.kind != w.kind:
			return "the pieces do not match"
		case g.kind == 'c':
			if g.c != w.c {
				return fmt.Sprintf("%q instead of %q", g.c, w.c)
			}
		case g.kind == 't' || g.kind == 'n':
			if g.t != w.t && st.evalEq(g.t, w.t) != yes {
				return "not the text or form that the node holds"
			}
		case g.kind == 's':
			if g.t != st.content(w.t) {
				return fmt.Sprint("not the forms that the node holds", g.t, st.content(w.t))
			}
		}
		i++
	}
	if i < len(a) {
		return "more than its spelling is written"
	}
	return ""
}

func derivedFrom(t, val *Term) bool {
	if t == val {
		return true
	}
	for _, a := range t.args {
		if derivedFrom(a, val) {
			return true
		}
	}
	return false
}

// isDocstring says why the string node ptr is not known to be a docstring.
func (pc *printer) isDocstring(st *State, ptr *Term) string {
	for t, v := range st.facts.bools {
		if v && t.op == OExt && t.name == "has" && t.args[1] == ptr {
			return ""
		}
		// a flag kept in the map
		if v && t.op == OExt && t.name == "lookup" && t.args[1] == ptr {
			return ""
		}
	}
	return "not marked as a docstring"
}

// notFirst says whether text val is known not to start with c.
func (st *State) notFirst(val *Term, c rune) bool {
	if s, ok := st.knownStr(val); ok {
		return !strings.HasPrefix(s, string(c))
	}
	isByte0 := func(t *Term) bool {
		if !(t.op == OExt && t.name == "strat") || len(t.args) < 2 {
			return false
		}
		z, ok := t.args[1].intVal()
		return ok && z == 0 && t.args[0] == val
	}
	firstChar := func(t *Term) bool {
		if isByte0(t) {
			return true
		}
		return t.op == OExt && strings.HasPrefix(t.name, "unicode/utf8.DecodeRuneInString") && t.n == 0 && t.args[0] == val
	}
	for t, s := range st.facts.ints {
		if firstChar(t) && s.disjoint(single(int64(c))) {
			return true
		}
		if t.op == OExt && (t.name == "strings.IndexAny" && t.args[0] == val) && s.disjoint(single(0)) {
			if set, ok := t.args[1].strVal(); ok && strings.ContainsRune(set, c) {
				return true
			}
		}
		if t.op == OExt && strings.HasPrefix(t.name, "strings.Index") && len(t.args) == 2 && !s.empty() && s.max() < 0 {
			set, ok := t.args[0].strVal()
			if ok && strings.ContainsRune(set, c) && (firstChar(t.args[1]) || isFirstSub(t.args[1], val)) {
				return true
			}
		}
		if t.op == OExt && t.name == "strings.IndexRune" && t.args[0] == val && s.disjoint(single(0)) {
			if v, ok := t.args[1].intVal(); ok && v == int64(c) {
				return true
			}
		}
	}
	for t, v := range st.facts.bools {
		if v || t.op != OExt {
			// an equation with 0
			if v && t.op == OUn {
				continue
			}
			continue
		}
		if t.name == "strings.HasPrefix" && t.args[0] == val {
			if s, ok := t.args[1].strVal(); ok && s == string(c) {
				return true
			}
		}
		if (t.name == "strings.ContainsAny" || t.name == "strings.Contains") && len(t.args) == 2 {
			if isFirstSub(t.args[0], val) {
				if s, ok := t.args[1].strVal(); ok && strings.ContainsRune(s, c) && (t.name != "strings.Contains" || s == string(c)) {
					return true
				}
			}
			if s, ok := t.args[0].strVal(); ok && strings.ContainsRune(s, c) && isFirstSub(t.args[1], val) {
				return true
			}
		}
	}
	return false
}

func isFirstSub(t, val *Term) bool {
	if t.op == OExt && t.name == "substr" && t.args[0] == val {
		a, ok1 := t.args[1].intVal()
		b, ok2 := t.args[2].intVal()
		return ok1 && ok2 && a == 0 && b == 1
	}
	return false
}

// rewrites says whether f makes a text from another in a loop.
func (pc *printer) rewrites(f *ssa.Function) bool {
	if f == nil || pc.emits[f] || pc.nodeW[f] || !pc.p.ours(f) || len(f.Blocks) == 0 || fnPkg(f) != pc.p.pkgs["format"].Pkg {
		return false
	}
	res := f.Signature.Results()
	if res.Len() != 1 || !isString(res.At(0).Type()) {
		return false
	}
	for _, c := range pc.g.reach(f) {
		for h := range pc.p.info(c).header {
			if pc.p.info(c).header[h] {
				return true
			}
		}
	}
	return false
}

// info is the control flow of a function.
func (p *Program) info(f *ssa.Function) *fnInfo { return newEngine(p).info(f) }

// ---- a sequence ----

// seqMon follows the printing of a sequence.
type seqMon struct {
	base    *Term // the sequence printed
	next    *Term // the elements before it have been written
	content *Term // of base, nil if base is an unknown sequence
	fixed   *Term // whether a delimiter follows, as told to the function that made base; nil if base is the parameter
	isFixed bool
	started bool // a form has been written
	sep     bool // with something after it
	comment bool // it is a comment that has not been ended
}

func (m *seqMon) Clone() Monitor { c := *m; return &c }
func (m *seqMon) Roots() []*Term { return []*Term{m.base, m.next, m.fixed} }
func (m *seqMon) SetRoots(ts []*Term) {
	m.base, m.next, m.fixed = ts[0], ts[1], ts[2]
}
func (m *seqMon) Key() string {
	return fmt.Sprint(m.isFixed, m.started, m.sep, m.comment)
}

func (pc *printer) elem(st *State, m *seqMon) *Term {
	arr, lo, _ := sliceParts(m.base)
	return st.loadElem(arr, add(lo, m.next), pc.m.iface)
}

func (pc *printer) inside(st *State, m *seqMon) tri {
	n := mkLen(m.base)
	if st.provesLE(toLin(m.next).add(toLin(n), -1).add(lin{nil, 1}, 1)) {
		return yes
	}
	if st.provesLE(toLin(n).add(toLin(m.next), -1)) {
		return no
	}
	return unknown
}

// runEntry finds what the entry passes to the printing of the root sequence.
func (pc *printer) runEntry() {
	for _, f := range pc.g.reach(pc.entry) {
		if f == pc.node || f == pc.seq {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() != pc.seq || pc.within(f) {
					continue
				}
				pc.topArgs = make([]*Term, len(pc.seq.Params))
				for i, a := range c.Common().Args {
					if k, ok := a.(*ssa.Const); ok && k.Value != nil {
						pc.topArgs[i] = mkConst(k.Value, k.Type())
					}
				}
			}
		}
	}
	if pc.topArgs == nil {
		pc.r.fail("anchor", "roots", "-", "the call that prints the root forms was not found")
		pc.topArgs = make([]*Term, len(pc.seq.Params))
	}
}

// within says whether f is part of the printing of a node.
func (pc *printer) within(f *ssa.Function) bool {
	for _, x := range pc.g.reach(pc.node) {
		if x == f {
			return true
		}
	}
	return false
}

func (pc *printer) runSeq(delim bool) {
	e := pc.engine()
	e.smallK = 1
	e.noExact = true
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	fn, p := pc.seq, pc.p
	pc.delim = delim
	what := map[bool]string{true: "of a form", false: "of the file"}[delim]
	nodes := newSym("!nodes", types.NewSlice(pc.m.iface))
	st := e.newState(&seqMon{base: nodes, next: mkInt(0)})
	args := pc.params(st, fn, nodes)
	for i := range args {
		t := fn.Params[i].Type()
		if args[i] == nodes || i == 0 && fn.Signature.Recv() != nil {
			continue
		}
		if delim {
			same := true
			for _, a := range pc.seqArgs[i] {
				if a != pc.seqArgs[i][0] || strings.HasPrefix(a, "false") {
					same = false
				}
			}
			if isIntType(t) && pc.seqMin[i] {
				st.restrictInt(args[i], rng(1, posInf))
			}
			if same && len(pc.seqArgs[i]) > 0 {
				if b, ok := basicOf(t); ok && b.Info()&types.IsBoolean != 0 {
					args[i] = mkBool(pc.seqArgs[i][0] == fmt.Sprint(true, trueT.id))
				}
			}
		} else if pc.topArgs[i] != nil && namedOf(t) == nil {
			args[i] = pc.topArgs[i]
		}
	}
	bad := func(rule string, pos *callInfo, format string, a ...interface{}) {
		pc.fail("C11", rule, what, posString(p, pos.pos), "in a sequence "+what+": "+format, a...)
	}
	at := func(st *State, ci *callInfo, x *Term) []Outcome {
		mon := st.mon.(*seqMon)
		cur := pc.elem(st, mon)
		if pc.inside(st, mon) == no {
			bad("order", ci, "a form is written after the last one")
			return nil
		}
		if x != cur && st.evalEq(x, cur) != yes {
			bad("order", ci, "what is written is not the element that comes next")
			return nil
		}
		if mon.comment {
			if mon.isFixed {
				// The function that made the sequence put a newline there.
				if st.isKind(pc.m, x, "NewlineNode") == no {
					return nil
				}
			}
			bad("comment", ci, "something is written after a comment with no newline between")
			return nil
		}
		if st.isKind(pc.m, x, "NewlineNode") != no {
			bad("newline", ci, "a newline is written as a form")
			return nil
		}
		if mon.started && !mon.sep {
			bad("separator", ci, "two forms are written with nothing between them")
			return nil
		}
		pc.r.count("forms_written", 1)
		mon.next = addK(mon.next, 1)
		mon.started, mon.sep = true, false
		ret := pc.col(st, ci.typ)
		o := st.fork()
		var outs []Outcome
		ct := pc.m.kinds["CommentNode"].typ
		if st.assumeType(x, ct, true) {
			st.mon.(*seqMon).comment = true
			outs = append(outs, Outcome{st: st, ret: ret})
		}
		if o.assumeType(x, ct, false) {
			o.mon.(*seqMon).comment = false
			outs = append(outs, Outcome{st: o, ret: ret})
		}
		return outs
	}
	// newline handles a newline written.
	newline := func(st *State, ci *callInfo) []*State {
		mon := st.mon.(*seqMon)
		x := pc.elem(st, mon)
		var res []*State
		take := func(s *State) {
			m := s.mon.(*seqMon)
			m.next = addK(m.next, 1)
			m.sep, m.comment = true, false
			res = append(res, s)
		}
		extra := func(s *State) {
			m := s.mon.(*seqMon)
			if !m.comment {
				bad("newline", ci, "a newline is written that the sequence does not have")
				return
			}
			m.sep, m.comment = true, false
			res = append(res, s)
		}
		in := pc.inside(st, mon)
		if in == no {
			extra(st)
			return res
		}
		nl := pc.m.kinds["NewlineNode"].typ
		if in == unknown {
			o := st.fork()
			m := o.mon.(*seqMon)
			if o.addLE(toLin(mkLen(m.base)).add(toLin(m.next), -1)) {
				extra(o)
			}
			if !st.addLE(toLin(mon.next).add(toLin(mkLen(mon.base)), -1).add(lin{nil, 1}, 1)) {
				return res
			}
		}
		switch st.isKind(pc.m, x, "NewlineNode") {
		case yes:
			take(st)
		case no:
			extra(st)
		default:
			o := st.fork()
			if st.assumeType(x, nl, true) {
				take(st)
			}
			if o.assumeType(x, nl, false) {
				extra(o)
			}
		}
		return res
	}
	emit := func(st *State, ci *callInfo, text, ret *Term) []Outcome {
		states := []*State{st}
		for _, pt := range st.pieces(text) {
			var next []*State
			for _, s := range states {
				m := s.mon.(*seqMon)
				if c, ok := pt.strVal(); ok {
					cur := []*State{s}
					for _, ch := range c {
						var nx []*State
						for _, y := range cur {
							switch ch {
							case ' ', '\t', ',':
								y.mon.(*seqMon).sep = true
								nx = append(nx, y)
							case '\n':
								nx = append(nx, newline(y, ci)...)
							default:
								bad("text", ci, "%q is written between the forms", string(ch))
							}
						}
						cur = nx
					}
					next = append(next, cur...)
					continue
				}
				switch {
				case pt.op == OExt && pt.name == "repeat":
					unit := pt.args[0]
					if v, ok := unit.strVal(); ok && strings.Trim(v, " ") == "" || pc.isIndentChar(unit) {
						if s.provesLE(lin{nil, 1}.add(toLin(pt.args[1]), -1)) {
							m.sep = true
						}
						next = append(next, s)
						continue
					}
				case pc.isIndentChar(pt):
					m.sep = true
					next = append(next, s)
					continue
				}
				bad("text", ci, "some text is written between the forms")
			}
			states = next
		}
		var outs []Outcome
		for _, s := range states {
			outs = append(outs, Outcome{st: s, ret: ret})
		}
		return outs
	}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		mon := st.mon.(*seqMon)
		if t, ret, ok := pc.written(st, ci); ok {
			return true, emit(st, ci, t, ret)
		}
		switch {
		case ci.fn == pc.node:
			return true, at(st, ci, pc.argOf(ci))
		case ci.fn == pc.seq:
			bad("order", ci, "a sequence is printed inside the loop over another")
			return true, nil
		case pc.slice[ci.fn]:
			x := pc.argOf(ci)
			if mon.started || mon.isFixed || x != mon.base {
				bad("order", ci, "the sequence is rewritten while it is printed")
				return true, nil
			}
			base := newSym("!fixed", types.NewSlice(pc.m.iface))
			mon.base, mon.isFixed = base, true
			for i, a := range ci.args {
				if b, ok := basicOf(ci.fn.Params[i].Type()); ok && b.Info()&types.IsBoolean != 0 {
					mon.fixed = a
				}
			}
			pc.used[ci.fn] = true
			return true, []Outcome{{st: st, ret: base}}
		case pc.quiet(ci.fn):
			return true, []Outcome{{st: st, ret: opaqueResult(ci.fn.Name(), ci.typ)}}
		}
		return false, nil
	}
	e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
		if pc.ofNode(st, addr) {
			pc.fail("C11", "effect", what, posString(p, ins.Pos()), "printing a sequence changes the tree")
		}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		mon := st.mon.(*seqMon)
		pc.r.count("sequence_exits", 1)
		where := posString(p, fn.Pos())
		if pv != nil {
			pc.fail("C11", "panic", what, where, "printing a sequence %s panics", what)
			return nil
		}
		if pc.inside(st, mon) != no {
			pc.fail("C11", "order", what, where, "the printing of a sequence %s may end before its last element", what)
			return nil
		}
		if mon.comment && delim {
			if mon.isFixed {
				// ended if the function that made the sequence was told of the delimiter
				if mon.fixed == nil || st.eval(mon.fixed) == yes {
					return nil
				}
			}
			pc.fail("C11", "comment", what, where, "a comment that ends a sequence is not ended before the closing delimiter")
		}
		return nil
	}
	e.pushCall(st, fn, args, nil, nil)
	e.Run(st)
	pc.r.engineStats(e)
}

// isIndentChar says whether t is the printer's indent character as text.
func (pc *printer) isIndentChar(t *Term) bool {
	if t.op != OExt || t.name != "rune2str" {
		return false
	}
	a := t.args[0]
	if a.op != OInit || a.args[0].op != OField {
		return false
	}
	s := structOf(pointee(pc.recv))
	return s != nil && a.args[0].n < s.NumFields() && s.Field(a.args[0].n).Name() == "IndentChar" && isRuneType(s.Field(a.args[0].n).Type())
}
