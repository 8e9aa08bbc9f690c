package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The parser is interpreted over unknown tokens, in lockstep with a reference
// grammar: the reference follows the tokens the code asks for and says which
// node, with which fields and children, the code must return, or that it must
// give an error. The recursive entry of the parser is replaced by its own
// contract (any one form, the end of the input, or an error), with what it
// does to the parser's state taken from summaries that are computed to a
// fixpoint.

type ptok struct {
	class    string
	pos, val *Term
	typ      *Term // of class "other"
}

type parseGhost struct {
	top     bool // between top-level forms
	st      string
	kind    string
	want    string // closing delimiter
	start   ptok
	ns      *Term
	kids    *Term // what the sequence must hold
	last    *Term // a form read but not yet added to kids (or left out)
	linked  *Term // the form whose parents were set last
	pend    []ptok
	lambda  bool
	inner   bool // lambda, inside the form
	must    string
	mustPos []*Term
	errd    bool // a nested form failed
	ended   bool
	tree    *Term
	fn      *ssa.Function // the top-level function
	files   []*Term       // open files
	rd      *Term         // the reader given
	name    *Term         // the file name given
	fileErr bool
	held    *Term  // the form read last, while the code holds on to it,
	kept    string // and why it was kept or left out
	key     string
	entry   []*Term // leaf values of the parser's state at entry
}

func (g *parseGhost) Clone() Monitor {
	c := *g
	c.pend = append([]ptok(nil), g.pend...)
	c.mustPos = append([]*Term(nil), g.mustPos...)
	c.entry = append([]*Term(nil), g.entry...)
	c.files = append([]*Term(nil), g.files...)
	return &c
}

func (g *parseGhost) Roots() []*Term {
	out := []*Term{g.start.pos, g.start.val, g.ns, g.kids, g.last, g.linked, g.tree, g.rd, g.name, g.held}
	for _, t := range g.pend {
		out = append(out, t.pos, t.val, t.typ)
	}
	out = append(out, g.files...)
	out = append(out, g.mustPos...)
	return append(out, g.entry...)
}

func (g *parseGhost) SetRoots(ts []*Term) {
	g.start.pos, g.start.val, g.ns, g.kids, g.last, g.linked, g.tree, g.rd, g.name, g.held = ts[0], ts[1], ts[2], ts[3], ts[4], ts[5], ts[6], ts[7], ts[8], ts[9]
	i := 10
	g.pend = append([]ptok(nil), g.pend...)
	for k := range g.pend {
		g.pend[k].pos, g.pend[k].val, g.pend[k].typ = ts[i], ts[i+1], ts[i+2]
		i += 3
	}
	n := len(g.files)
	g.files = append([]*Term(nil), ts[i:i+n]...)
	i += n
	n = len(g.mustPos)
	g.mustPos = append([]*Term(nil), ts[i:i+n]...)
	g.entry = append([]*Term(nil), ts[i+n:]...)
}

func (g *parseGhost) Key() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%v %d %v %s %s %s %s %v %v %s %v %v %d %d %v %v %s;", g.top, len(g.files), g.fileErr, g.st, g.kind, g.want, g.start.class, g.lambda, g.inner, g.must, g.errd, g.ended,
		len(g.mustPos), len(g.entry), g.last != nil, g.linked != nil, g.kept)
	for _, t := range g.pend {
		b.WriteString(t.class + ",")
	}
	return b.String()
}

// Token classes and the dispatch macros.
var (
	otherClasses    = []string{"symbol", "char", "keyword", "number", "string", "'", "@", "`", "^", "{", "[", "(", "#", "~", "dispatch"}
	punctClasses    = "'@`^{[(#}])~"
	dispatchVals    = []string{"#{", "#(", `#"`, "#:", "#?", "#?@", "#_", "#'", "#^", "#="}
	prefixKinds     = map[string]string{"@": "DerefNode", "'": "QuoteNode", "`": "SyntaxQuoteNode", "^": "MetadataNode", "#^": "MetadataNode", "#_": "ReaderDiscardNode", "#=": "ReaderEvalNode"}
	seqKinds        = map[string][2]string{"(": {"ListNode", ")"}, "[": {"VectorNode", "]"}, "{": {"MapNode", "}"}}
	classKinds      = map[string][]string{"symbol": {"NilNode", "BoolNode", "SymbolNode"}, "char": {"CharacterNode"}, "comment": {"CommentNode"}, "@": {"DerefNode"}, "keyword": {"KeywordNode"}, "(": {"ListNode"}, "{": {"MapNode"}, "^": {"MetadataNode"}, "newline": {"NewlineNode"}, "number": {"NumberNode"}, "'": {"QuoteNode"}, "string": {"StringNode"}, "`": {"SyntaxQuoteNode"}, "~": {"UnquoteNode", "UnquoteSpliceNode"}, "[": {"VectorNode"}, "#": {"TagNode"}, "#{": {"SetNode"}, "#(": {"FnLiteralNode"}, `#"`: {"RegexNode"}, "#:": {"MapNode"}, "#?": {"ReaderCondNode"}, "#?@": {"ReaderCondSpliceNode"}, "#_": {"ReaderDiscardNode"}, "#'": {"VarQuoteNode"}, "#^": {"MetadataNode"}, "#=": {"ReaderEvalNode"}}
	charNames       = map[string]int64{"newline": '\n', "space": ' ', "tab": '\t', "formfeed": '\f', "backspace": '\b', "return": '\r'}
	closingClasses  = ")]}"
	dispatchFollows = map[string][]string{"#{": {"{"}, "#(": {"("}, `#"`: {"string", "error"}, "#:": {"keyword", "error"}}
)

type parseFinding = lexFinding

type summary struct {
	consts string
	pend   int
	leafs  []leafSum
}

// leafSum says what a leaf of the parser's state holds on return.
type leafSum struct {
	how  string // same, const, pend, havoc
	t    *Term
	i    int
	f    string
	typ  types.Type
	ints IntSet
}

type parseRun struct {
	p       *Program
	lex     *lexAPI
	nodes   *nodeModel
	e       *Engine
	form    *ssa.Function // parses one form
	reader  *ssa.Function
	file    *ssa.Function
	tree    types.Type
	inc     bool
	igc     bool
	igd     bool
	opts    int64
	found   map[string]parseFinding
	kinds   map[string]bool
	rec     map[*ssa.Function]bool
	sums    map[string][]*summary
	grew    bool
	scanner *Term
	panics  map[string]types.Type // dynamic types of error panics
	nilRet  bool
	entries []*State
	forms   map[string]int
	exits   int
	obls    int
	pulls   int
	errors  int
}

func (l *parseRun) fail(kind, rule, construct, where, format string, args ...interface{}) {
	k := kind + rule + construct
	if _, ok := l.found[k]; !ok {
		l.found[k] = parseFinding{kind, rule, construct, where, fmt.Sprintf(format, args...)}
	}
	if l.kinds[kind] {
		l.e.halt = true
	}
}

// parserAPI finds the parser's recursive entry: the function returning a Node
// through which every cycle of calls goes.
func (p *Program) parserAPI(m *nodeModel) (form, reader *ssa.Function, err error) {
	sp := p.pkgs["parse"]
	reader = sp.Func("Reader")
	if reader == nil {
		return nil, nil, fmt.Errorf("parse.Reader not found")
	}
	callees := map[*ssa.Function][]*ssa.Function{}
	callers := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		if fnPkg(fn) != sp.Pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				add := func(c *ssa.Function) {
					if c != nil && len(c.Blocks) > 0 && fnPkg(c) == sp.Pkg {
						callees[fn] = append(callees[fn], c)
						if callers[c] == nil {
							callers[c] = map[*ssa.Function]bool{}
						}
						callers[c][fn] = true
					}
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	reach := func(from, without *ssa.Function) map[*ssa.Function]bool {
		seen := map[*ssa.Function]bool{}
		var work []*ssa.Function
		work = append(work, callees[from]...)
		for len(work) > 0 {
			f := work[len(work)-1]
			work = work[:len(work)-1]
			if f == without || seen[f] {
				continue
			}
			seen[f] = true
			work = append(work, callees[f]...)
		}
		return seen
	}
	fromReader := reach(reader, nil)
	var cands []*ssa.Function
	for f := range fromReader {
		res := f.Signature.Results()
		if res.Len() != 1 || !types.Identical(res.At(0).Type(), m.iface) || !reach(f, nil)[f] {
			continue
		}
		ok := true
		for g := range reach(f, nil) {
			if g.Signature.Results().Len() > 0 && reach(g, f)[g] {
				ok = false
			}
		}
		if ok {
			cands = append(cands, f)
		}
	}
	// Prefer the one the top level calls: reachable without passing others.
	var best []*ssa.Function
	for _, f := range cands {
		first := true
		for _, g := range cands {
			if g != f && !reach(reader, g)[f] {
				first = false
			}
		}
		if first {
			best = append(best, f)
		}
	}
	if len(best) != 1 {
		return nil, nil, fmt.Errorf("cannot tell the parser's recursive entry (%d candidates)", len(best))
	}
	return best[0], reader, nil
}

// leaves lists the addresses of the scalar fields of the parser's state.
func (l *parseRun) leaves(st *State, tree *Term) (addrs []*Term, typs []types.Type) {
	var walk func(a *Term, t types.Type)
	walk = func(a *Term, t types.Type) {
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				walk(mkField(a, i), s.Field(i).Type())
			}
			return
		}
		addrs = append(addrs, a)
		typs = append(typs, t)
	}
	walk(tree, pointee(l.tree))
	return
}

func (l *parseRun) entryKey(st *State, g *parseGhost) string {
	addrs, typs := l.leaves(st, g.tree)
	var b strings.Builder
	fmt.Fprintf(&b, "%v %d;", g.lambda, len(g.pend))
	for i, a := range addrs {
		v := st.load(a, typs[i])
		b.WriteString(l.scalar(st, v, typs[i]) + ",")
	}
	return b.String()
}

// scalar renders plain booleans and integers.
func (l *parseRun) scalar(st *State, v *Term, t types.Type) string {
	if isEnum(t) {
		return "_"
	}
	if b, ok := basicOf(t); ok && b.Info()&(types.IsBoolean|types.IsInteger) != 0 {
		if v.isConst() {
			return v.c.ExactString()
		}
		if b.Info()&types.IsBoolean != 0 {
			switch st.eval(v) {
			case yes:
				return "true"
			case no:
				return "false"
			}
		}
		if s := st.intSet(v); b.Info()&types.IsInteger != 0 && !s.empty() && s.min() == s.max() {
			return fmt.Sprint(s.min())
		}
		return "?"
	}
	return "_"
}

func (l *parseRun) mkTok(st *State, class, val string) (ptok, *Term) {
	c := class
	t := ptok{class: class}
	t.pos = newSym("pos", l.lex.posT)
	st.facts.bools[eqTerm(t.pos, nilTerm)] = false
	switch {
	case class == "dispatch":
		t.class = val
		t.val = mkStr(val)
	case len(class) == 1:
		t.val = mkStr(class)
	case class == "newline":
		t.val = mkStr("\n")
	case class == "other":
		// Any token of the classes not told apart here.
		t.val = newSym("val", tString)
		st.facts.ints[mkLen(t.val)] = rng(1, posInf)
		st.facts.strNe[t.val] = []string{"\n", ")", "]", "}"}
		t.typ = newSym("class", l.lex.class["symbol"].typ)
		set := IntSet{}
		for _, oc := range otherClasses {
			if oc != val {
				k, _ := l.lex.class[oc].intVal()
				set = set.union(single(k))
			}
		}
		st.facts.ints[t.typ] = set
	default:
		t.val = newSym("val", tString)
		n := int64(1)
		switch class {
		case "eof", "error":
			n = 0
		case "string", "char":
			n = 2
		}
		st.facts.ints[mkLen(t.val)] = rng(n, posInf)
		if class == "char" {
			body := ext("substr", tString, t.val, mkInt(1), mkLen(t.val))
			rs := ext("str2runes", types.NewSlice(tRune), body)
			st.facts.ints[mkLen(rs)] = rng(1, posInf)
		}
	}
	s := l.lex.tok.Underlying().(*types.Struct)
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		switch i {
		case l.lex.typ:
			fs[i] = l.lex.class[c]
			if t.typ != nil {
				fs[i] = t.typ
			}
		case l.lex.pos:
			fs[i] = t.pos
		case l.lex.val:
			fs[i] = t.val
		default:
			fs[i] = newSym("tokfield", s.Field(i).Type())
		}
	}
	return t, T.intern(&Term{op: OStruct, args: fs, typ: l.lex.tok})
}

// wrappers are functions whose result reads the same bytes as their argument.
var wrappers = map[string]bool{"bufio.NewReader": true, "bufio.NewReaderSize": true, "bytes.NewReader": true, "bytes.NewBuffer": true}

// source checks what the scanner is told to read.
func (l *parseRun) source(st *State, g *parseGhost, ci *callInfo) {
	name, rd := false, false
	for _, a := range ci.args {
		if g.name != nil && st.evalEq(a, g.name) == yes {
			name = true
		}
		x := a
		for {
			if x.op == OIface {
				x = x.args[0]
			} else if x.op == OExt && (strings.HasPrefix(x.name, "wrap:") || strings.HasPrefix(x.name, "data:")) {
				x = x.args[0]
			} else {
				break
			}
		}
		if g.rd != nil && x == g.rd {
			rd = true
		}
		for _, f := range g.files {
			rd = rd || g.rd == nil && x == f
		}
		if g.rd == nil && st.evalEq(x, g.name) == yes && a != g.name {
			rd = true
		}
	}
	if !name {
		l.fail("pos", "file-name", fnName(g.fn), posString(l.p, ci.pos), "the scanner is not given the caller's file name for its positions")
	}
	if !rd {
		l.fail("node", "source", fnName(g.fn), posString(l.p, ci.pos), "the scanner is not given the caller's input to read")
	}
}

// ---- the reference grammar ----

func (g *parseGhost) fail(why string, pos ...*Term) {
	g.must, g.mustPos = why, pos
	if g.start.pos != nil && why != "" {
		g.mustPos = append(g.mustPos, g.start.pos)
	}
}

// consume advances the grammar by one token.
func (l *parseRun) consume(st *State, g *parseGhost, t ptok) {
	if t.class == "eof" || t.class == "error" {
		g.ended = true
	}
	if g.must != "" {
		return
	}
	switch g.st {
	case "top", "done", "nilret":
		g.pend = append(g.pend, t)
		return
	case "start":
		g.start = t
		switch {
		case t.class == "eof":
			g.st = "nilret"
		case t.class == "error":
			g.fail("a scanning error", t.pos)
		case strings.Contains(closingClasses, t.class) && len(t.class) == 1:
			g.fail("a closing delimiter without an opening one", t.pos)
		case prefixKinds[t.class] != "":
			g.st, g.kind = "prefix", prefixKinds[t.class]
		case seqKinds[t.class][0] != "":
			g.st, g.kind, g.want = "seq", seqKinds[t.class][0], seqKinds[t.class][1]
		case t.class == "~":
			g.st = "tilde"
		case t.class == "#":
			g.st, g.kind = "name", "TagNode"
		case t.class == "#'":
			g.st, g.kind = "name", "VarQuoteNode"
		case t.class == "#{":
			g.st, g.kind = "open", "SetNode"
		case t.class == "#(":
			g.st, g.kind = "open", "FnLiteralNode"
			if g.lambda {
				g.fail("a nested function literal", t.pos)
			}
			g.inner = true
		case t.class == "#?":
			g.st, g.kind = "open", "ReaderCondNode"
		case t.class == "#?@":
			g.st, g.kind = "open", "ReaderCondSpliceNode"
		case t.class == "#:":
			g.st, g.kind = "nsname", "MapNode"
		case t.class == `#"`:
			g.st, g.kind = "regex", "RegexNode"
		default:
			g.st, g.kind = "done", "atom"
		}
		return
	}
	if t.class == "error" {
		g.fail("a scanning error", t.pos)
		return
	}
	if t.class == "eof" {
		g.fail("the end of the input inside a form", t.pos)
		return
	}
	switch g.st {
	case "prefix":
		g.pend = append(g.pend, t)
	case "tilde":
		g.st = "prefix"
		g.kind = "UnquoteNode"
		if t.class == "@" && l.adjacent(st, g.start, t) == yes {
			g.kind = "UnquoteSpliceNode"
			return
		}
		g.pend = append(g.pend, t)
	case "seq":
		if t.class == g.want {
			g.st = "done"
			return
		}
		g.pend = append(g.pend, t)
	case "name":
		if t.class != "symbol" {
			g.fail("a tag or var quote without a symbol", t.pos)
			return
		}
		g.ns = t.val
		g.st = "done"
	case "open":
		want, cl := "(", ")"
		if g.kind == "SetNode" {
			want, cl = "{", "}"
		}
		if t.class != want {
			g.fail("a dispatch macro without its sequence", t.pos)
			return
		}
		g.st, g.want = "seq", cl
	case "nsname":
		g.ns = t.val
		g.st = "nsopen"
	case "nsopen":
		if t.class != "{" {
			g.fail("a namespaced map without a map", t.pos)
			return
		}
		g.st, g.want = "seq", "}"
	case "regex":
		g.ns = t.val
		g.st = "done"
	}
}

func (l *parseRun) offset(st *State, pos *Term) *Term {
	return st.load(mkField(pos, l.lex.posF["Offset"]), tInt)
}

func (l *parseRun) adjacent(st *State, a, b ptok) tri {
	return st.evalEq(l.offset(st, b.pos), addK(l.offset(st, a.pos), 1))
}

// rooted: by now the parents below the root kept last must be set.
func (l *parseRun) rooted(st *State) {
	g := st.mon.(*parseGhost)
	if g.last != nil && g.linked != g.last {
		l.fail("parent", "parents", "roots", posString(l.p, l.reader.Pos()), "a root is kept whose sub-forms were not given their parents")
	}
	g.last, g.linked = nil, nil
}

// settle decides whether the form read last is part of the sequence; it may
// split the state.
func (l *parseRun) settle(st *State, n *Term) []*State {
	var out []*State
	why := map[*State]string{}
	keep := func(s *State, in bool) {
		sg := s.mon.(*parseGhost)
		sg.linked = nil
		sg.last = nil
		if l.igc || l.igd || !l.inc {
			sg.held, sg.kept = n, fmt.Sprint(in, why[s])
		}
		if in {
			sg.kids = mkSeq(sg.kids, n)
			if sg.top {
				sg.last = n
			}
		}
		out = append(out, s)
	}
	cur := []*State{st}
	drop := func(kind string) {
		k := l.nodes.kinds[kind]
		if k == nil {
			return
		}
		var next []*State
		for _, s := range cur {
			y := s.fork()
			if y.assumeType(n, k.typ, true) {
				keep(y, false)
			}
			if s.assumeType(n, k.typ, false) {
				next = append(next, s)
			}
		}
		cur = next
	}
	if !l.inc {
		drop("CommentNode")
		drop("NewlineNode")
	}
	if l.igd {
		drop("ReaderDiscardNode")
	}
	if l.igc {
		lk, sk := l.nodes.kinds["ListNode"], l.nodes.kinds["SymbolNode"]
		var next []*State
		for _, s := range cur {
			y := s.fork()
			if s.assumeType(n, lk.typ, false) {
				why[s] = "not a list"
				next = append(next, s)
			}
			if !y.assumeType(n, lk.typ, true) {
				continue
			}
			nodes := y.load(fieldAddr(y.ptrOf(n, lk), lk.seq), types.NewSlice(l.nodes.iface))
			z := y.fork()
			if z.assume(eqTerm(mkLen(nodes), mkInt(0)), true) {
				why[z] = "empty"
				next = append(next, z)
			}
			if !y.assume(eqTerm(mkLen(nodes), mkInt(0)), false) {
				continue
			}
			first := y.firstOf(nodes, l.nodes.iface)
			z = y.fork()
			if z.assumeType(first, sk.typ, false) {
				why[z] = "not a symbol"
				next = append(next, z)
			}
			if !y.assumeType(first, sk.typ, true) {
				continue
			}
			val := y.load(fieldAddr(y.ptrOf(first, sk), sk.texts["Val"]), tString)
			z = y.fork()
			if z.assume(eqTerm(val, mkStr("comment")), false) {
				why[z] = "not comment"
				next = append(next, z)
			}
			if y.assume(eqTerm(val, mkStr("comment")), true) {
				why[y] = "comment"
				keep(y, false)
			}
		}
		cur = next
	}
	for _, s := range cur {
		keep(s, true)
	}
	return out
}

func (st *State) firstOf(nodes *Term, t types.Type) *Term {
	arr, lo, _ := sliceParts(nodes)
	return st.loadElem(arr, lo, t)
}

// resolveTilde splits st on whether ~ and @ are adjacent, if that matters.
func (l *parseRun) feed(st *State, t ptok) []*State {
	g := st.mon.(*parseGhost)
	if g.st == "tilde" && g.must == "" && t.class == "@" && l.adjacent(st, g.start, t) == unknown {
		o := st.fork()
		var out []*State
		c := eqTerm(l.offset(st, t.pos), addK(l.offset(st, g.start.pos), 1))
		if st.assume(c, true) {
			l.consume(st, g, t)
			out = append(out, st)
		}
		if o.assume(c, false) {
			l.consume(o, o.mon.(*parseGhost), t)
			out = append(out, o)
		}
		return out
	}
	l.consume(st, g, t)
	return []*State{st}
}

// pull answers a request for a token.
func (l *parseRun) pull(st *State) []Outcome {
	l.pulls++
	var outs []Outcome
	l.rooted(st)
	for _, s := range []*State{st} {
		g := s.mon.(*parseGhost)
		if len(g.pend) >= 2 {
			l.e.cantDecide(l.lex.next.Pos(), "more than two tokens of lookahead")
			continue
		}
		one := func(class, val string) {
			n := s.fork()
			t, v := l.mkTok(n, class, val)
			for _, f := range l.feed(n, t) {
				outs = append(outs, Outcome{st: f, ret: v})
			}
		}
		if g.ended {
			one("eof", "")
			continue
		}
		prev := ""
		if g.st == "open" || g.st == "regex" || g.st == "nsname" {
			prev = g.start.class
		}
		if n := len(g.pend); n > 0 {
			prev = g.pend[n-1].class
		}
		if fol := dispatchFollows[prev]; fol != nil {
			for _, c := range fol {
				one(c, "")
			}
			continue
		}
		if g.st != "start" {
			// Which token opens the next form is left open; the entry
			// tells them apart.
			apart := map[string]string{"tilde": "@", "name": "symbol", "nsopen": "{", "open": "("}[g.st]
			if g.st == "open" && g.kind == "SetNode" {
				apart = "{"
			}
			for _, c := range []string{")", "]", "}", "newline", "comment", "eof", "error"} {
				one(c, "")
			}
			if apart != "" {
				one(apart, "")
			}
			one("other", apart)
			continue
		}
		for _, c := range []string{"symbol", "char", "comment", "keyword", "newline", "number", "string", "eof", "error"} {
			one(c, "")
		}
		for _, r := range punctClasses {
			one(string(r), "")
		}
		for _, d := range dispatchVals {
			one("dispatch", d)
		}
	}
	return outs
}

// nested answers a call of the parser's entry by its contract.
func (l *parseRun) nested(st *State, ci *callInfo) []Outcome {
	var outs []Outcome
	l.rooted(st)
	for _, s := range []*State{st} {
		g := s.mon.(*parseGhost)
		if g.tree == nil {
			for _, a := range ci.args {
				if a.typ != nil && typeKey(a.typ) == typeKey(l.tree) {
					g.tree = a
				}
			}
			if g.tree == nil {
				l.e.cantDecide(ci.pos, "the parser's state at a nested form")
				continue
			}
		}
		if g.st != "seq" && g.st != "prefix" && g.st != "top" && g.must == "" {
			l.fail("node", "extra-form", g.kind+"/"+g.st, posString(l.p, ci.pos), "another form is read for %s where the grammar has none", g.what())
			continue
		}
		key := l.enqueue(s, ci)
		sums := l.sums[key]
		pend := ""
		if len(g.pend) > 0 {
			pend = g.pend[0].class
		}
		// Errors.
		var ks []string
		for k := range l.panics {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			n := s.fork()
			ng := n.mon.(*parseGhost)
			ng.errd = true
			outs = append(outs, Outcome{st: n, panic: l.errPanic(n, l.panics[k])})
		}
		if strings.Contains(closingClasses+"error", pend) && pend != "" {
			continue
		}
		if (pend == "" || pend == "eof") && l.nilRet {
			for _, sm := range sums {
				n := s.fork()
				ng := n.mon.(*parseGhost)
				ng.pend = nil
				if ng.st == "top" {
					ng.st = "end"
				} else if ng.must == "" {
					ng.fail("the end of the input inside a form")
					ng.mustPos = nil
				}
				ng.ended = true
				l.havoc(n, ng, sm)
				outs = append(outs, Outcome{st: n, ret: nilTerm})
			}
			if pend == "eof" {
				continue
			}
		}
		if g.ended {
			continue
		}
		for _, sm := range sums {
			n := s.fork()
			ng := n.mon.(*parseGhost)
			x := newSym("form", l.nodes.iface)
			n.facts.bools[eqTerm(x, nilTerm)] = false
			if pend != "" && g.st == "prefix" {
				kinds := classKinds[pend]
				if pend == "other" {
					kinds = nil
					for _, c := range l.others(n, g.pend[0]) {
						if c[0] == "dispatch" {
							kinds = append(kinds, classKinds[c[1]]...)
						} else {
							kinds = append(kinds, classKinds[c[0]]...)
						}
					}
				}
				n.restrictKinds(l.nodes, x, kinds)
			}
			ng.pend = nil
			l.havoc(n, ng, sm)
			switch ng.st {
			case "prefix":
				// A newline or comment is skipped.
				y := n.fork()
				y.restrictKinds(l.nodes, x, []string{"NewlineNode", "CommentNode"})
				if len(y.kindsOf(l.nodes, x)) > 0 {
					outs = append(outs, Outcome{st: y, ret: x})
				}
				n.dropKinds(l.nodes, x, []string{"NewlineNode", "CommentNode"})
				if len(n.kindsOf(l.nodes, x)) > 0 {
					ng.st = "done"
					ng.kids = mkSeq(x)
					outs = append(outs, Outcome{st: n, ret: x})
				}
			default:
				for _, y := range l.settle(n, x) {
					outs = append(outs, Outcome{st: y, ret: x})
				}
			}
		}
	}
	return outs
}

func (st *State) restrictKinds(m *nodeModel, x *Term, names []string) {
	f, _ := st.typeFact(x)
	u := st.eng.universeOf(m.iface)
	if f.u == nil {
		f.u, f.allowed = u, uint64(1)<<len(u.impls)-1
	}
	var mask uint64
	for _, n := range names {
		if k := m.kinds[n]; k != nil {
			mask |= 1 << u.index(k.typ)
		}
	}
	f.allowed &= mask
	st.facts.types[x] = f
}

func (st *State) dropKinds(m *nodeModel, x *Term, names []string) {
	f, _ := st.typeFact(x)
	u := st.eng.universeOf(m.iface)
	if f.u == nil {
		f.u, f.allowed = u, uint64(1)<<len(u.impls)-1
	}
	for _, n := range names {
		if k := m.kinds[n]; k != nil {
			f.allowed &^= 1 << u.index(k.typ)
		}
	}
	st.facts.types[x] = f
}

func (g *parseGhost) what() string {
	if g.top {
		return "the top level"
	}
	if g.kind == "" || g.kind == "atom" {
		return "a form starting with " + g.start.class
	}
	return g.kind
}

// errPanic makes a panic value of error type t holding an unknown error.
func (l *parseRun) errPanic(st *State, t types.Type) *Term {
	errT := types.Universe.Lookup("error").Type()
	var mk func(t types.Type) *Term
	mk = func(t types.Type) *Term {
		if s, ok := t.Underlying().(*types.Struct); ok {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, mk(s.Field(i).Type()))
			}
			return T.intern(&Term{op: OStruct, args: fs, typ: t})
		}
		x := newSym("nestedError", t)
		if types.Identical(t, errT) || isPtr(t) {
			st.facts.bools[eqTerm(x, nilTerm)] = false
		}
		return x
	}
	return mkIface(mk(t), t)
}

// enqueue records the state in which the entry is called as one to analyse.
func (l *parseRun) enqueue(st *State, ci *callInfo) string {
	n := st.fork()
	g := n.mon.(*parseGhost)
	lam := g.lambda || (g.inner && g.kind == "FnLiteralNode")
	ng := &parseGhost{st: "start", tree: g.tree, lambda: lam, kids: mkSeq(), ended: g.ended}
	pend := g.pend
	n.mon = ng
	if g.rd != nil {
		delete(n.facts.bools, eqTerm(g.rd, nilTerm))
	}
	n.frames = nil
	n.panics = nil
	addrs, typs := l.leaves(n, ng.tree)
	for i, a := range addrs {
		ng.entry = append(ng.entry, n.load(a, typs[i]))
	}
	ng.pend = pend
	key := l.entryKey(n, ng)
	l.e.pushCall(n, l.form, ci.args, nil, nil)
	n.top().tag = key
	if len(pend) == 1 && pend[0].class == "other" {
		for _, c := range l.others(n, pend[0]) {
			m := n.fork()
			t, v := l.mkTok(m, c[0], c[1])
			mg := m.mon.(*parseGhost)
			mg.pend = []ptok{t}
			typ := v.args[l.lex.typ]
			t.pos = pend[0].pos
			for i, a := range addrs {
				switch m.load(a, typs[i]) {
				case pend[0].typ:
					m.store(a, typ, typs[i])
					mg.entry[i] = typ
				case pend[0].val:
					m.store(a, t.val, typs[i])
					mg.entry[i] = t.val
				}
			}
			mg.pend[0].pos = pend[0].pos
			l.entries = append(l.entries, m)
		}
		return key
	}
	l.entries = append(l.entries, n)
	return key
}

// others lists the tokens a token of class "other" may be.
func (l *parseRun) others(st *State, t ptok) (out [][2]string) {
	set := st.intSet(t.typ)
	for _, c := range otherClasses {
		if k, _ := l.lex.class[c].intVal(); set.disjoint(single(k)) {
			continue
		}
		if c != "dispatch" {
			out = append(out, [2]string{c, ""})
			continue
		}
		for _, d := range dispatchVals {
			out = append(out, [2]string{c, d})
		}
	}
	return
}

// havoc applies what the entry does to the parser's state.
func (l *parseRun) havoc(st *State, g *parseGhost, sm *summary) {
	for i := 0; i < sm.pend; i++ {
		l.e.cantDecide(l.form.Pos(), "the parser holds a token after a form")
	}
	addrs, typs := l.leaves(st, g.tree)
	for i, a := range addrs {
		lf := sm.leafs[i]
		switch lf.how {
		case "same":
		case "const":
			st.store(a, lf.t, typs[i])
		case "havoc":
			x := newSym("after", typs[i])
			if lf.ints != nil {
				st.facts.ints[x] = lf.ints
			}
			st.store(a, x, typs[i])
		}
	}
}

// summarise records a return of the entry.
func (l *parseRun) summarise(st *State, g *parseGhost, key string) {
	sm := &summary{pend: len(g.pend)}
	addrs, typs := l.leaves(st, g.tree)
	for i, a := range addrs {
		v := st.load(a, typs[i])
		lf := leafSum{how: "havoc", typ: typs[i]}
		switch {
		case i < len(g.entry) && v == g.entry[i]:
			lf.how = "same"
		case !v.syms && !isEnum(typs[i]):
			lf.how, lf.t = "const", v
		}
		sc := l.scalar(st, v, typs[i])
		if lf.how == "havoc" && isIntType(typs[i]) {
			lf.ints = st.intSet(v)
		}
		if lf.how == "havoc" && sc != "_" && sc != "?" {
			lf.how, lf.t = "const", v
			if v.syms {
				if bv, ok := basicOf(typs[i]); ok && bv.Info()&types.IsBoolean != 0 {
					lf.t = mkBool(sc == "true")
				} else {
					lf.t = mkConst(constant.MakeInt64(lf.ints.min()), typs[i])
				}
			}
		}
		sm.leafs = append(sm.leafs, lf)
		sm.consts += sc + ","
	}
	for _, o := range l.sums[key] {
		if o.consts != sm.consts || o.pend != sm.pend {
			continue
		}
		for i := range o.leafs {
			a, b := &o.leafs[i], sm.leafs[i]
			if a.how == "havoc" {
				if a.ints != nil {
					n := a.ints.union(b.set())
					if !n.equal(a.ints) {
						a.ints = n
						l.grew = true
					}
				}
				continue
			}
			if a.how == b.how && a.t == b.t {
				continue
			}
			var is IntSet
			if isIntType(a.typ) {
				is = a.set().union(b.set())
			}
			*a = leafSum{how: "havoc", typ: a.typ, ints: is}
			l.grew = true
		}
		return
	}
	l.sums[key] = append(l.sums[key], sm)
	l.grew = true
}

func (a leafSum) set() IntSet {
	if a.ints != nil {
		return a.ints
	}
	if a.how == "const" {
		if v, ok := a.t.intVal(); ok {
			return single(v)
		}
	}
	return fullSet
}

// ---- checks at the ends ----

func (l *parseRun) where(st *State) string {
	if n := len(st.trail); n > 0 {
		return posString(l.p, st.trail[n-1])
	}
	return posString(l.p, l.form.Pos())
}

func mentions(st *State, t, x *Term) bool {
	if t == nil || x == nil {
		return false
	}
	seen := map[*Term]bool{}
	var walk func(t *Term) bool
	walk = func(t *Term) bool {
		if t == x {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if walk(a) {
				return true
			}
		}
		if t.op == OObj {
			for a, v := range st.heap {
				if rootOf(mapRoot(a)) == t && walk(v) {
					return true
				}
			}
		}
		return false
	}
	return walk(t)
}

func (l *parseRun) exitPanic(st *State, g *parseGhost, pv *Term) {
	l.errors++
	var t types.Type
	if pv.op == OIface {
		t = pv.typ2
	}
	n := namedOf2(t)
	if n == nil || !l.p.ourPkg(n.Obj().Pkg()) {
		l.fail("panic", "panic-escapes", fnName(l.form)+":"+l.where(st), l.where(st), "the parser panics with %s on a %s", pv, g.what())
		return
	}
	if l.panics[typeKey(t)] == nil {
		l.panics[typeKey(t)] = t
		l.grew = true
	}
	if g.errd {
		return
	}
	if g.must == "" {
		if g.start.class == "char" && g.st == "done" {
			l.charRejected(st, g)
			return
		}
		l.fail("node", "rejected", g.what()+"/"+g.start.class+"/"+g.st, l.where(st), "input the grammar allows is rejected: %s (%s)", g.what(), g.st)
		return
	}
	ok := len(g.mustPos) == 0
	for _, p := range g.mustPos {
		ok = ok || mentions(st, pv, p)
	}
	if !ok {
		l.fail("errpos", "error-position", g.must, l.where(st), "the error for %s does not carry the position of the token it is about", g.must)
	}
}

func namedOf2(t types.Type) *types.Named {
	if t == nil {
		return nil
	}
	return namedOf(t)
}

func (l *parseRun) exitForm(st *State, g *parseGhost, ret *Term) {
	l.exits++
	where := l.where(st)
	if g.must != "" {
		l.fail("reject", "accepted", g.must+"/"+g.what(), where, "%s is accepted: the parser returns a node for %s", g.must, g.what())
		return
	}
	if g.errd {
		l.fail("reject", "accepted", "nested/"+g.what(), where, "an error inside a form is dropped: the parser returns a node for %s", g.what())
		return
	}
	switch g.st {
	case "nilret":
		if st.isNil(ret) != yes {
			l.fail("node", "end", "nil", where, "a node is returned at the end of the input")
			return
		}
		l.nilRet = true
		return
	case "done":
	default:
		l.fail("node", "incomplete", g.what()+"/"+g.st, where, "the parser returns before %s is complete (%s)", g.what(), g.st)
		return
	}
	if g.start.class == "char" {
		l.charValue(st, g, ret, where)
	}
	kinds := classKinds[g.start.class]
	kind := g.kind
	if kind == "atom" {
		kind = kinds[0]
		if g.start.class == "symbol" {
			s, known := st.knownStr(g.start.val)
			switch {
			case known && s == "nil":
				kind = "NilNode"
			case known && (s == "true" || s == "false"):
				kind = "BoolNode"
			default:
				kind = "SymbolNode"
			}
		}
	}
	if ret == nil || ret.op != OIface {
		l.fail("node", "kind", kind, where, "something other than a new node is returned for %s", kind)
		return
	}
	k := l.nodes.kindOf(ret.typ2)
	if k == nil || k.name != kind {
		name := typeKey(ret.typ2)
		if k != nil {
			name = k.name
		}
		l.fail("node", "kind", kind, where, "a %s is returned where the reader reads a %s", name, kind)
		return
	}
	ptr := ret.args[0]
	if ptr.op != OObj {
		l.fail("node", "kind", kind, where, "the %s returned is not a node made for it", kind)
		return
	}
	l.forms[kind]++
	get := func(path []int, t types.Type) *Term { return st.load(fieldAddr(ptr, path), t) }
	if p := get(k.pos, l.lex.posT); st.evalEq(p, g.start.pos) != yes {
		l.fail("pos", "node-position", kind, where, "the position of a %s is not that of its first token", kind)
	}
	want := map[string]*Term{}
	switch kind {
	case "NilNode", "NewlineNode":
	case "BoolNode":
		s, _ := st.knownStr(g.start.val)
		want["Val"] = mkBool(s == "true")
	case "SymbolNode", "KeywordNode", "NumberNode":
		want["Val"] = g.start.val
		if kind == "SymbolNode" {
			for _, w := range []string{"nil", "true", "false"} {
				if st.evalEq(g.start.val, mkStr(w)) != no {
					l.fail("node", "kind", "SymbolNode:"+w, where, "the symbol %s may become a SymbolNode", w)
				}
			}
		}
	case "CommentNode", "CharacterNode":
		want["Text"] = g.start.val
	case "StringNode":
		want["Val"] = st.substr(g.start.val, mkInt(1), addK(mkLen(g.start.val), -1))
	case "RegexNode":
		want["Val"] = st.substr(g.ns, mkInt(1), addK(mkLen(g.ns), -1))
	case "TagNode", "VarQuoteNode":
		want["Val"] = g.ns
	case "MapNode":
		want["Namespace"] = mkStr("")
		if g.ns != nil {
			want["Namespace"] = g.ns
		}
	}
	for f, w := range want {
		path := k.texts[f]
		if path == nil {
			l.fail("node", "field", kind+"."+f, where, "node kind %s has no field %s", kind, f)
			continue
		}
		v := get(path, k.textType[f])
		if v != w && st.evalEq(v, w) != yes && !(w.isConst() && st.boolIs(v, w)) {
			l.fail("node", "text", kind+"."+f, where, "field %s of a %s is not its token's text: got %s, want %s", f, kind, v, w)
		}
	}
	kidKind := "node"
	if !(l.inc && !l.igc && !l.igd) {
		kidKind = "filter"
	}
	switch {
	case k.single != nil:
		v := get(k.single, l.nodes.iface)
		if len(g.kids.args) != 1 || st.evalEq(v, g.kids.args[0]) != yes {
			l.fail("node", "sub-form", kind, where, "a %s does not hold the form after its prefix", kind)
		}
	case k.seq != nil:
		v := st.content(get(k.seq, types.NewSlice(l.nodes.iface)))
		if !seqIs(st, v, g.kids) {
			if debugLevel != "" {
				fmt.Fprint(os.Stderr, st.dump())
			}
			l.fail(kidKind, "children", kind, where, "a %s does not hold exactly the forms between its delimiters (that the options keep), in order: got %s, want %s", kind, v, g.kids)
		}
	}
}

func (st *State) boolIs(v, w *Term) bool {
	b, ok := w.boolVal()
	if !ok {
		return false
	}
	if b {
		return st.eval(v) == yes
	}
	return st.eval(v) == no
}

func seqIs(st *State, got, want *Term) bool {
	if got == want {
		return true
	}
	if len(got.args) != len(want.args) {
		return false
	}
	for i := range got.args {
		a, b := got.args[i], want.args[i]
		if a == b {
			continue
		}
		if a.op == OSeg || b.op == OSeg || st.evalEq(a, b) != yes {
			return false
		}
	}
	return true
}

// ---- character literals ----

func (l *parseRun) charBody(g *parseGhost) (body, rs *Term) {
	body = ext("substr", tString, g.start.val, mkInt(1), mkLen(g.start.val))
	return body, ext("str2runes", types.NewSlice(tRune), body)
}

// parsedAs finds a call of strconv.ParseUint on the digits of the literal.
func (l *parseRun) parsedAs(st *State, body *Term, base int64) (val, err *Term) {
	tail := st.substr(body, mkInt(1), mkLen(body))
	find := func(t *Term) {}
	find = func(t *Term) {
		if t.op == OExt && t.name == "strconv.ParseUint" && len(t.args) == 3 && st.evalEq(t.args[0], tail) == yes {
			if b, ok := t.args[1].intVal(); ok && b == base {
				if w, ok := t.args[2].intVal(); ok && (w == 0 || w >= 16) {
					val = T.intern(&Term{op: OExt, name: t.name, n: 0, args: t.args, typ: types.Typ[types.Uint64]})
					err = T.intern(&Term{op: OExt, name: t.name, n: 1, args: t.args, typ: types.Universe.Lookup("error").Type()})
				}
			}
		}
		for _, a := range t.args {
			find(a)
		}
	}
	for t := range st.facts.bools {
		find(t)
	}
	for t := range st.facts.ints {
		find(t)
	}
	for _, t := range st.facts.rel {
		find(t)
	}
	return
}

func (l *parseRun) charValue(st *State, g *parseGhost, ret *Term, where string) {
	if ret == nil || ret.op != OIface {
		return
	}
	k := l.nodes.kindOf(ret.typ2)
	if k == nil || k.name != "CharacterNode" || k.texts["Val"] == nil {
		return
	}
	v := st.load(fieldAddr(ret.args[0], k.texts["Val"]), tRune)
	bad := func(what string) {
		if debugLevel != "" {
			fmt.Fprint(os.Stderr, st.dump())
		}
		l.fail("char", "char-value", what, where, "the value of a character literal (%s) is not the one the reader gives it: %s", what, v)
	}
	body, rs := l.charBody(g)
	n := mkLen(rs)
	first := mkIdx(rs, mkInt(0), tRune)
	if st.evalEq(n, mkInt(1)) == yes {
		if st.evalEq(v, first) != yes {
			bad("single character")
		}
		return
	}
	if s, ok := st.knownStr(body); ok {
		c, ok := charNames[s]
		if !ok || st.evalEq(v, mkInt(c)) != yes {
			bad(s)
		}
		return
	}
	if st.evalEq(n, mkInt(1)) != no {
		bad("one or more characters")
		return
	}
	for s := range charNames {
		if st.evalEq(body, mkStr(s)) != no {
			bad("also " + s)
			return
		}
	}
	isO := st.evalEq(first, mkInt('o')) == yes || st.charAt(body, 'o')
	isU := st.evalEq(first, mkInt('u')) == yes || st.charAt(body, 'u')
	if !isO && !isU {
		bad("unknown name")
		return
	}
	base, lo, hi := int64(16), int64(5), int64(5)
	if isO {
		base, lo, hi = 8, 1, 4 // no digits at all are refused by ParseUint
	}
	val, er := l.parsedAs(st, body, base)
	if val == nil {
		bad(fmt.Sprintf("digits not read as base %d without a sign", base))
		return
	}
	if st.isNil(er) != yes {
		bad("digits that are not digits")
		return
	}
	if s := st.intSet(mkLen(body)); !s.subsetOf(rng(lo, hi)) {
		bad(fmt.Sprintf("%s digits", s))
		return
	}
	x := v
	for x.op == OConv {
		x = x.args[0]
	}
	if x != val {
		bad("value of the digits")
	}
	if isO && !st.provesLE(toLin(val).add(lin{nil, -255}, 1)) {
		bad("octal above 377")
	}
}

func (st *State) charAt(body *Term, c rune) bool {
	return st.evalEq(byteAt(body, mkInt(0)), mkInt(int64(c))) == yes
}

// charRejected: the literal must not be one of those with a value.
func (l *parseRun) charRejected(st *State, g *parseGhost) {
	body, rs := l.charBody(g)
	n := mkLen(rs)
	bad := func(what string) {
		if debugLevel != "" {
			fmt.Fprint(os.Stderr, st.dump())
		}
		l.fail("char", "char-rejected", what, l.where(st), "a character literal that has a value (%s) is rejected", what)
	}
	if s := st.fork(); s.assume(eqTerm(n, mkInt(1)), true) {
		bad("single character")
		return
	}
	for nm := range charNames {
		if st.evalEq(body, mkStr(nm)) != no {
			bad(nm)
			return
		}
	}
	for _, c := range []struct {
		ch       rune
		base     int64
		lo, hi   int64
		max      int64
		readable string
	}{{'o', 8, 2, 4, 255, "octal"}, {'u', 16, 5, 5, 65535, "hexadecimal"}} {
		s := st.fork()
		if !s.assume(eqTerm(mkIdx(rs, mkInt(0), tRune), mkInt(int64(c.ch))), true) {
			continue
		}
		if v, ok := st.facts.ints[byteAt(body, mkInt(0))]; ok && v.disjoint(single(int64(c.ch))) {
			continue
		}
		if !s.restrictInt(mkLen(body), rng(c.lo, c.hi)) {
			continue
		}
		val, er := l.parsedAs(s, body, c.base)
		if val == nil {
			bad(c.readable)
			return
		}
		if !s.assume(eqTerm(er, nilTerm), true) {
			continue
		}
		if c.max != posInf && !s.addLE(toLin(val).add(lin{nil, -c.max}, 1)) {
			continue
		}
		bad(c.readable)
		return
	}
}

// ---- driving the analysis ----

func callsSetParent(p *Program, fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if c, ok := ins.(ssa.CallInstruction); ok {
				if c.Common().IsInvoke() && c.Common().Method.Name() == "setParent" {
					return true
				}
				if f := c.Common().StaticCallee(); f != nil && fnPkg(f) == p.pkgs["parse"].Pkg && callsSetParent(p, f, seen) {
					return true
				}
			}
		}
	}
	return false
}

func analyseParser(p *Program, opts int64, bits [3]int64, kinds map[string]bool) (*parseRun, error) {
	api, err := p.lexAPI()
	if err != nil {
		return nil, err
	}
	m := p.nodes()
	form, reader, err := p.parserAPI(m)
	if err != nil {
		return nil, err
	}
	to, ok := p.pkgs["parse"].Pkg.Scope().Lookup("Tree").(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("type Tree not found")
	}
	l := &parseRun{p: p, lex: api, nodes: m, form: form, reader: reader, file: p.pkgs["parse"].Func("File"), tree: types.NewPointer(to.Type()), opts: opts,
		inc: opts&bits[0] != 0, igc: opts&bits[1] != 0, igd: opts&bits[2] != 0,
		found: map[string]parseFinding{}, kinds: kinds, rec: map[*ssa.Function]bool{}, sums: map[string][]*summary{}, panics: map[string]types.Type{}, forms: map[string]int{}}
	for round := 0; ; round++ {
		l.grew = false
		l.round()
		if debugLevel != "" {
			fmt.Printf("ROUND opts=%d %d arrivals=%d steps=%d tabs=%d exits=%d errors=%d pulls=%d sums=%d\n", opts, round, l.e.arrivals, l.e.steps, len(l.e.tab), l.exits, l.errors, l.pulls, len(l.sums))
		}
		if l.e.halt || !l.grew {
			return l, nil
		}
		if round > 12 {
			l.e.cantDecide(form.Pos(), "the parser's summaries do not stabilise")
			return l, nil
		}
	}
}

func (l *parseRun) round() {
	p := l.p
	sliceLenExact = 0
	widenSmall = 3
	e := newEngine(p)
	l.e = e
	l.exits, l.pulls, l.errors, l.obls, l.forms = 0, 0, 0, 0, map[string]int{}
	e.smallK = 2
	e.maxStates = 100000
	e.closedNonNil = true
	e.initGlobals()
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		g := st.mon.(*parseGhost)
		fn := ci.fn
		if fn == nil {
			return false, nil
		}
		switch {
		case fn == l.lex.next:
			return true, l.pull(st)
		case fn == l.form:
			return true, l.nested(st, ci)
		case fnName(fn) == "os.Open" || fnName(fn) == "os.OpenFile":
			bad := st.fork()
			bad.mon.(*parseGhost).fileErr = true
			errT := types.Universe.Lookup("error").Type()
			ft := fn.Signature.Results().At(0).Type()
			er, f := newSym("openError", errT), newSym("file", ft)
			bad.facts.bools[eqTerm(er, nilTerm)] = false
			st.facts.bools[eqTerm(f, nilTerm)] = false
			g.files = append(g.files, f)
			tup := func(a, b *Term) *Term {
				return T.intern(&Term{op: OTuple, args: []*Term{a, b}, typ: fn.Signature.Results()})
			}
			return true, []Outcome{{st: st, ret: tup(f, nilTerm)}, {st: bad, ret: tup(nilTerm, er)}}
		case strings.HasSuffix(fn.String(), "os.File).Close"):
			for i, f := range g.files {
				if st.evalEq(f, ci.args[0]) == yes {
					g.files = append(append([]*Term(nil), g.files[:i]...), g.files[i+1:]...)
					break
				}
			}
			er := newSym("closeError", types.Universe.Lookup("error").Type())
			return true, []Outcome{{st: st, ret: er}}
		case fnName(fn) == "os.ReadFile" || fnName(fn) == "io/ioutil.ReadFile" || fnName(fn) == "io.ReadAll" || fnName(fn) == "io/ioutil.ReadAll":
			bad := st.fork()
			bad.mon.(*parseGhost).fileErr = true
			er := newSym("readError", types.Universe.Lookup("error").Type())
			bad.facts.bools[eqTerm(er, nilTerm)] = false
			data := ext("data:"+fnName(fn), fn.Signature.Results().At(0).Type(), ci.args...)
			tup := func(a, b *Term) *Term {
				return T.intern(&Term{op: OTuple, args: []*Term{a, b}, typ: fn.Signature.Results()})
			}
			return true, []Outcome{{st: st, ret: tup(data, nilTerm)}, {st: bad, ret: tup(nilTerm, er)}}
		case wrappers[fnName(fn)]:
			x := ext("wrap:"+fnName(fn), fn.Signature.Results().At(0).Type(), ci.args[0])
			st.facts.bools[eqTerm(x, nilTerm)] = false
			return true, []Outcome{{st: st, ret: x}}
		case fn == l.lex.mk:
			if g.top {
				l.source(st, g, ci)
			}
			if l.scanner == nil {
				l.scanner = newSym("!scanner", l.lex.scanner)
			}
			x := l.scanner
			st.facts.bools[eqTerm(x, nilTerm)] = false
			return true, []Outcome{{st: st, ret: x}}
		}
		if g.top && fn.Signature.Results().Len() == 0 && p.ours(fn) && callsSetParent(p, fn, map[*ssa.Function]bool{}) {
			for _, a := range ci.args {
				if g.last != nil && st.evalEq(a, g.last) == yes {
					g.linked = g.last
				}
			}
			return true, []Outcome{{st: st}}
		}
		return false, nil
	}
	e.onArrive = func(st *State, blk *ssa.BasicBlock, header bool) {
		if header && l.recursive(blk.Parent()) {
			l.forget(st)
		}
	}
	e.onMayPanic = func(st *State, ins ssa.Instruction, kind string, proven bool) {
		l.obls++
		if !proven {
			if debugLevel != "" {
				fmt.Fprint(os.Stderr, st.dump())
			}
			l.fail("panic", "panic", fnName(ins.Parent())+":"+kind, posString(p, ins.Pos()), "the parser may panic here (%s)", kind)
		}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		if pv == nil {
			l.rooted(st)
		}
		for _, s := range []*State{st} {
			g := s.mon.(*parseGhost)
			switch {
			case g.top:
				l.exitTop(s, g, ret, pv)
			case pv != nil:
				l.exitPanic(s, g, pv)
			default:
				l.exitForm(s, g, ret)
				l.summarise(s, g, g.key)
			}
		}
		return nil
	}
	l.entries = nil
	for _, top := range []*ssa.Function{l.reader, l.file} {
		if top == nil {
			continue
		}
		g := &parseGhost{top: true, fn: top, st: "top", kids: mkSeq()}
		st := e.newState(g)
		var args []*Term
		ps := top.Signature.Params()
		for i := 0; i < ps.Len(); i++ {
			t := ps.At(i).Type()
			if isIntType(t) {
				args = append(args, mkConst(constant.MakeInt64(l.opts), t))
				continue
			}
			x := newSym("!arg", t)
			if isNilable(t) {
				st.facts.bools[eqTerm(x, nilTerm)] = false
				g.rd = x
			} else {
				g.name = x
			}
			args = append(args, x)
		}
		e.pushCall(st, top, args, nil, nil)
		e.Run(st)
	}
	for len(l.entries) > 0 && !e.halt {
		n := l.entries[len(l.entries)-1]
		l.entries = l.entries[:len(l.entries)-1]
		g := n.mon.(*parseGhost)
		g.key = n.top().tag
		if !e.arrive(n, true) {
			continue
		}
		pend := g.pend
		g.pend = nil
		states := []*State{n}
		for _, t := range pend {
			var next []*State
			for _, s := range states {
				next = append(next, l.feed(s, t)...)
			}
			states = next
		}
		e.Run(states...)
	}
}

func (l *parseRun) exitTop(st *State, g *parseGhost, ret, pv *Term) {
	where := posString(l.p, g.fn.Pos())
	name := fnName(g.fn)
	if len(g.files) > 0 {
		l.fail("leak", "open-file", name, where, "%s returns with a file it opened still open", name)
	}
	if pv != nil {
		l.fail("panic", "panic-escapes", name, where, "a panic escapes from %s: %s", name, pv)
		return
	}
	if ret == nil || ret.op != OTuple || len(ret.args) != 2 {
		l.fail("result", "result", name, where, "the result is not a tree and an error")
		return
	}
	tree, er := ret.args[0], ret.args[1]
	switch {
	case st.isNil(er) == yes && st.isNil(tree) == no:
		if g.errd || g.must != "" || g.fileErr {
			l.fail("reject", "accepted", name, where, "the parser returns a tree although parsing failed")
			return
		}
		if g.st != "end" {
			l.fail("node", "incomplete", name, where, "the parser returns a tree before the end of the input")
			return
		}
		roots := l.rootsOf(st, tree)
		kind := "node"
		if !(l.inc && !l.igc && !l.igd) {
			kind = "filter"
		}
		if roots == nil || !seqIs(st, roots, g.kids) {
			l.fail(kind, "children", "Tree", where, "the tree does not hold exactly the top-level forms (that the options keep), in order: got %s, want %s", roots, g.kids)
		}
		l.forms["Tree"]++
	case st.isNil(er) == no && st.isNil(tree) == yes:
		if !g.errd && g.must == "" && !g.fileErr {
			l.fail("node", "rejected", name, where, "the parser returns an error although the input is well-formed")
		}
		l.forms["Error"]++
	default:
		l.fail("result", "result", name, where, "the parser may return neither a tree with a nil error nor a nil tree with an error: %s, %s", tree, er)
	}
}

func (l *parseRun) rootsOf(st *State, tree *Term) *Term {
	s := structOf(pointee(l.tree))
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Roots" && isNodeSlice(s.Field(i).Type(), l.nodes.iface) {
			return st.content(st.load(mkField(tree, i), s.Field(i).Type()))
		}
	}
	return nil
}

// recursive says whether fn can call the parser's entry.
func (l *parseRun) recursive(fn *ssa.Function) bool {
	if v, ok := l.rec[fn]; ok {
		return v
	}
	l.rec[fn] = false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			var ops [16]*ssa.Value
			for _, op := range ins.Operands(ops[:0]) {
				f, ok := (*op).(*ssa.Function)
				if mc, isMC := (*op).(*ssa.MakeClosure); isMC {
					f, ok = mc.Fn.(*ssa.Function)
				}
				if ok && (f == l.form || l.p.ours(f) && l.recursive(f)) {
					l.rec[fn] = true
					return true
				}
			}
		}
	}
	return false
}

// forget drops what was learnt about the forms of the sequence, once it has
// been decided which of them it keeps.
func (l *parseRun) forget(st *State) {
	g := st.mon.(*parseGhost)
	if g.st != "seq" && g.st != "top" {
		return
	}
	in := map[*Term]bool{}
	for _, k := range g.kids.args {
		if k.op == OSym {
			in[k] = true
		} else if k.op == OSeg {
			atomsOf(k, func(a *Term) { in[a] = true })
		}
	}
	// A form the code still holds on to may not have been dealt with yet.
	held := false
	hold := func(v *Term) {
		delete(in, v)
		held = held || v == g.held
	}
	for _, s := range st.slots() {
		if s.path[0] == 'f' {
			hold(s.t)
		}
	}
	for _, v := range st.heap {
		hold(v)
	}
	if !held {
		g.held, g.kept = nil, ""
	}
	about := func(t *Term) bool {
		found := false
		atomsOf(t, func(a *Term) { found = found || in[a] })
		return found
	}
	f := st.facts
	for t := range f.ints {
		if about(t) && !(t.op == OLen && in[t.args[0]]) {
			delete(f.ints, t)
		}
	}
	for t := range f.types {
		if about(t) {
			delete(f.types, t)
		}
	}
	for t := range f.bools {
		if about(t) && !(t.op == OBin && (in[t.args[0]] || in[t.args[1]])) && !(t.op == OExt && t.name == "allnonnil") {
			delete(f.bools, t)
		}
	}
	for t := range f.strEq {
		if about(t) {
			delete(f.strEq, t)
		}
	}
	for t := range f.strNe {
		if about(t) {
			delete(f.strNe, t)
		}
	}
}

func (p *Program) optBits() (b [3]int64, err error) {
	for i, n := range []string{"IncludeNonSemantic", "IgnoreCommentForm", "IgnoreReaderDiscard"} {
		c, ok := p.pkgs["parse"].Pkg.Scope().Lookup(n).(*types.Const)
		if !ok {
			return b, fmt.Errorf("option %s not found", n)
		}
		v, ok := constant.Int64Val(constant.ToInt(c.Val()))
		if !ok || v == 0 {
			return b, fmt.Errorf("option %s is not a bit", n)
		}
		b[i] = v
	}
	if b[0]&b[1]|b[0]&b[2]|b[1]&b[2] != 0 {
		return b, fmt.Errorf("the parse options share bits")
	}
	return b, nil
}

var allOpts = []int64{0, 1, 2, 3, 4, 5, 6, 7}

// parseCheck analyses the parser for each of the option combinations (bits 0
// to 2: the three options in the order of their declaration), in parallel.
func parseCheck(p *Program, r *Report, combos []int64, kinds ...string) {
	bits, err := p.optBits()
	if err != nil {
		r.fail("anchor", "options", "-", "%v", err)
		return
	}
	r.parts(len(combos), func(i int) { parsePart(p, r, bits, combos[i], kinds) })
	if !r.isPart() && len(r.findings) == 0 {
		n := 0
		for _, k := range p.nodes().order {
			if r.counts["built_"+k] > 0 {
				n++
			} else {
				r.fail("coverage", k, "-", "the parser never builds a %s", k)
			}
			delete(r.counts, "built_"+k)
		}
		r.count("node_kinds_built", n)
		r.need("trees_returned", len(combos))
		r.need("errors_returned", len(combos))
	}
}

func parsePart(p *Program, r *Report, bits [3]int64, combo int64, kinds []string) {
	ks := map[string]bool{}
	for _, k := range kinds {
		ks[k] = true
	}
	opts := int64(0)
	for i := range bits {
		if combo&(1<<i) != 0 {
			opts |= bits[i]
		}
	}
	l, err := analyseParser(p, opts, bits, ks)
	if err != nil {
		r.fail("anchor", "parser", "-", "%v", err)
		return
	}
	for _, f := range l.found {
		if ks[f.kind] {
			r.fail(f.rule, f.construct, f.where, "%s", f.detail)
		}
	}
	r.engineStats(l.e)
	r.count("token_requests_analysed", l.pulls)
	r.count("form_returns_checked", l.exits)
	r.count("error_exits_checked", l.errors)
	r.count("panic_obligations", l.obls)
	r.count("option_combinations", 1)
	r.count("trees_returned", l.forms["Tree"])
	r.count("errors_returned", l.forms["Error"])
	for _, k := range l.nodes.order {
		r.count("built_"+k, l.forms[k])
	}
}

// nothingRuns: no function of the parser starts or waits for anything.
func nothingRuns(p *Program, r *Report) {
	if r.isPart() {
		return
	}
	for _, fn := range p.fns {
		if fnPkg(fn) != p.pkgs["parse"].Pkg {
			continue
		}
		r.count("functions_scanned", 1)
		bad := func(ins ssa.Instruction, what string) {
			r.fail("concurrency", fnName(fn)+":"+what, posString(p, ins.Pos()), "%s in %s", what, fnName(fn))
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				r.count("instructions_scanned", 1)
				switch ins := ins.(type) {
				case *ssa.Go:
					bad(ins, "go statement")
				case *ssa.Select, *ssa.Send, *ssa.MakeChan:
					bad(ins, "channel operation")
				case *ssa.UnOp:
					if ins.Op == token.ARROW {
						bad(ins, "channel receive")
					}
				case ssa.CallInstruction:
					f := ins.Common().StaticCallee()
					if f == nil || fnPkg(f) == nil {
						continue
					}
					switch fnPkg(f).Path() {
					case "time", "os/exec", "os/signal", "net", "net/http", "context", "syscall":
						bad(ins, "call of "+f.String())
					case "sync":
						if f.Name() != "Do" && f.Name() != "Get" && f.Name() != "Put" {
							bad(ins, "call of "+f.String())
						}
					case "io":
						if f.Name() == "Pipe" {
							bad(ins, "call of "+f.String())
						}
					case "os":
						switch f.Name() {
						case "Pipe", "StartProcess", "Create", "CreateTemp":
							bad(ins, "call of "+f.String())
						}
					}
				}
			}
		}
	}
	r.need("functions_scanned", 40)
}

func init() {
	const how = "the parser is interpreted over unknown tokens in lockstep with a reference grammar, with the recursive entry replaced by its contract and summaries computed to a fixpoint, for each of the 8 option combinations; "
	checks["C03"] = func(p *Program, r *Report) {
		r.rule(how + "every node returned must be of the kind the grammar reads, with its token's text and exactly its sub-forms in order")
		parseCheck(p, r, allOpts, "node")
	}
	checks["C04"] = func(p *Program, r *Report) {
		r.rule(how + "wherever the grammar has an error the parser must fail with an error that carries the position, and Reader must return it with a nil tree")
		parseCheck(p, r, allOpts, "reject", "errpos", "result")
	}
	checks["C08"] = func(p *Program, r *Report) {
		r.rule(how + "the children of every sequence and the roots must be exactly the forms read, less those the options name")
		parseCheck(p, r, allOpts, "filter", "node")
	}
	checks["C09"] = func(p *Program, r *Report) {
		r.rule(how + "on every path the value of a character literal must be the documented function of its text, and a literal may be rejected only where it has no value")
		parseCheck(p, r, []int64{0, 7}, "char")
	}
	checks["C05"] = func(p *Program, r *Report) {
		r.rule(how + "every index, slice, assertion and nil obligation of parser and scanner is proved, no panic leaves Reader or File, and a read or open failure becomes an error")
		lexCheck(map[string]bool{"panic": true, "error": true}, p, r)
		if len(r.findings) == 0 {
			parseCheck(p, r, allOpts, "panic", "result")
		}
	}
	checks["C06"] = func(p *Program, r *Report) {
		r.rule(how + "on every path on which Reader or File returns every file it opened has been closed; and no function of the package starts a goroutine, uses a channel, or waits for anything")
		nothingRuns(p, r)
		parseCheck(p, r, []int64{0, 7}, "leak")
	}
}
