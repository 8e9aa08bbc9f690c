package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The scanner is interpreted together with a reference scanner: an automaton
// that reads the same characters and says which tokens they are. Every token
// the code returns must be the next one of the reference, with its text and
// position.

// lexAPI is what the analysis knows about the scanner.
type lexAPI struct {
	scanner types.Type   // *lexer
	tok     *types.Named // the token struct
	typ     int          // fields of the token struct
	val     int
	pos     int
	mk      *ssa.Function    // makes a scanner
	next    *ssa.Function    // returns the next token
	class   map[string]*Term // token class -> type constant
	posT    types.Type       // *Pos
	posF    map[string]int
}

var tokClasses = map[string]string{
	"eof": "tokEOF", "'": "tokApostrophe", "@": "tokAtSign", "`": "tokBacktick", "char": "tokCharLiteral",
	"^": "tokCircumflex", "comment": "tokComment", "dispatch": "tokDispatch", "keyword": "tokKeyword",
	"{": "tokLeftBrace", "[": "tokLeftBracket", "(": "tokLeftParen", "number": "tokNumber", "#": "tokOctothorpe",
	"}": "tokRightBrace", "]": "tokRightBracket", ")": "tokRightParen", "string": "tokString", "symbol": "tokSymbol",
	"~": "tokTilde", "newline": "tokNewline", "error": "tokError",
}

func isBufioReader(t types.Type) bool { return typeKey(t) == "*bufio.Reader" }

// reachesField reports whether struct type t holds a field satisfying f,
// directly or in an embedded or nested struct.
func reachesField(t types.Type, f func(types.Type) bool) bool {
	s := structOf(t)
	if s == nil {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if f(ft) {
			return true
		}
		if _, ok := ft.Underlying().(*types.Struct); ok && reachesField(ft, f) {
			return true
		}
	}
	return false
}

func (p *Program) lexAPI() (*lexAPI, error) {
	sp := p.pkgs["parse"]
	a := &lexAPI{class: map[string]*Term{}, posF: map[string]int{}, typ: -1, val: -1, pos: -1}
	po, ok := sp.Pkg.Scope().Lookup("Pos").(*types.TypeName)
	if !ok {
		return nil, fmt.Errorf("type Pos not found")
	}
	a.posT = types.NewPointer(po.Type())
	ps := structOf(po.Type())
	for i := 0; ps != nil && i < ps.NumFields(); i++ {
		a.posF[ps.Field(i).Name()] = i
	}
	for _, n := range []string{"Name", "Offset", "Line", "Col"} {
		if _, ok := a.posF[n]; !ok {
			return nil, fmt.Errorf("Pos has no field %s", n)
		}
	}
	isTok := func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || n.Obj().Pkg() != sp.Pkg {
			return false
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		pos, str, enum := -1, -1, -1
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			switch {
			case types.Identical(ft, a.posT):
				pos = i
			case isEnum(ft):
				enum = i
			case isStrType(ft):
				str = i
			}
		}
		if pos < 0 || str < 0 || enum < 0 {
			return false
		}
		a.tok, a.pos, a.val, a.typ = n, pos, str, enum
		return true
	}
	// The scanner is the struct that holds the *bufio.Reader.
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		if reachesField(tn.Type(), isBufioReader) {
			a.scanner = types.NewPointer(tn.Type())
		}
	}
	if a.scanner == nil {
		return nil, fmt.Errorf("no scanner holding a *bufio.Reader found")
	}
	isMethod := func(fn *ssa.Function) bool {
		r := fn.Signature.Recv()
		return r != nil && types.Identical(r.Type(), a.scanner)
	}
	var cands, used []*ssa.Function
	for _, fn := range p.fns {
		res := fn.Signature.Results()
		if fnPkg(fn) != sp.Pkg || res.Len() != 1 || fn.Parent() != nil {
			continue
		}
		if isMethod(fn) && fn.Signature.Params().Len() == 0 && isTok(res.At(0).Type()) {
			cands = append(cands, fn)
		}
		if !isMethod(fn) && types.Identical(res.At(0).Type(), a.scanner) {
			a.mk = fn
		}
	}
	for _, fn := range cands {
		outside := false
		p.allCalls(func(in *ssa.Function, c ssa.CallInstruction) {
			if c.Common().StaticCallee() == fn && !isMethod(in) {
				outside = true
			}
		})
		if outside {
			used = append(used, fn)
		}
	}
	if len(used) != 1 || a.mk == nil {
		return nil, fmt.Errorf("cannot tell how tokens are requested (%d candidates)", len(used))
	}
	a.next = used[0]
	enum := a.tok.Underlying().(*types.Struct).Field(a.typ).Type()
	for cl, name := range tokClasses {
		c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
		if ok && types.Identical(c.Type(), enum) {
			a.class[cl] = mkConst(constant.ToInt(c.Val()), enum)
		}
	}
	for cl, name := range tokClasses {
		if a.class[cl] == nil {
			return nil, fmt.Errorf("token type %s not found", name)
		}
	}
	return a, nil
}

func isStrType(t types.Type) bool {
	b, ok := basicOf(t)
	return ok && b.Kind() == types.String
}

// ---- character classes ----

func runeSet(s string) IntSet {
	var out []ival
	for _, r := range s {
		out = append(out, ival{int64(r), int64(r)})
	}
	return normSet(out)
}

var (
	allRunes   = rng(0, 0x10FFFF)
	wsNoNL     = spaceSet.union(runeSet(",")).minus(runeSet("\n"))
	wsAll      = wsNoNL.union(runeSet("\n"))
	symRunes   = allRunes.minus(wsAll).minus(runeSet("\";@^~()[]{}\\"))
	digitRunes = rng('0', '9')
)

// ---- the reference scanner ----

type ghostPos struct{ off, line, col *Term }

type ghostTok struct {
	class string
	pos   ghostPos
	text  *Term // OSeq of runes; nil: not checked
}

type lexGhost struct {
	q         string
	esc       bool
	cur       ghostPos // after the characters read so far
	start     ghostPos // of the token being scanned
	text      *Term
	queue     []ghostTok
	last      *Term  // last character read, its width
	lastSet   string // and its class
	lastW     *Term
	behind    bool // the code has unread it
	canUnread bool
	ended     bool
	eofs      int
	scanner   *Term
	escaped   []*Term // positions handed out that the scanner can still reach
}

func (g *lexGhost) Clone() Monitor {
	c := *g
	c.queue = append([]ghostTok(nil), g.queue...)
	c.escaped = append([]*Term(nil), g.escaped...)
	return &c
}

func (g *lexGhost) Roots() []*Term {
	out := []*Term{g.cur.off, g.cur.line, g.cur.col, g.start.off, g.start.line, g.start.col, g.text, g.last, g.lastW, g.scanner}
	for _, t := range g.queue {
		out = append(out, t.pos.off, t.pos.line, t.pos.col, t.text)
	}
	return append(out, g.escaped...)
}

func (g *lexGhost) SetRoots(ts []*Term) {
	g.cur = ghostPos{ts[0], ts[1], ts[2]}
	g.start = ghostPos{ts[3], ts[4], ts[5]}
	g.text, g.last, g.lastW, g.scanner = ts[6], ts[7], ts[8], ts[9]
	i := 10
	g.queue = append([]ghostTok(nil), g.queue...)
	for k := range g.queue {
		g.queue[k].pos = ghostPos{ts[i], ts[i+1], ts[i+2]}
		g.queue[k].text = ts[i+3]
		i += 4
	}
	g.escaped = append([]*Term(nil), ts[i:]...)
}

func (g *lexGhost) Key() string {
	var b strings.Builder
	if g.behind {
		b.WriteString(g.lastSet)
	}
	fmt.Fprintf(&b, "%s %v %v %v %v %d %d %v;", g.q, g.esc, g.behind, g.canUnread, g.ended, g.eofs, len(g.escaped), g.last != nil)
	for _, t := range g.queue {
		fmt.Fprintf(&b, "%s %v,", t.class, t.text != nil)
	}
	return b.String()
}

func (g *lexGhost) emit(class string) {
	g.queue = append(g.queue, ghostTok{class, g.start, g.text})
	g.begin(g.cur)
	g.q = "out"
}

func (g *lexGhost) begin(p ghostPos) {
	g.start = p
	g.text = mkSeq()
}

var emptySeq = mkSeq()

// partition splits the characters by what the automaton does with them.
func (g *lexGhost) partition() []IntSet {
	var parts []IntSet
	rest := allRunes
	take := func(s IntSet) {
		s = s.inter(rest)
		if !s.empty() {
			parts = append(parts, s)
			rest = rest.minus(s)
		}
	}
	each := func(s string) {
		for _, r := range s {
			take(single(int64(r)))
		}
	}
	outer := func() {
		each(";\"\\:#'@`^{[(}])~\n")
		take(runeSet("+-"))
		take(runeSet("%"))
		take(wsNoNL)
		take(digitRunes)
	}
	switch g.q {
	case "out":
		outer()
	case "comment":
		each("\r\n")
	case "string":
		each("\"\\\n")
	case "char0", "failed", "ended":
		each("\n")
	case "sign":
		take(digitRunes)
		take(symRunes)
		outer()
	case "char1", "keyword", "symbol", "number":
		take(symRunes)
		outer()
	case "hash":
		each("{(\"?:'_^=!<")
		take(symRunes.minus(runeSet("+-%:#'`")).minus(digitRunes))
		outer()
	case "hashq":
		each("@")
		outer()
	}
	take(rest)
	return parts
}

// read advances the automaton by character r of width w, in set s.
func (g *lexGhost) read(r, w *Term, s IntSet) {
	is := func(set IntSet) bool { return s.subsetOf(set) }
	ch := func(c rune) bool { return s.equal(single(int64(c))) }
	before := g.cur
	g.cur.off = add(g.cur.off, w)
	if ch('\n') {
		g.cur.line = addK(g.cur.line, 1)
		g.cur.col = mkInt(1)
	} else {
		g.cur.col = add(g.cur.col, w)
	}
	push := func() { g.text = mkSeq(g.text, r) }
	// finish ends the token before r; r starts the next one.
	finish := func(class string) {
		g.queue = append(g.queue, ghostTok{class, g.start, g.text})
		g.begin(before)
		g.q = "out"
	}
	switch g.q {
	case "comment":
		if !is(runeSet("\r\n")) {
			push()
			return
		}
		finish("comment")
	case "string":
		push()
		switch {
		case ch('"') && !g.esc:
			g.emit("string")
		case ch('\\'):
			g.esc = !g.esc
		default:
			g.esc = false
		}
		return
	case "char0":
		push()
		g.q = "char1"
		return
	case "char1", "keyword", "symbol", "number":
		if is(symRunes) {
			push()
			return
		}
		c := g.q
		if c == "char1" {
			c = "char"
		}
		finish(c)
	case "sign":
		if is(digitRunes) {
			push()
			g.q = "number"
			return
		}
		if is(symRunes) {
			push()
			g.q = "symbol"
			return
		}
		finish("symbol")
	case "hash":
		switch {
		case is(runeSet("{(\":")):
			g.queue = append(g.queue, ghostTok{"dispatch", g.start, mkSeq(g.text, r)})
			g.begin(before)
			g.q = "out"
		case ch('?'):
			push()
			g.q = "hashq"
			return
		case is(runeSet("'_^=")):
			push()
			g.emit("dispatch")
			return
		case ch('!'):
			push()
			g.q = "comment"
			return
		case ch('<'):
			push()
			g.q = "failed"
			g.queue = append(g.queue, ghostTok{"error", g.start, nil})
			return
		default:
			finish("#")
		}
	case "hashq":
		if ch('@') {
			push()
			g.emit("dispatch")
			return
		}
		finish("dispatch")
	case "failed", "ended":
		return
	}
	// r starts something new.
	g.begin(before)
	if is(wsNoNL) {
		g.begin(g.cur)
		return
	}
	push()
	switch {
	case ch(';'):
		g.q = "comment"
	case ch('"'):
		g.q, g.esc = "string", false
	case ch('\\'):
		g.q = "char0"
	case ch(':'):
		g.q = "keyword"
	case ch('#'):
		g.q = "hash"
	case is(runeSet("+-")):
		g.q = "sign"
	case is(digitRunes):
		g.q = "number"
	case ch('\n'):
		g.emit("newline")
	case is(runeSet("'@`^{[(}])~")):
		g.emit(string(rune(s.min())))
	default:
		g.q = "symbol"
	}
}

// end advances the automaton by the end of the input.
func (g *lexGhost) end() {
	if g.ended {
		return
	}
	g.ended = true
	switch g.q {
	case "out":
	case "comment", "keyword", "symbol", "number":
		g.emit(g.q)
	case "char1":
		g.emit("char")
	case "sign":
		g.emit("symbol")
	case "hash":
		g.emit("#")
	case "hashq":
		g.emit("dispatch")
	case "string", "char0":
		g.queue = append(g.queue, ghostTok{"error", g.start, nil})
		g.q = "failed"
		return
	case "failed":
		return
	}
	g.queue = append(g.queue, ghostTok{"eof", g.cur, nil})
	g.q = "ended"
}

// ---- the analysis ----

// lexResult is what went wrong, by kind of property.
type lexFinding struct{ kind, rule, construct, where, detail string }

type lexRun struct {
	p     *Program
	api   *lexAPI
	e     *Engine
	found map[string]lexFinding
	toks  map[string]int
	calls int
	obls  int
	reads int
	name  *Term
	kinds map[string]bool
}

func (l *lexRun) fail(kind, rule, construct, where, format string, args ...interface{}) {
	k := kind + rule + construct
	if l.kinds[kind] {
		l.e.halt = true // one is enough
	}
	if _, ok := l.found[k]; !ok {
		l.found[k] = lexFinding{kind, rule, construct, where, fmt.Sprintf(format, args...)}
	}
}

func ioEOF(p *Program) *Term {
	for _, sp := range p.ssa.AllPackages() {
		if sp.Pkg.Path() == "io" {
			if g := sp.Var("EOF"); g != nil {
				gt := T.intern(&Term{op: OGlobal, g: g, typ: g.Type()})
				return T.intern(&Term{op: OInit, args: []*Term{gt}, typ: pointee(g.Type())})
			}
		}
	}
	return newSym("!io.EOF", types.Universe.Lookup("error").Type())
}

// newRune makes an unknown character of set s and its width.
func newRune(st *State, s IntSet) (r, w *Term) {
	lo, hi := runeWidth(s)
	if lo == hi {
		w = mkInt(lo)
	} else {
		w = newSym("w", tInt)
		st.facts.ints[w] = rng(lo, hi)
	}
	if s.min() == s.max() {
		return mkConst(constant.MakeInt64(s.min()), tRune), w
	}
	r = newSym("r", tRune)
	st.facts.ints[r] = s
	return r, w
}

func runeWidth(s IntSet) (int64, int64) {
	lo, hi := int64(1), int64(4)
	switch {
	case s.max() < 0x80:
		hi = 1
	case s.max() < 0x800:
		hi = 2
	case s.max() < 0x10000:
		hi = 3
	}
	if s.min() >= 0x80 && s.disjoint(single(0xFFFD)) {
		lo = 2
	}
	return lo, hi
}

func analyseLexer(p *Program, kinds map[string]bool) (*lexRun, error) {
	api, err := p.lexAPI()
	if err != nil {
		return nil, err
	}
	l := &lexRun{p: p, api: api, kinds: kinds, found: map[string]lexFinding{}, toks: map[string]int{}}
	e := newEngine(p)
	l.e = e
	sliceLenExact = 3
	widenSmall = 14
	e.strRunes = true
	e.smallK = 1
	e.maxStates = 150000
	e.closedNonNil = true
	e.initGlobals()
	eof := ioEOF(p)
	errT := types.Universe.Lookup("error").Type()
	name := newSym("!name", tString)
	e.nilFacts = func(st *State, t *Term) tri {
		if t == eof {
			return no
		}
		return unknown
	}
	tuple := func(ci *callInfo, ts ...*Term) *Term {
		return T.intern(&Term{op: OTuple, args: ts, typ: ci.typ})
	}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		nm := ""
		if ci.fn != nil {
			nm = fnName(ci.fn)
		} else if ci.method != nil {
			nm = ci.method.FullName()
		}
		g := st.mon.(*lexGhost)
		switch {
		case strings.HasSuffix(nm, ").ReadRune"):
			l.reads++
			if len(g.queue) > 3 {
				cl := ""
				for _, t := range g.queue {
					cl += t.class + " "
				}
				if debugLevel != "" {
					for _, p := range st.trail {
						fmt.Println(posString(l.p, p))
					}
					fmt.Print(st.dump())
				}
				l.fail("text", "token-boundary", "runaway", posString(p, ci.pos), "the scanner reads on although the tokens %sare complete", cl)
				return true, nil
			}
			if g.behind {
				g.behind, g.canUnread = false, true
				return true, []Outcome{{st: st, ret: tuple(ci, g.last, g.lastW, nilTerm)}}
			}
			if g.ended {
				g.canUnread = false
				return true, []Outcome{{st: st, ret: tuple(ci, mkInt(0), mkInt(0), eof)}}
			}
			var outs []Outcome
			parts := g.partition()
			for _, s := range parts {
				n := st.fork()
				r, w := newRune(n, s)
				ng := n.mon.(*lexGhost)
				ng.read(r, w, s)
				ng.last, ng.lastW, ng.canUnread = r, w, true
				ng.lastSet = s.String()
				outs = append(outs, Outcome{st: n, ret: tuple(ci, r, w, nilTerm)})
			}
			n := st.fork()
			ng := n.mon.(*lexGhost)
			ng.end()
			ng.canUnread = false
			outs = append(outs, Outcome{st: n, ret: tuple(ci, mkInt(0), mkInt(0), eof)})
			n = st.fork()
			ng = n.mon.(*lexGhost)
			ng.canUnread = false
			if ng.q != "failed" {
				ng.queue = append(ng.queue, ghostTok{"error", ng.start, nil})
				if ng.q == "out" {
					ng.queue[len(ng.queue)-1].class = "error-outside"
				}
				ng.q = "failed"
			}
			er := newSym("readError", errT)
			n.facts.bools[eqTerm(er, nilTerm)] = false
			n.facts.bools[eqTerm(er, eof)] = false
			outs = append(outs, Outcome{st: n, ret: tuple(ci, mkInt(0), mkInt(0), er)})
			return true, outs
		case strings.HasSuffix(nm, ").UnreadRune"):
			if !g.canUnread {
				er := newSym("unreadError", errT)
				st.facts.bools[eqTerm(er, nilTerm)] = false
				return true, []Outcome{{st: st, ret: er}}
			}
			g.canUnread, g.behind = false, true
			return true, []Outcome{{st: st, ret: nilTerm}}
		case nm == "errors.Is":
			return true, []Outcome{{st: st, ret: eqOrConst(st, ci.args[0], ci.args[1])}}
		}
		return false, nil
	}
	e.onMayPanic = func(st *State, ins ssa.Instruction, kind string, proven bool) {
		l.obls++
		if !proven {
			l.fail("panic", "panic", fnName(ins.Parent())+":"+kind, posString(p, ins.Pos()), "the scanner may panic here (%s)", kind)
		}
	}
	e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
		root := rootOf(addr)
		for _, o := range st.mon.(*lexGhost).escaped {
			if o == root {
				l.fail("pos", "position-changed", fnName(ins.Parent()), posString(p, ins.Pos()), "a position that was already handed out in a token is written again")
			}
		}
	}
	var enter func(st *State) []*State
	first := true
	e.onExit = func(st *State, ret, pv *Term) []*State {
		if pv != nil {
			l.fail("panic", "panic-escapes", "nextToken", posString(p, l.api.next.Pos()), "a panic escapes from %s: %s", fnName(api.next), pv)
			return nil
		}
		if first {
			first = false
			st.mon.(*lexGhost).scanner = ret
			if ret.op != OObj {
				e.cantDecide(api.mk.Pos(), "the scanner made by %s", fnName(api.mk))
				return nil
			}
			return enter(st)
		}
		return l.token(st, ret, enter)
	}
	enter = func(st *State) []*State {
		l.calls++
		st.frames = nil
		e.pushCall(st, api.next, []*Term{st.mon.(*lexGhost).scanner}, nil, nil)
		if !e.arrive(st, true) {
			return nil
		}
		return []*State{st}
	}
	zero := ghostPos{mkInt(0), mkInt(1), mkInt(1)}
	g := &lexGhost{q: "out", cur: zero, start: zero, text: mkSeq()}
	st := e.newState(g)
	var args []*Term
	for i := 0; i < api.mk.Signature.Params().Len(); i++ {
		t := api.mk.Signature.Params().At(i).Type()
		if isStrType(t) {
			args = append(args, name)
			continue
		}
		in := newSym("!input", t)
		if isNilable(t) {
			st.facts.bools[eqTerm(in, nilTerm)] = false
		}
		args = append(args, in)
	}
	l.name = name
	e.pushCall(st, api.mk, args, nil, nil)
	e.Run(st)
	return l, nil
}

func eqOrConst(st *State, a, b *Term) *Term {
	switch st.evalEq(a, b) {
	case yes:
		return trueT
	case no:
		return falseT
	}
	return eqTerm(a, b)
}

// token compares a returned token with the reference's next one.
func (l *lexRun) token(st *State, ret *Term, enter func(*State) []*State) []*State {
	api := l.api
	g := st.mon.(*lexGhost)
	where := posString(l.p, api.next.Pos())
	if n := len(st.trail); n > 0 {
		where = posString(l.p, st.trail[n-1])
	}
	ts := api.tok.Underlying().(*types.Struct)
	typ := fieldOf(ret, api.typ, ts.Field(api.typ).Type())
	set := st.intSet(typ)
	class := ""
	for c, k := range api.class {
		if v, ok := k.intVal(); ok && set.equal(single(v)) {
			class = c
		}
	}
	if class == "" {
		l.fail("text", "token-type", "nextToken", where, "a token is returned whose type is not one of the scanner's: %s", typ)
		return nil
	}
	if len(g.queue) == 0 {
		l.fail("text", "token-boundary", class+"/"+g.q, where, "a %q token is returned although the reader is still inside a token (state %s) or has no token here", class, g.q)
		return nil
	}
	want := g.queue[0]
	g.queue = g.queue[1:]
	wc := want.class
	if wc == "error-outside" {
		wc = "error"
	}
	l.toks[wc]++
	if class != wc {
		kind := "text"
		if wc == "error" {
			kind = "error"
		}
		l.fail(kind, "token-class", fmt.Sprintf("%s-for-%s", class, wc), where, "the scanner returns a %q token where the reader reads %q", class, wc)
		return nil
	}
	if want.text != nil && !textIs(st, fieldOf(ret, api.val, tString), want.text) {
		l.fail("text", "token-text", class, where, "the text of a %q token is not the input between its boundaries: got %s, want %s",
			class, fieldOf(ret, api.val, tString), want.text)
		return nil
	}
	pos := fieldOf(ret, api.pos, api.posT)
	if st.isNil(pos) != no {
		l.fail("pos", "token-position", class, where, "a %q token may have no position", class)
	} else if want.pos.off != nil && want.class != "error-outside" {
		for f, w := range map[string]*Term{"Offset": want.pos.off, "Line": want.pos.line, "Col": want.pos.col, "Name": l.name} {
			i := api.posF[f]
			v := st.load(mkField(pos, i), nil)
			if st.evalEq(v, w) != yes {
				if debugLevel != "" {
					fmt.Print(st.dump())
				}
				l.fail("pos", "token-position", class+"."+f, where, "the %s of a %q token's position is %s, not that of its first character (%s)", f, class, v, w)
			}
		}
	}
	if class == "error" {
		return nil
	}
	if class == "eof" {
		g.eofs++
		if g.eofs > 1 {
			return nil
		}
		g.queue = append(g.queue, ghostTok{class: "eof"})
	}
	// Which positions handed out can the scanner still reach?
	g.escaped = append(g.escaped, pos)
	reach := st.reachable(g.scanner)
	var esc []*Term
	for _, o := range g.escaped {
		if o.op == OObj && reach[o] {
			esc = append(esc, o)
		}
	}
	g.escaped = esc
	return enter(st)
}

// reachable lists the objects reachable from t through the heap.
func (st *State) reachable(t *Term) map[*Term]bool {
	seen := map[*Term]bool{}
	var work []*Term
	visit := func(t *Term) {
		atomsOf(t, func(a *Term) {
			if !seen[a] {
				seen[a] = true
				work = append(work, a)
			}
		})
	}
	visit(t)
	by := map[*Term][]*Term{}
	for a, v := range st.heap {
		r := rootOf(mapRoot(a))
		by[r] = append(by[r], v)
	}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, v := range by[x] {
			visit(v)
		}
	}
	return seen
}

// runesOf renders a string term as the sequence of its characters.
func (st *State) runesOf(t *Term) *Term {
	if s, ok := st.knownStr(t); ok {
		var es []*Term
		for _, r := range s {
			es = append(es, mkInt(int64(r)))
		}
		return mkSeq(es...)
	}
	if t.op == OExt {
		switch t.name {
		case "runes2str":
			return t.args[0]
		case "rune2str":
			return mkSeq(t.args[0])
		case "concat":
			var ps []*Term
			for _, a := range t.args {
				s := st.runesOf(a)
				if s == nil {
					return nil
				}
				ps = append(ps, s)
			}
			return mkSeq(ps...)
		}
	}
	return nil
}

func textIs(st *State, v, want *Term) bool {
	got := st.runesOf(v)
	if got == nil {
		return false
	}
	if got == want {
		return true
	}
	if len(got.args) != len(want.args) {
		return false
	}
	for i := range got.args {
		a, b := got.args[i], want.args[i]
		if a == b {
			continue
		}
		if a.op == OSeg || b.op == OSeg || st.evalEq(a, b) != yes {
			return false
		}
	}
	return true
}

func lexCheck(kinds map[string]bool, p *Program, r *Report) *lexRun {
	if r.isPart() {
		return nil
	}
	l, err := analyseLexer(p, kinds)
	if err != nil {
		r.fail("anchor", "scanner", "-", "%v", err)
		return nil
	}
	for _, f := range l.found {
		if kinds[f.kind] {
			r.fail(f.rule, f.construct, f.where, "%s", f.detail)
		}
	}
	r.engineStats(l.e)
	r.count("token_requests_analysed", l.calls)
	r.count("character_reads_analysed", l.reads)
	r.count("panic_obligations", l.obls)
	n := 0
	for c := range tokClasses {
		if l.toks[c] > 0 {
			n++
		}
	}
	r.count("token_classes_seen", n)
	r.need("token_classes_seen", len(tokClasses))
	return l
}

func init() {
	checks["C01"] = func(p *Program, r *Report) {
		r.rule("the scanner is interpreted in lockstep with a reference automaton of the Clojure reader's tokens over unknown characters; every token it returns must be the reference's next token, with the same text")
		lexCheck(map[string]bool{"text": true, "error": true}, p, r)
	}
	checks["C02"] = func(p *Program, r *Report) {
		r.rule("in the same lockstep interpretation the position of every token (and so of every scanning error) must be the reference's position of its first character, and no position already handed out may be written again")
		lexCheck(map[string]bool{"pos": true}, p, r)
		if len(r.findings) == 0 {
			r.rule("in the lockstep interpretation of the parser every node must carry the position of its first token")
			parseCheck(p, r, allOpts, "pos")
		}
	}
}
