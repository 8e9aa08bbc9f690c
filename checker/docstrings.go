package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Docstrings: which strings are marked as one, and what may become of their
// text. See printcheck.go for what is printed of a string.

var docForms = []string{"ns", "def", "defn", "defmacro", "defmulti"}

var ignorable = []string{"NewlineNode", "CommentNode", "ReaderDiscardNode"}

// markMon watches the elements of one form: the string at index i, one between
// the name and it, and those after it.
type markMon struct {
	seq, i, b, doc *Term
	after, skipped bool
	seen           bool // the string has been come to
	form           tri  // the form may have a docstring
}

func (m *markMon) Clone() Monitor { c := *m; return &c }
func (m *markMon) Roots() []*Term { return []*Term{m.seq, m.i, m.b, m.doc} }
func (m *markMon) SetRoots(ts []*Term) {
	m.seq, m.i, m.b, m.doc = ts[0], ts[1], ts[2], ts[3]
}
func (m *markMon) Key() string { return fmt.Sprint(m.after, m.skipped, m.seen, m.form) }

var elementKey = regexp.MustCompile(`^(data\(g?other#\d+\)|gv#\d+)$`)

type docs struct {
	*transformer
	pc     *printer
	judged map[*ssa.MapUpdate]bool
}

func isDocTable(m *nodeModel, t types.Type) bool {
	mp, ok := t.Underlying().(*types.Map)
	if !ok {
		return false
	}
	k := m.kindOf(mp.Key())
	return k != nil && k.name == "StringNode"
}

// docMarks decides that only docstrings are marked.
func (pc *printer) docMarks() {
	p, r := pc.p, pc.r
	tr := newTransformer(p, r, "C22")
	if tr == nil {
		return
	}
	d := &docs{transformer: tr, pc: pc, judged: map[*ssa.MapUpdate]bool{}}
	var sites []*ssa.MapUpdate
	marks := map[*ssa.Function]bool{}
	reach := pc.g.reach(pc.entry)
	for _, f := range reach {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if u, ok := ins.(*ssa.MapUpdate); ok && isDocTable(pc.m, u.Map.Type()) {
					sites = append(sites, u)
					marks[f] = true
				}
			}
		}
	}
	if len(sites) == 0 {
		return // no string is rewritten
	}
	for changed := true; changed; {
		changed = false
		for _, f := range reach {
			for _, c := range pc.g.out[f] {
				if marks[c] && !marks[f] {
					marks[f] = true
					changed = true
				}
			}
		}
	}
	var tops []*ssa.Function
	for _, f := range reach {
		if !marks[f] || f == pc.entry || tr.nodeParam(f) < 0 || pc.emits[f] {
			continue
		}
		top := false
		for _, g := range reach {
			if g == f || marks[g] && g != pc.entry && tr.nodeParam(g) >= 0 {
				continue
			}
			for _, c := range pc.g.out[g] {
				top = top || c == f
			}
		}
		if top {
			tops = append(tops, f)
		}
	}
	for _, f := range tops {
		for _, run := range []string{"0", "1", "after", "between"} {
			d.mark(f, run)
		}
	}
	for _, u := range sites {
		r.count("marking_sites", 1)
		if !d.judged[u] && !enough() {
			pc.fail("C22", "anchor", u.Parent().Name(), posString(p, u.Pos()), "a string is marked as a docstring where the form it is in is not known")
		}
	}
}

// mark follows the function that marks docstrings for one form.
func (d *docs) mark(f *ssa.Function, run string) {
	between := run == "between"
	pc, r, p := d.pc, d.r, d.p
	defer func(n, l, s int64) {
		widenSmall, widenLow, widenSeq, widenFar = n, l, s, false
	}(widenSmall, widenLow, widenSeq)
	widenSmall, widenLow, widenSeq, widenFar = 0, 3, 3, true
	e := d.engine()
	e.smallK = 1
	e.noExact = true
	m := pc.m
	list := m.kinds["ListNode"]
	at := d.nodeParam(f)
	st := e.newState(nil)
	var args []*Term
	var node *Term
	for i, prm := range f.Params {
		x := newSym("!"+prm.Name(), prm.Type())
		if i == at {
			node = x
		}
		if i == at || isPtr(prm.Type()) {
			st.facts.bools[eqTerm(x, nilTerm)] = false
		}
		args = append(args, x)
	}
	form := d.asNode(node, f.Params[at].Type())
	seqT := types.NewSlice(m.iface)
	addr := fieldAddr(st.ptrOf(form, list), list.seq)
	seq := T.intern(&Term{op: OInit, args: []*Term{addr}, typ: seqT})
	i, b := newSym("!i", tInt), newSym("!b", tInt)
	switch run {
	case "0", "1":
		i = mkInt(int64(run[0] - '0'))
	default:
		st.restrictInt(i, rng(2, posInf))
	}
	st.assumeLess(i, mkLen(seq))
	if between {
		st.restrictInt(b, rng(2, posInf))
		st.assumeLess(b, i)
	}
	doc := newSym("!doc", m.iface)
	st.facts.bools[eqTerm(doc, nilTerm)] = false
	st.assumeType(doc, m.kinds["StringNode"].typ, true)
	st.mon = &markMon{seq: seq, i: i, b: b, doc: doc}
	// kinds splits a state by whether x may be skipped by the reader.
	kinds := func(st *State, x *Term) (skip []*State, is []*State) {
		for _, name := range m.order {
			in := false
			for _, n := range ignorable {
				in = in || n == name
			}
			if in {
				s := st.fork()
				if s.assumeType(x, m.kinds[name].typ, true) {
					skip = append(skip, s)
				}
			}
		}
		for _, n := range ignorable {
			if !st.assumeType(x, m.kinds[n].typ, false) {
				return skip, nil
			}
		}
		return skip, []*State{st}
	}
	e.onElem = func(st *State, ins *ssa.UnOp, v *Term) []*State {
		mon := st.mon.(*markMon)
		if v.args[0] != mon.seq {
			return []*State{st}
		}
		x := v.args[1]
		var out []*State
		other := func(s *State) *Term {
			o := newSym("other", m.iface)
			s.facts.bools[eqTerm(o, nilTerm)] = false
			s.set(ins, o)
			return o
		}
		if n, ok := x.intVal(); ok && n == 0 {
			// the head of the form, which is asked about by name
			if st.evalEq(x, mon.i) != no {
				if s := st.fork(); s.sameInt(x, mon.i) {
					s.mon.(*markMon).seen = true
					s.set(ins, mon.doc)
					out = append(out, s)
				}
				if !st.assumeLess(x, mon.i) {
					return out
				}
			}
			return append(out, st)
		}
		if s := st.fork(); s.assumeLess(mon.i, x) {
			// one after it
			o := other(s)
			skip, is := kinds(s, o)
			out = append(out, skip...)
			for _, s := range is {
				s.mon.(*markMon).after = true
				out = append(out, s)
			}
		}
		if s := st.fork(); s.assumeLess(x, mon.i) {
			if !between {
				other(s)
				out = append(out, s)
			} else {
				lt, gt := s.fork(), s.fork()
				if lt.assumeLess(x, mon.b) {
					other(lt)
					out = append(out, lt)
				}
				if gt.assumeLess(mon.b, x) {
					other(gt)
					out = append(out, gt)
				}
				if s.sameInt(x, mon.b) {
					skip, is := kinds(s, other(s))
					for _, s := range skip {
						s.mon.(*markMon).skipped = true
						out = append(out, s)
					}
					out = append(out, is...)
				}
			}
		}
		if st.sameInt(x, mon.i) {
			mon.seen = true
			st.set(ins, mon.doc)
			out = append(out, st)
		}
		return out
	}
	e.onMap = func(st *State, ins ssa.Instruction, mp *Term) {
		u, ok := ins.(*ssa.MapUpdate)
		if !ok || !isDocTable(m, u.Map.Type()) {
			return
		}
		d.judged[u] = true
		mon := st.mon.(*markMon)
		where := posString(p, u.Pos())
		key := st.val(u.Key)
		own := st.dataOf(mon.doc, m.kinds["StringNode"].typ)
		if st.evalEq(key, own) != yes {
			if !mon.seen && elementKey.MatchString(key.String()) || mon.seen && elementKey.MatchString(key.String()) && !strings.HasPrefix(key.String(), "gv") {
				return // another element: what is decided for this one holds for it
			}
			pc.fail("C22", "docstring", f.Name(), where, "a string is marked as a docstring that is not known to be an element of the form")
			return
		}
		r.count("marks_judged", 1)
		bad := func(s string) {
			pc.fail("C22", "docstring", f.Name(), where, "a string is marked as a docstring that %s", s)
		}
		switch {
		case mon.form != yes && st.headIs(m, form, docForms...) != yes:
			bad("is not in a form that has one")
		case run == "0" || run == "1":
			bad("may come before or be the name that the form defines")
		case between && !mon.skipped:
			bad("may have something between the name and it")
		case !mon.after:
			bad("may be the last thing in its form, and so its value")
		}
	}
	e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
		if ci.fn == nil {
			return false, nil
		}
		if outs := d.formTest(st, ci); outs != nil {
			for _, o := range outs {
				if mon := o.st.mon.(*markMon); ci.args[0] == form && o.ret == trueT && mon.form != yes {
					mon.form = o.st.headIs(m, form, docForms...)
				}
			}
			return true, outs
		}
		if ci.fn == f {
			return true, []Outcome{{st: st, ret: opaqueResult(f.Name(), ci.typ)}}
		}
		return false, nil
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		r.count("marking_paths", 1)
		return nil
	}
	e.pushCall(st, f, args, nil, nil)
	e.Run(st)
	r.engineStats(e)
}

// ---- the text of a docstring ----

// lineMon watches one line of a docstring, and the one after... the line at
// another index, if any.
type lineMon struct {
	lines, k, k2, line, line2 *Term
	n, n2                     int
	order                     string
	cur                       int // which line was read last: 1, 2 or 0
}

func (m *lineMon) Clone() Monitor { c := *m; return &c }
func (m *lineMon) Roots() []*Term { return []*Term{m.lines, m.k, m.k2, m.line, m.line2} }
func (m *lineMon) SetRoots(ts []*Term) {
	m.lines, m.k, m.k2, m.line, m.line2 = ts[0], ts[1], ts[2], ts[3], ts[4]
}
func (m *lineMon) Key() string { return fmt.Sprint(m.n, m.n2, m.order, m.cur) }

// blank says whether text t is made of spaces and the indent character alone.
func (pc *printer) blank(st *State, t *Term) bool {
	if s, ok := t.strVal(); ok {
		return strings.Trim(s, " \t") == ""
	}
	if t.op != OExt {
		return false
	}
	switch t.name {
	case "concat":
		for _, a := range t.args {
			if !pc.blank(st, a) {
				return false
			}
		}
		return true
	case "repeat":
		return pc.blank(st, t.args[0])
	}
	return strings.Contains(t.String(), "IndentChar") && !strings.Contains(t.String(), "line")
}

// docText decides that f changes a docstring's text in its indentation alone.
func (pc *printer) docText(f *ssa.Function) {
	r, p := pc.r, pc.p
	at := -1
	for i, prm := range f.Params {
		if isString(prm.Type()) {
			if at >= 0 {
				pc.fail("C22", "anchor", f.Name(), posString(p, f.Pos()), "which text %s rewrites was not found", f.Name())
				return
			}
			at = i
		}
	}
	if at < 0 {
		return
	}
	defer func(n, l, s int64) { widenSmall, widenLow, widenSeq = n, l, s }(widenSmall, widenLow, widenSeq)
	widenSmall, widenLow, widenSeq = 0, 2, 3
	for _, run := range []string{"first", "later", "pair"} {
		run := run
		e := pc.engine()
		e.smallK = 1
		e.noExact = true
		st := e.newState(nil)
		var args []*Term
		for i, prm := range f.Params {
			x := newSym("!"+prm.Name(), prm.Type())
			if isPtr(prm.Type()) {
				st.facts.bools[eqTerm(x, nilTerm)] = false
			}
			if isIntType(prm.Type()) {
				st.restrictInt(x, rng(0, posInf))
			}
			if i == at {
				x = newSym("!docstring", prm.Type())
			}
			args = append(args, x)
		}
		mon := &lineMon{k: newSym("!k", tInt), k2: newSym("!k2", tInt), line: newSym("!line", tString), line2: newSym("!line2", tString)}
		lo, hi := int64(0), int64(0)
		if run != "first" {
			lo, hi = 1, posInf
		}
		if run == "pair" {
			lo = 0
		}
		st.restrictInt(mon.k, rng(lo, hi))
		if run == "pair" {
			st.restrictInt(mon.k2, rng(1, posInf))
			st.assumeLess(mon.k, mon.k2)
		}
		st.mon = mon
		where := posString(p, f.Pos())
		bad := func(format string, args ...interface{}) {
			pc.fail("C22", "docstring-text", f.Name(), where, format, args...)
		}
		e.onCall = func(st *State, ci *callInfo) (bool, []Outcome) {
			if ci.fn == nil {
				return false, nil
			}
			switch fnName(ci.fn) {
			case "strings.Split", "strings.SplitN":
				mon := st.mon.(*lineMon)
				sep, ok := st.knownStr(ci.args[1])
				if ci.args[0] != args[at] || !ok || sep != "\n" {
					return false, nil
				}
				if fnName(ci.fn) == "strings.SplitN" {
					if n, ok := ci.args[2].intVal(); !ok || n >= 0 {
						return false, nil
					}
				}
				if mon.lines == nil {
					mon.lines = ext("lines", ci.typ, args[at])
					st.facts.ints[mkLen(mon.lines)] = rng(1, posInf)
					st.assumeLess(mon.k, mkLen(mon.lines))
					if run == "pair" {
						st.assumeLess(mon.k2, mkLen(mon.lines))
					}
				}
				return true, []Outcome{{st: st, ret: mon.lines}}
			}
			return false, nil
		}
		e.onElem = func(st *State, ins *ssa.UnOp, v *Term) []*State {
			mon := st.mon.(*lineMon)
			if mon.lines == nil || v.args[0] != mon.lines {
				return []*State{st}
			}
			x := v.args[1]
			var out []*State
			add := func(s *State, ok bool, v *Term) {
				if ok {
					m := s.mon.(*lineMon)
					switch m.cur = 0; v {
					case m.line:
						m.cur = 1
					case m.line2:
						m.cur = 2
					}
					s.set(ins, v)
					out = append(out, s)
				}
			}
			lt, eq, gt := st.fork(), st.fork(), st
			add(lt, lt.assumeLess(x, mon.k), newSym("otherline", tString))
			add(eq, eq.sameInt(x, mon.k), mon.line)
			if !gt.assumeLess(mon.k, x) {
				return out
			}
			if run == "pair" {
				lt, eq := gt.fork(), gt.fork()
				add(lt, lt.assumeLess(x, mon.k2), newSym("otherline", tString))
				add(eq, eq.sameInt(x, mon.k2), mon.line2)
				add(gt, gt.assumeLess(mon.k2, x), newSym("otherline", tString))
			} else {
				add(gt, true, newSym("otherline", tString))
			}
			return out
		}
		// put notes that text v is put in the list of lines.
		put := func(st *State, v *Term) {
			mon := st.mon.(*lineMon)
			is := func(line *Term, first bool) bool {
				trimmed := ext("strings.TrimSpace", tString, line)
				if v == line {
					return true
				}
				if first {
					return false
				}
				if v == trimmed {
					return true
				}
				if s, ok := v.strVal(); ok {
					return s == "" && (st.evalStrEq(trimmed, mkStr("")) == yes || st.evalEq(mkLen(trimmed), mkInt(0)) == yes)
				}
				if v.op == OExt && v.name == "concat" {
					n := len(v.args) - 1
					for _, a := range v.args[:n] {
						if !pc.blank(st, a) {
							return false
						}
					}
					return v.args[n] == trimmed || v.args[n] == line
				}
				return false
			}
			s := v.String()
			_, isConst := v.strVal()
			switch {
			case strings.Contains(s, "!line2") || isConst && mon.cur == 2:
				if !is(mon.line2, false) {
					bad("a line of a docstring becomes %s", s)
				}
				mon.n2++
				mon.order += "2"
			case strings.Contains(s, "!line") || isConst && mon.cur == 1:
				if !is(mon.line, run == "first" || run == "pair" && st.eval(eqTerm(mon.k, mkInt(0))) != no) {
					bad("a line of a docstring becomes %s", s)
				}
				mon.n++
				mon.order += "1"
			case strings.Contains(s, "otherline"):
			case isConst && s == `""`:
				// for another line
			default:
				bad("%s is put in a docstring", s)
			}
			if mon.n > 1 || mon.n2 > 1 {
				bad("a line of a docstring is written twice")
				mon.n, mon.n2 = 1, 1
			}
			if len(mon.order) > 2 {
				mon.order = mon.order[:2]
			}
		}
		e.onAppend = func(st *State, ci *callInfo, s, xs, ret *Term) []Outcome {
			if sl, ok := ret.typ.Underlying().(*types.Slice); ok && isString(sl.Elem()) {
				c := st.content(xs)
				for _, a := range c.args {
					if a.op == OIdx && a.args[0].op == OSeq {
						if n, ok := a.args[1].intVal(); ok && n >= 0 && int(n) < len(a.args[0].args) {
							a = a.args[0].args[n]
						}
					}
					if a.op == OSeg {
						bad("several lines of a docstring are put in at once")
						continue
					}
					put(st, a)
				}
			}
			return []Outcome{{st: st, ret: ret}}
		}
		e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
			if addr.op == OElem && !strings.HasPrefix(addr.String(), "&varargs") && val.typ != nil && isString(val.typ) {
				put(st, val)
			}
		}
		e.onExit = func(st *State, ret, pv *Term) []*State {
			if pv != nil {
				return nil
			}
			r.count("docstring_paths", 1)
			mon := st.mon.(*lineMon)
			if ret == args[at] {
				return nil
			}
			if ret.op != OExt || !strings.HasPrefix(ret.name, "strings.Join") {
				bad("a docstring is not put together from its lines again: %s", ret)
				return nil
			}
			if s, ok := st.knownStr(ret.args[len(ret.args)-1]); !ok || s != "\n" {
				bad("the lines of a docstring are not joined by line breaks")
			}
			c := st.content(ret.args[0])
			if mon.lines == nil || !st.provesLE(toLin(mkLen(mon.lines)).add(toLin(seqLen(c)), -1)) {
				bad("the docstring may have fewer lines")
				return nil
			}
			if mon.n != 1 || run == "pair" && mon.n2 != 1 {
				bad("a line of a docstring may be left out (%s %d %d %s)", run, mon.n, mon.n2, ret)
			} else if run == "pair" && mon.order != "12" {
				bad("the lines of a docstring change places")
			}
			return nil
		}
		e.pushCall(st, f, args, nil, nil)
		e.Run(st)
		r.engineStats(e)
	}
}
