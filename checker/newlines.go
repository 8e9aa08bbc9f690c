package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Redundant newlines. With the default settings the functions that a root
// form is given to, and their order, are known from following the formatter;
// one of them must leave no run of more than two newlines in any sequence, at
// any depth, and those after it must not make one; the same for newlines
// before a closing delimiter.

func init() {
	checks["C31"] = checkC31
}

var trimmedKinds = map[string]bool{"ListNode": true, "MapNode": true, "VectorNode": true, "FnLiteralNode": true, "SetNode": true}

// A question is one of the two properties.
type question struct {
	name    string
	applies func(k *nodeKind) bool
	wrong   func(t track) string
	assume  func(w *rewriter)
}

var questions = []question{
	{
		name:    "blank lines",
		applies: func(k *nodeKind) bool { return k.seq != nil },
		wrong: func(t track) string {
			if t.long {
				return "may hold more than two newlines in a row"
			}
			return ""
		},
		assume: func(w *rewriter) { w.tight = true },
	},
	{
		name:    "trailing newlines",
		applies: func(k *nodeKind) bool { return k.seq != nil && trimmedKinds[k.name] },
		wrong: func(t track) string {
			if t.last == 'n' && t.pre != 'c' {
				return "may end in a newline that does not follow a comment"
			}
			return ""
		},
		assume: func(w *rewriter) { w.trimmed = true },
	},
}

// watch follows element k of every sequence, to decide whether a function is
// called for it.
func (w *rewriter) watch() {
	e := w.e
	w.reaching = true
	e.onArrive = nil
	e.onAssert = nil
	e.onAppend = func(st *State, ci *callInfo, s, xs, ret *Term) []Outcome {
		if !isNodeSlice(ci.typ, w.m.iface) || len(xs.args) == 0 || !st.looping() {
			return []Outcome{{st: st, ret: ret}}
		}
		arr, _, _ := sliceParts(ret)
		if arr.op != OObj {
			return []Outcome{{st: st, ret: ret}}
		}
		n := newSym("len", types.Typ[types.Int])
		st.restrictInt(n, rng(1, posInf))
		st.heap[arr] = mkSeq(mkSeg(newSym("built", ci.typ), mkInt(0), n))
		return []Outcome{{st: st, ret: mkSlice(arr, mkInt(0), n, ci.typ)}}
	}
	e.onElem = func(st *State, ins *ssa.UnOp, v *Term) []*State {
		m := st.mon.(*rewriteMon)
		if !types.Identical(ins.Type(), w.m.iface) {
			return []*State{st}
		}
		i := v.args[1]
		if st.evalEq(i, m.k) != unknown {
			return []*State{st}
		}
		var out []*State
		lt, gt := st.fork(), st.fork()
		if lt.assumeLess(i, m.k) {
			out = append(out, lt)
		}
		if gt.assumeLess(m.k, i) {
			out = append(out, gt)
		}
		if st.sameInt(i, m.k) {
			out = append(out, st)
		}
		return out
	}
}

// answer is what a function was found to do about a question.
type answer struct {
	bad    map[string]string // what is wrong, by construct
	nested map[string]workItem
	where  string
}

func (a *answer) fail(construct, why string) {
	if _, ok := a.bad[construct]; !ok {
		a.bad[construct] = why
	}
}

type newliner struct {
	*settings
	memo map[string]*answer
}

// ask decides, for one function by itself, whether it establishes (or, if
// keep, keeps) what the question asks, for every kind of form.
func (n *newliner) ask(q question, it workItem, keep bool) *answer {
	key := fmt.Sprint(q.name, keep, it.key())
	if a := n.memo[key]; a != nil {
		return a
	}
	a := &answer{bad: map[string]string{}, nested: map[string]workItem{}, where: posString(n.p, it.fn.Pos())}
	n.memo[key] = a
	real := n.r
	scratch := newReport(n.id, n.p)
	n.r = scratch
	tr := n.transformer
	defer func() {
		n.r = real
		tr.judge, tr.nested, tr.setup, tr.begin, tr.reach = nil, nil, nil, nil, nil
		for c, v := range scratch.counts {
			real.count(c, v)
		}
		for f := range scratch.fns {
			real.fns[f] = true
		}
	}()
	i := n.nodeParam(it.fn)
	for _, name := range n.m.order {
		k := n.m.kinds[name]
		if o := os.Getenv("VERIF_KIND"); o != "" && o != name {
			continue
		}
		if pk := n.m.kindOf(it.fn.Params[i].Type()); pk != nil && pk != k || k.seq == nil && k.single == nil {
			continue
		}
		what := it.name() + " " + k.name
		tr.nested = func(st *State, x *Term, to workItem) { a.nested[to.key()] = to }
		tr.setup = func(w *rewriter) {
			w.newlines = true
			if keep {
				q.assume(w)
			}
		}
		tr.begin = nil
		tr.reach = nil
		tr.judge = func(fn *ssa.Function, kd *nodeKind, st *State, t track) {
			real.count("sequences_judged", 1)
			if t.bad != "" {
				a.fail(what, t.bad)
			} else if why := q.wrong(t); why != "" {
				if debugLevel == "f" && (keep || os.Getenv("VERIF_ALL") != "") {
					fmt.Printf("BAD %s %+v %s\n", what, t, st.dump()+fmt.Sprint(st.content(t.val)))
				}
				a.fail(what, why)
			}
		}
		if q.applies(k) {
			if keep {
				tr.begin = func(w *rewriter, starts []*State, src *Term) []*State { return w.assumed(starts, src) }
			}
			real.count("kinds_judged", 1)
			n.rewriteKind(it, k)
		} else if keep {
			// what it does to such a form does not matter here, only what it calls
			tr.judge = nil
			n.rewriteKind(it, k)
		}
		if keep {
			continue
		}
		// every sub-form is dealt with too
		tr.begin, tr.judge = nil, nil
		tr.setup = func(w *rewriter) { w.newlines = true }
		inLeft, inGiven := true, true
		tr.nested = func(st *State, x *Term, to workItem) {
			a.nested[to.key()] = to
			m := st.mon.(*rewriteMon)
			if k.single != nil {
				m.hits = append(m.hits, x)
			} else if x.op == OIdx && st.evalEq(x.args[1], m.k) == yes {
				m.hits = append(m.hits, x.args[0])
			}
		}
		tr.reach = func(kd *nodeKind, st *State, src, v *Term) {
			real.count("sub_forms_followed", 1)
			m := st.mon.(*rewriteMon)
			hit := func(x *Term) bool {
				for _, h := range m.hits {
					if h == x || st.evalEq(h, x) == yes {
						return true
					}
				}
				return false
			}
			leaf := func(x *Term) bool {
				for _, kk := range st.kindsOf(n.m, x) {
					if kk.seq != nil || kk.single != nil {
						return false
					}
				}
				return true
			}
			if kd.single != nil {
				if !hit(v) && !leaf(v) {
					inLeft, inGiven = false, false
				}
				return
			}
			if o := st.fork(); m.isC && !hit(src) && o.assumeLess(m.k, mkLen(src)) && !leaf(mkIdx(src, m.k, n.m.iface)) {
				inGiven = false
			}
			for _, part := range st.content(v).args {
				if part.op != OSeg {
					inLeft = false
					continue
				}
				o := st.fork()
				if o.addLE(toLin(part.args[1]).add(toLin(m.k), -1)) && o.assumeLess(m.k, part.args[2]) &&
					!m.fin && !hit(part.args[0]) && !leaf(mkIdx(part.args[0], m.k, n.m.iface)) {
					if debugLevel == "f" {
						fmt.Printf("MISS %s %v %s\n", what, part, o.dump())
					}
					inLeft = false
				}
			}
		}
		n.rewriteKind(it, k)
		if !inLeft && !inGiven {
			a.fail(what, "may not deal with every sub-form")
		}
	}
	for c, f := range scratch.findings {
		if f.Rule == "undecided" {
			a.fail(c, f.Detail)
		}
	}
	return a
}

// assumed adds to the states a function starts in what may be taken for
// granted of the end of the sequence.
func (w *rewriter) assumed(starts []*State, src *Term) []*State {
	if !w.trimmed {
		return starts
	}
	var out []*State
	n := mkLen(src)
	last, prev := mkIdx(src, addK(n, -1), w.m.iface), mkIdx(src, addK(n, -2), w.m.iface)
	nl, cm := w.m.kinds["NewlineNode"].typ, w.m.kinds["CommentNode"].typ
	for _, st := range starts {
		m := st.mon.(*rewriteMon)
		m.at = append(m.at, last, prev)
		b, c := st.fork(), st.fork()
		m.end, b.mon.(*rewriteMon).end, c.mon.(*rewriteMon).end = '0', 'f', 'c'
		if st.sameInt(n, mkInt(0)) {
			out = append(out, st)
		}
		if b.addLE(lin{nil, 1}.add(toLin(n), -1)) && b.assumeType(last, nl, false) {
			out = append(out, b)
		}
		if c.addLE(lin{nil, 2}.add(toLin(n), -1)) && c.assumeType(last, nl, true) && c.assumeType(prev, cm, true) {
			out = append(out, c)
		}
	}
	return out
}

// holds answers for a function and those it calls for sub-forms.
func (n *newliner) holds(q question, it workItem, keep bool) (construct, why, where string) {
	seen := map[string]bool{}
	work := []workItem{it}
	for len(work) > 0 {
		it := work[0]
		work = work[1:]
		if seen[it.key()] {
			continue
		}
		seen[it.key()] = true
		a := n.ask(q, it, keep)
		for _, c := range sortedKeys2(a.bad) {
			return c, a.bad[c], a.where
		}
		var keys []string
		for k := range a.nested {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			work = append(work, a.nested[k])
		}
	}
	return "", "", ""
}

func sortedKeys2(m map[string]string) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func checkC31(p *Program, r *Report) {
	r.rule("with the settings not given, the functions that one root form at an unknown index is given to are noted in order; for each of the two questions (no more than two newlines in a row; no newline before a closing delimiter but after a comment) one of them must see to it, for every kind of form with unknown contents and for all its sub-forms, and every one after it must keep it so; the list of root forms likewise")
	s := newSettings(p, r, "C31")
	if s == nil {
		return
	}
	s.run("all settings not given", func(i int) (has, isOn tri) { return no, unknown })
	n := &newliner{settings: s, memo: map[string]*answer{}}
	orders := map[string][]string{}
	forNS := map[string]bool{} // functions met only for ns forms
	other := map[string]bool{}
	for _, w := range s.runs {
		for _, f := range w.order {
			if w.heads[0] == yes {
				forNS[f] = true
			} else {
				other[f] = true
			}
		}
		if !w.leaf {
			orders[strings.Join(w.order, " ")] = w.order
		}
	}
	var keys []string
	for k := range orders {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, q := range questions {
		for _, key := range keys {
			r.count("orders_judged", 1)
			var order []string
			for _, f := range orders[key] {
				if !strings.HasPrefix(f, "roots:") {
					order = append(order, f)
				}
			}
			n.judgeOrder(q, order, forNS, other)
		}
	}
	// the list of root forms
	for _, key := range keys {
		last := ""
		for _, f := range orders[key] {
			if strings.HasPrefix(f, "roots:") {
				last = f
			}
		}
		if last == "" {
			r.fail("newlines", "roots", "-", "with the default settings nothing removes extra blank lines between the root forms")
			continue
		}
		fn := s.items[last].fn
		w := &rewriter{p: p, r: r, m: s.m, newlines: true}
		w.finished = func(st *State, t track) {
			r.count("sequences_judged", 1)
			if t.bad == "" && t.long {
				r.fail("newlines", fn.Name(), posString(p, fn.Pos()), "the root forms %s leaves may hold more than two newlines in a row", fn.Name())
			}
		}
		w.sliceContract(fn, false, func(rule, construct, where, format string, a ...interface{}) {})
	}
	r.need("orders_judged", 2)
	r.need("sequences_judged", 20)
	r.need("sub_forms_followed", 20)
}

// judgeOrder decides one question for the functions a form is given to.
func (n *newliner) judgeOrder(q question, order []string, forNS, other map[string]bool) {
	r := n.r
	// from the end: what keeps the property, back to what establishes it
	fewest := 0
	var best struct{ construct, why, where string }
	for i := len(order) - 1; i >= 0; i-- {
		f := order[i]
		it := n.items[f]
		if forNS[f] && !other[f] {
			break
		}
		c, why, where := n.holds(q, it, false)
		if c == "" {
			r.sample("%s: %s sees to it", q.name, f)
			return
		}
		if debugLevel == "f" {
			fmt.Printf("NOT BY %s: %s: %s\n", f, c, why)
		}
		if bad := len(n.ask(q, it, false).bad); best.construct == "" || bad < fewest {
			best.construct, best.why, best.where = c, why, where
			fewest = bad
		}
		if c, why, where := n.holds(q, it, true); c != "" {
			best.construct, best.why, best.where = c, why, where
			break
		}
		r.sample("%s: %s keeps it", q.name, f)
	}
	if best.construct == "" {
		best.construct, best.why, best.where = "order", "the functions for ns forms come last", "-"
	}
	r.fail("newlines", q.name+" "+best.construct, best.where, "%s: with the default settings, no function sees to them for every form, or one after it may add some: in %s, what is left %s", q.name, best.construct, best.why)
}
