package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rewriting of sequences. A ghost follows each sequence under construction
// and says how far into the source sequence it has come: the elements it is
// given must come from the source in increasing order, newlines aside, which
// may be added and dropped at will. Whether an element is left out, and
// whether a newline follows a comment, is decided for one element of the
// source at an unknown index k.

type track struct {
	val  *Term // the slice under construction
	j    *Term // elements of src before j are given or left out
	k    byte  // element k: 0 not reached, 1 given last, 2 given and then a newline, 3 given and then something else, 4 left out
	last byte  // what it ends in: 'c' a comment, 'n' a newline, 'f' another form, 0 nothing
	run  int   // the number of newlines it ends in, at most (3: three or more)
	pre  byte  // when newlines are the question: what comes before what it ends in
	bad  string
	long bool // a run of more than two newlines may be in it
}

type rewriteMon struct {
	src   *Term // the sequence given
	k     *Term // the index of an element that is not a newline
	delim *Term // whether a delimiter follows the sequence
	isC   bool  // whether element k is a comment (a newline, is there, as the question is)
	next  tri   // whether the element after it is a newline
	seen  byte  // whether it, and the element after it, have been looked at
	at    []*Term
	tr    []track
	end   byte    // what is taken for granted of the end of the source
	done  []track // the sequence given to the node, when it was given
	fin   bool    // a function was called for element k of the sequence the node has now
	hits  []*Term // sequences whose element k a function was called for
}

func (m *rewriteMon) Clone() Monitor {
	c := *m
	c.tr = append([]track(nil), m.tr...)
	c.hits = append([]*Term(nil), m.hits...)
	return &c
}

func (m *rewriteMon) Roots() []*Term {
	out := append([]*Term{m.src, m.k, m.delim}, m.at...)
	for _, t := range m.tr {
		out = append(out, t.val, t.j)
	}
	for _, t := range m.done {
		out = append(out, t.val, t.j)
	}
	return append(out, m.hits...)
}

func (m *rewriteMon) SetRoots(ts []*Term) {
	m.src, m.k, m.delim = ts[0], ts[1], ts[2]
	n := 3 + len(m.at)
	m.at = append([]*Term(nil), ts[3:n]...)
	for i := range m.tr {
		m.tr[i].val, m.tr[i].j = ts[n+2*i], ts[n+2*i+1]
	}
	n += 2 * len(m.tr)
	if len(m.done) > 0 {
		t := m.done[0]
		t.val, t.j = ts[n], ts[n+1]
		m.done = []track{t}
		n += 2
	}
	m.hits = append([]*Term(nil), ts[n:]...)
}

func (m *rewriteMon) Key() string {
	var b strings.Builder
	fmt.Fprint(&b, m.isC, m.next, m.seen, ";")
	for _, t := range append(append([]track(nil), m.tr...), m.done...) {
		fmt.Fprint(&b, string(rune('0'+t.last)), t.run, t.k, t.long, t.bad, t.pre, ";")
	}
	fmt.Fprint(&b, len(m.hits), m.end, len(m.done), m.fin)
	return b.String()
}

// rewriter checks functions that rewrite sequences.
type rewriter struct {
	p *Program
	r *Report
	m *nodeModel
	e *Engine

	finished func(st *State, t track)

	reaching bool // which elements a function is called for is the question
	newlines bool // runs of newlines and the end of the sequence are the question
	tight    bool // no more than two newlines in a row are in the source
	trimmed  bool // the source does not end in a newline, but for one after a comment
}

func (w *rewriter) elem(m *rewriteMon, i *Term) *Term { return mkIdx(m.src, i, w.m.iface) }

func (st *State) less(i, n *Term) bool {
	return st.provesLE(toLin(i).add(toLin(n), -1).add(lin{nil, 1}, 1))
}

// record keeps l <= 0, which is known to hold, as a fact of its own.
func (st *State) record(l lin) {
	t := l.term(tInt)
	for _, r := range st.facts.rel {
		if r == t {
			return
		}
	}
	if t.op == OLin && len(t.args) > 1 {
		st.facts.rel = append(st.facts.rel[:len(st.facts.rel):len(st.facts.rel)], t)
	}
}

func (st *State) lessEq(i, n *Term) bool { return st.provesLE(toLin(i).add(toLin(n), -1)) }

func (st *State) assumeLess(i, n *Term) bool {
	return st.addLE(toLin(i).add(toLin(n), -1).add(lin{nil, 1}, 1))
}

func (st *State) sameInt(i, n *Term) bool {
	return st.addLE(toLin(i).add(toLin(n), -1)) && st.addLE(toLin(n).add(toLin(i), -1))
}

type sorted struct {
	st *State
	k  byte
}

// splitKind splits st on what sort of element x is.
func (w *rewriter) splitKind(st *State, x *Term) []sorted {
	var out []sorted
	nl, cm := st.isKind(w.m, x, "NewlineNode"), st.isKind(w.m, x, "CommentNode")
	switch {
	case nl == yes:
		return []sorted{{st, 'n'}}
	case cm == yes:
		return []sorted{{st, 'c'}}
	case nl == no && cm == no:
		return []sorted{{st, 'f'}}
	}
	a, b := st.fork(), st.fork()
	if nl == unknown && a.assumeType(x, w.m.kinds["NewlineNode"].typ, true) {
		out = append(out, sorted{a, 'n'})
	}
	if cm == unknown && b.assumeType(x, w.m.kinds["CommentNode"].typ, true) {
		out = append(out, sorted{b, 'c'})
	}
	if st.assumeType(x, w.m.kinds["NewlineNode"].typ, false) && st.assumeType(x, w.m.kinds["CommentNode"].typ, false) {
		out = append(out, sorted{st, 'f'})
	}
	return out
}

// sameKind carries what sort of element x is over to y.
func (w *rewriter) sameKind(st *State, x, y *Term) bool {
	if x == y {
		return true
	}
	for _, n := range []string{"NewlineNode", "CommentNode"} {
		typ := w.m.kinds[n].typ
		for _, p := range [][2]*Term{{x, y}, {y, x}} {
			switch st.isKind(w.m, p[0], n) {
			case yes:
				if !st.assumeType(p[1], typ, true) {
					return false
				}
			case no:
				if !st.assumeType(p[1], typ, false) {
					return false
				}
			}
		}
	}
	return true
}

// equate assumes that i and k are the same index.
func (w *rewriter) equate(st *State, i, k *Term) bool {
	m := st.mon.(*rewriteMon)
	return st.sameInt(i, k) && w.sameKind(st, w.elem(m, i), w.elem(m, k))
}

// onAssert splits the state before the kind of an element of the source is
// tested, on whether it is element k or the one behind it.
func (w *rewriter) onAssert(st *State, x *Term) []*State {
	m := st.mon.(*rewriteMon)
	if x.op != OIdx || x.args[0] != m.src {
		return []*State{st}
	}
	i := x.args[1]
	var out []*State
	rest := []*State{st}
	places := []*Term{m.k, addK(m.k, 1)}
	switch {
	case w.trimmed:
		places = []*Term{addK(mkLen(m.src), -1), addK(mkLen(m.src), -2)}
	case w.tight:
	case w.newlines:
		places = nil
	}
	for d, place := range places {
		var next []*State
		for _, s := range rest {
			k := place
			switch s.evalEq(i, k) {
			case no:
				next = append(next, s)
				continue
			case unknown:
				lt, gt := s.fork(), s.fork()
				if lt.assumeLess(i, k) {
					next = append(next, lt)
				}
				if gt.assumeLess(k, i) {
					next = append(next, gt)
				}
				if !s.sameInt(i, k) {
					continue
				}
			}
			for _, o := range w.splitKind(s, w.elem(m, k)) {
				if w.sameKind(o.st, w.elem(m, k), x) {
					o.st.mon.(*rewriteMon).seen |= 1 << d
					out = append(out, o.st)
				}
			}
		}
		rest = next
	}
	return append(out, rest...)
}

func (w *rewriter) arrive(st *State, blk *ssa.BasicBlock, header bool) {
	m := st.mon.(*rewriteMon)
	m.next = st.isKind(w.m, m.at[1], "NewlineNode")
	if m.next != unknown {
		// what is known of the element after element k was learnt where it exists
		st.record(toLin(m.k).add(toLin(mkLen(m.src)), -1).add(lin{nil, 2}, 1))
	}
	if header {
		w.forward(st, m, blk)
		for t := range st.facts.types {
			if t.op == OIdx && t.args[0] == m.src && t != m.at[0] && t != m.at[1] && t.args[1].isConst() {
				delete(st.facts.types, t)
			}
		}
	}
	// forget sequences nothing refers to any more
	if len(m.tr) > 0 {
		live := map[*Term]bool{}
		for _, s := range st.slots() {
			if s.path[0] != 'm' {
				st.mark(s.t, live)
			}
		}
		for a, v := range st.heap {
			if rootOf(a).op != OObj || live[rootOf(a)] {
				st.mark(v, live)
			}
		}
		var keep []track
		for _, t := range m.tr {
			if arr, _, _ := sliceParts(t.val); live[t.val] || arr.op == OObj && live[arr] {
				keep = append(keep, t)
			}
		}
		m.tr = keep
	}
}

// forward moves sequences under construction on over newlines of the source
// that a loop has dealt with.
func (w *rewriter) forward(st *State, m *rewriteMon, blk *ssa.BasicBlock) {
	for i := range m.tr {
		t := &m.tr[i]
		for n := 0; n < 4 && t.bad == "" && st.isKind(w.m, w.elem(m, t.j), "NewlineNode") == yes; n++ {
			dealt := false
			for _, ins := range blk.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				if x := st.val(phi); isIntType(phi.Type()) && x != nil && st.lessEq(t.j, x) {
					dealt = true
				}
			}
			if !dealt || t.k == 0 && !st.assumeLess(t.j, m.k) {
				break
			}
			t.j = addK(t.j, 1)
		}
	}
}

// mark adds t and what can be reached from it.
func (st *State) mark(t *Term, seen map[*Term]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.args {
		st.mark(a, seen)
	}
	if t.op == OObj {
		for a, v := range st.heap {
			if rootOf(a) == t {
				st.mark(v, seen)
			}
		}
	}
}

type tracked struct {
	st *State
	t  track
}

// upTo moves the track t on to index i of the source: what lies between is
// left out.
func (w *rewriter) upTo(st *State, t track, i *Term) []tracked {
	m := st.mon.(*rewriteMon)
	if t.k == 0 && !st.lessEq(t.j, m.k) && !st.addLE(toLin(t.j).add(toLin(m.k), -1)) {
		return nil
	}
	for n := 0; n < 6 && st.evalEq(t.j, i) != yes && st.less(t.j, i) && st.isKind(w.m, w.elem(m, t.j), "NewlineNode") == yes; n++ {
		// element k is no newline
		t.j = addK(t.j, 1)
		if t.k == 0 && !st.assumeLess(addK(t.j, -1), m.k) {
			return nil
		}
	}
	if st.evalEq(t.j, i) == yes {
		t.j = i
		return []tracked{{st, t}}
	}
	if !st.lessEq(t.j, i) {
		t.bad = "may repeat forms of the sequence given, or have them in another order"
		return []tracked{{st, t}}
	}
	t.j = i
	if t.k != 0 {
		return []tracked{{st, t}}
	}
	var out []tracked
	o := st.fork()
	if o.assumeLess(m.k, i) {
		t := t
		t.k = 4
		out = append(out, tracked{o, t})
	}
	if st.lessEq(i, m.k) || st.addLE(toLin(i).add(toLin(m.k), -1)) {
		out = append(out, tracked{st, t})
	}
	return out
}

func (t *track) ends(kind byte) {
	if t.k == 1 {
		t.k = 3
		if kind == 'n' {
			t.k = 2
		}
	}
	t.run = 0
	t.last = kind
}

// giveOne adds one element to the sequence t.
func (w *rewriter) giveOne(st *State, t track, x *Term) []tracked {
	m := st.mon.(*rewriteMon)
	if t.bad != "" {
		return []tracked{{st, t}}
	}
	var out []tracked
	for _, s := range w.splitKind(st, x) {
		t, st := t, s.st
		own := x.op == OIdx && x.args[0] == m.src
		if s.k == 'n' {
			if own && st.evalEq(t.j, x.args[1]) == yes {
				if t.k == 0 && !st.assumeLess(t.j, m.k) && !st.lessEq(t.j, m.k) {
					continue
				}
				t.j = addK(x.args[1], 1)
			}
			run, last := t.run, t.last
			t.ends('n')
			if w.newlines {
				t.pre = last
			}
			if t.run = run + 1; t.run >= 3 {
				t.run, t.long = 3, true
			}
			out = append(out, tracked{st, t})
			continue
		}
		if !own {
			t.bad = "holds a form that is not one of the sequence given"
			out = append(out, tracked{st, t})
			continue
		}
		i := x.args[1]
		for _, u := range w.upTo(st, t, i) {
			t, st := u.t, u.st
			if t.bad != "" {
				out = append(out, u)
				continue
			}
			t.ends(s.k)
			t.pre = 0
			t.j = addK(i, 1)
			if t.k != 0 {
				out = append(out, tracked{st, t})
				continue
			}
			o := st.fork()
			if w.equate(o, i, m.k) {
				t := t
				t.k = 1
				out = append(out, tracked{o, t})
			}
			if st.assumeLess(i, m.k) {
				out = append(out, tracked{st, t})
			}
		}
	}
	return out
}

func (w *rewriter) newTrack(v *Term) track {
	t := track{val: v, j: mkInt(0)}
	if w.newlines {
		t.k = 3 // element k is of no account
	}
	return t
}

// kindAt splits st on what sort of element is at index i of a source that
// holds no long run of newlines. What sort of element is at index k alone is
// known in each state; elsewhere the case of a newline is left to the states
// in which k is there.
func (w *rewriter) kindAt(st *State, i *Term) []sorted {
	m := st.mon.(*rewriteMon)
	x := w.elem(m, i)
	if !w.tight || st.isKind(w.m, x, "NewlineNode") != unknown {
		return w.splitKind(st, x)
	}
	var out []sorted
	eq := st.fork()
	if st.evalEq(i, m.k) != no && eq.sameInt(i, m.k) && w.sameKind(eq, w.elem(m, m.k), x) {
		out = append(out, w.splitKind(eq, x)...)
	}
	if st.evalEq(i, m.k) == yes {
		return out
	}
	st.assumeType(x, w.m.kinds["NewlineNode"].typ, false)
	return append(out, w.splitKind(st, x)...)
}

// giveSeg adds the elements from a up to b of sequence base.
func (w *rewriter) giveSeg(st *State, t track, base, a, b *Term) []tracked {
	m := st.mon.(*rewriteMon)
	if t.bad != "" || st.lessEq(b, a) {
		return []tracked{{st, t}}
	}
	if base != m.src {
		t.bad = "holds forms that are not of the sequence given"
		return []tracked{{st, t}}
	}
	var out []tracked
	if !st.less(a, b) { // perhaps empty
		o := st.fork()
		if o.addLE(toLin(b).add(toLin(a), -1)) {
			out = append(out, tracked{o, t})
		}
		if !st.assumeLess(a, b) {
			return out
		}
	}
	ups := w.upTo(st, t, a)
	if w.newlines && t.run > 0 {
		// whether the run goes on
		var split []tracked
		for _, u := range ups {
			for _, s := range w.kindAt(u.st, a) {
				split = append(split, tracked{s.st, u.t})
			}
		}
		ups = split
	}
	for _, u := range ups {
		if u.t.bad != "" {
			out = append(out, u)
			continue
		}
		first := byte('f')
		run, prev := u.t.run, u.t.last
		if u.st.isKind(w.m, w.elem(m, a), "NewlineNode") == yes {
			first = 'n'
		}
		u.t.ends(first)
		u.t.j = b
		u.t.pre = 0
		length := toLin(b).add(toLin(a), -1)
		short := u.st.provesLE(length.add(lin{nil, 1}, int64(run-2))) // too short for a long run
		if !short && !(w.tight && (run == 0 || first != 'n')) {
			u.t.long = true // how long the runs in it are is not known
		}
		end := addK(b, -1)
		var ends []tracked
		for _, s := range w.kindAt(u.st, end) {
			t, st := u.t, s.st
			t.last = s.k
			if s.k == 'n' {
				t.run = 1
			}
			if s.k != 'n' || !w.newlines {
				ends = append(ends, tracked{st, t})
				continue
			}
			// what comes before it
			one := st.fork()
			if one.sameInt(b, addK(a, 1)) && w.sameKind(one, w.elem(m, a), w.elem(m, end)) {
				t := t
				t.run, t.pre = run+1, prev
				ends = append(ends, tracked{one, t})
			}
			if st.addLE(toLin(a).add(toLin(b), -1).add(lin{nil, 2}, 1)) {
				for _, s := range w.splitKind(st, w.elem(m, addK(b, -2))) {
					t := t
					t.pre = s.k
					if s.k == 'n' {
						t.run = 2
					}
					ends = append(ends, tracked{s.st, t})
				}
			}
		}
		for _, s := range ends {
			t, st := s.t, s.st
			if t.k != 0 {
				out = append(out, tracked{st, t})
				continue
			}
			// element k lies inside, at the end, or behind
			in, at := st.fork(), st.fork()
			if in.assumeLess(m.k, end) {
				for _, s := range w.splitKind(in, w.elem(m, addK(m.k, 1))) {
					t := t
					t.k = 3
					if s.k == 'n' {
						t.k = 2
					}
					out = append(out, tracked{s.st, t})
				}
			}
			if w.equate(at, m.k, end) {
				t := t
				t.k = 1
				out = append(out, tracked{at, t})
			}
			if st.assumeLess(end, m.k) {
				out = append(out, tracked{st, t})
			}
		}
	}
	return out
}

// giveAll adds the parts of a sequence, splitting the state where it must.
func (w *rewriter) giveAll(st *State, t track, parts []*Term) []tracked {
	cur := []tracked{{st, t}}
	for _, p := range parts {
		var next []tracked
		for _, c := range cur {
			if p.op == OSeg {
				next = append(next, w.giveSeg(c.st, c.t, p.args[0], p.args[1], p.args[2])...)
			} else {
				next = append(next, w.giveOne(c.st, c.t, p)...)
			}
		}
		cur = next
	}
	return cur
}

func (w *rewriter) onAppend(st *State, ci *callInfo, s, xs, ret *Term) []Outcome {
	if !isNodeSlice(ci.typ, w.m.iface) || len(xs.args) == 0 {
		return []Outcome{{st: st, ret: ret}}
	}
	m := st.mon.(*rewriteMon)
	arr, _, _ := sliceParts(ret)
	w.changed(st, arr)
	if arr.op != OObj {
		return []Outcome{{st: st, ret: ret}}
	}
	t := w.newTrack(nil)
	parts := st.content(ret).args
	for i := range m.tr {
		if m.tr[i].val == s {
			t = m.tr[i]
			m.tr = append(append([]track(nil), m.tr[:i]...), m.tr[i+1:]...)
			parts = xs.args
			break
		}
	}
	var outs []Outcome
	for _, p := range parts {
		if p.op == OSeg && p.args[0] != m.src {
			return []Outcome{{st: st, ret: ret}}
		}
	}
	if t.val == nil && !st.looping() {
		return []Outcome{{st: st, ret: ret}}
	}
	if len(parts) == 1 && parts[0].op != OSeg && !(parts[0].op == OIdx && parts[0].args[0] == m.src) && t.val == nil {
		// something put together to be added elsewhere
		return []Outcome{{st: st, ret: ret}}
	}
	for _, o := range w.giveAll(st, t, parts) {
		om := o.st.mon.(*rewriteMon)
		t := o.t
		n := newSym("len", types.Typ[types.Int])
		o.st.restrictInt(n, rng(1, posInf))
		o.st.heap[arr] = mkSeq(mkSeg(newSym("built", ci.typ), mkInt(0), n))
		t.val = mkSlice(arr, mkInt(0), n, ci.typ)
		om.tr = append(om.tr, t)
		outs = append(outs, Outcome{st: o.st, ret: t.val})
	}
	return outs
}

// looping says whether some function under way is inside a loop.
func (st *State) looping() bool {
	for _, f := range st.frames {
		if f.info.inLoop(f.block) {
			return true
		}
	}
	return false
}

// inLoop says whether b can be reached from itself.
func (in *fnInfo) inLoop(b *ssa.BasicBlock) bool {
	if v, ok := in.loops[b]; ok {
		return v
	}
	if in.loops == nil {
		in.loops = map[*ssa.BasicBlock]bool{}
	}
	seen := map[*ssa.BasicBlock]bool{}
	work := append([]*ssa.BasicBlock(nil), b.Succs...)
	for len(work) > 0 && !seen[b] {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if !seen[x] {
			seen[x] = true
			work = append(work, x.Succs...)
		}
	}
	in.loops[b] = seen[b]
	return seen[b]
}

// given notes the sequence that is given to the node, as it is then.
func (w *rewriter) given(st *State, v *Term) []*State {
	var out []*State
	st.mon.(*rewriteMon).done = nil
	for _, o := range w.result(st, v) {
		o.t.val = v
		o.st.mon.(*rewriteMon).done = []track{o.t}
		out = append(out, o.st)
	}
	return out
}

// changed notes that the elements of an array are changed.
func (w *rewriter) changed(st *State, arr *Term) {
	m := st.mon.(*rewriteMon)
	if len(m.done) > 0 {
		if a, _, _ := sliceParts(m.done[0].val); a == arr {
			m.done = nil
		}
	}
}

// result says how the slice value v stands to the source.
func (w *rewriter) result(st *State, v *Term) []tracked {
	m := st.mon.(*rewriteMon)
	for _, t := range append(append([]track(nil), m.tr...), m.done...) {
		if t.val == v {
			return []tracked{{st, t}}
		}
	}
	return w.giveAll(st, w.newTrack(v), st.content(v).args)
}

// verdict says what is wrong with a finished sequence, if anything.
func (w *rewriter) verdict(t track) string {
	switch {
	case t.bad != "":
		return t.bad
	case t.k == 0 || t.k == 4:
		return "may leave out forms of the sequence given"
	}
	return ""
}

// start gives the states in which a function is run: element k of the source
// is a comment, or another form.
func (w *rewriter) start(src *Term, fn *ssa.Function) []*State {
	var out []*State
	if w.newlines {
		for _, nl := range []bool{true, false} {
			k := newSym("!k", types.Typ[types.Int])
			m := &rewriteMon{src: src, k: k, isC: nl}
			m.at = []*Term{w.elem(m, k), w.elem(m, addK(k, 1))}
			st := w.e.newState(m)
			st.restrictInt(k, rng(0, posInf))
			switch {
			case w.reaching && !nl:
				st.addLE(toLin(mkLen(src)).add(toLin(k), -1))
			case w.reaching:
				st.assumeLess(k, mkLen(src))
			case w.tight:
				st.assumeLess(k, mkLen(src))
				st.assumeType(m.at[0], w.m.kinds["NewlineNode"].typ, nl)
			}
			out = append(out, st)
		}
		if !w.tight && !w.reaching {
			out = out[:1]
		}
		return out
	}
	for _, isC := range []bool{true, false} {
		k := newSym("!k", types.Typ[types.Int])
		m := &rewriteMon{src: src, k: k, isC: isC}
		m.at = []*Term{w.elem(m, k), w.elem(m, addK(k, 1))}
		st := w.e.newState(m)
		st.restrictInt(k, rng(0, posInf))
		st.assumeLess(k, mkLen(src))
		st.assumeType(m.at[0], w.m.kinds["NewlineNode"].typ, false)
		st.assumeType(m.at[0], w.m.kinds["CommentNode"].typ, isC)
		out = append(out, st)
	}
	return out
}

// sliceContract checks a function from a sequence to a sequence that the
// printer uses: only newlines are added and dropped, and a newline follows
// every comment, except for one that ends a sequence with no delimiter.
func (w *rewriter) sliceContract(fn *ssa.Function, comments bool, fail func(rule, construct, where, format string, a ...interface{})) {
	e := newEngine(w.p)
	w.e = e
	e.closedNonNil = true
	e.smallK = 1
	e.noExact = true
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	e.initGlobals()
	src := newSym("!src", types.NewSlice(w.m.iface))
	name := fn.Name()
	where := posString(w.p, fn.Pos())
	e.onArrive = w.arrive
	e.onAppend = w.onAppend
	e.onAssert = w.onAssert
	e.onStore = func(st *State, ins ssa.Instruction, addr, val *Term) {
		if root := rootOf(addr); root.op != OObj {
			fail("effect", name, posString(w.p, ins.Pos()), "%s changes the sequence it is given", name)
		}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		w.r.count("rewrite_exits", 1)
		if pv != nil {
			return nil
		}
		for _, o := range w.result(st, ret) {
			if w.finished != nil {
				w.finished(o.st, o.t)
			}
			if why := w.verdict(o.t); why != "" {
				if debugLevel == "f" {
					fmt.Printf("BAD %+v %s\n", o.t, o.st.dump())
				}
				fail("order", name, where, "the sequence %s makes %s", name, why)
				continue
			}
			m := o.st.mon.(*rewriteMon)
			if !comments || !m.isC || o.t.k == 2 {
				continue
			}
			if o.t.k == 1 && m.delim != nil && o.st.eval(m.delim) == no {
				continue
			}
			if debugLevel == "f" {
				fmt.Printf("BAD %+v %s\n", o.t, o.st.dump())
			}
			fail("comment", name, where, "%s may leave a comment without a newline after it", name)
		}
		return nil
	}
	for _, st := range w.start(src, fn) {
		m := st.mon.(*rewriteMon)
		var args []*Term
		for _, prm := range fn.Params {
			if isNodeSlice(prm.Type(), w.m.iface) {
				args = append(args, src)
				continue
			}
			x := newSym("!"+prm.Name(), prm.Type())
			if b, ok := basicOf(prm.Type()); ok && b.Info()&types.IsBoolean != 0 {
				m.delim = x
			}
			args = append(args, x)
		}
		e.pushCall(st, fn, args, nil, nil)
		e.Run(st)
	}
	w.r.engineStats(e)
}
