package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// This file makes the analysis terminate: states that reach the same program
// point are compared, states covered by an earlier one are dropped, and at
// loop heads states are generalised (widened).

type ctxTab struct {
	seen map[string]bool
	reps []*State
}

// A slotRef is one root of a state: a place that holds a term.
type slotRef struct {
	path string
	t    *Term
	set  func(*Term)
}

// slots lists the roots of st, the top frame being at its current instruction.
func (st *State) slots() []slotRef {
	var out []slotRef
	if st.mon != nil {
		rs := st.mon.Roots()
		for i, r := range rs {
			i := i
			if r == nil {
				continue
			}
			out = append(out, slotRef{fmt.Sprintf("m%d", i), r, func(t *Term) {
				cur := st.mon.Roots()
				cur[i] = t
				st.mon.SetRoots(cur)
			}})
		}
	}
	for fi, f := range st.frames {
		f := f
		idx := f.idx
		if fi < len(st.frames)-1 && f.unwinding == 0 {
			idx++ // after the call
		}
		var live []int
		if idx >= len(f.block.Instrs) {
			for v := range f.info.liveOut[f.block] {
				live = append(live, v)
			}
			sort.Ints(live)
		} else {
			live = f.info.liveAt(f.block, idx)
		}
		callRes := -1
		if fi < len(st.frames)-1 && f.unwinding == 0 {
			if v, ok := f.block.Instrs[f.idx].(ssa.Value); ok {
				callRes = f.info.index[v]
			}
		}
		isLive := map[int]bool{}
		for _, k := range live {
			isLive[k] = true
			if k == callRes || f.regs[k] == nil {
				continue
			}
			k := k
			out = append(out, slotRef{fmt.Sprintf("f%d.r%d", fi, k), f.regs[k], func(t *Term) { f.regs[k] = t }})
		}
		for k := range f.regs {
			if !isLive[k] {
				if f.regs[k] != nil && f.info.vars[f.info.values[k]] {
					f.regs[k] = newObj(f.regs[k].name, f.regs[k].typ, f.regs[k].site)
					continue
				}
				f.regs[k] = nil
			}
		}
		for di := range f.defers {
			d := &f.defers[di]
			for ai := range d.ci.args {
				ci, ai := d.ci, ai
				out = append(out, slotRef{fmt.Sprintf("f%d.d%d.%d", fi, di, ai), ci.args[ai], func(t *Term) {
					ci.args = append([]*Term(nil), ci.args...)
					ci.args[ai] = t
				}})
			}
			if d.ci.clo != nil {
				ci := d.ci
				out = append(out, slotRef{fmt.Sprintf("f%d.d%d.c", fi, di), ci.clo, func(t *Term) { ci.clo = t }})
			}
		}
	}
	for i := range st.panics {
		i := i
		out = append(out, slotRef{fmt.Sprintf("p%d", i), st.panics[i], func(t *Term) { st.panics[i] = t }})
	}
	return out
}

// ctxKey identifies the control state.
func (st *State) ctxKey() string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "%p.%d.%d/%v%d%v%s;", f.fn, f.block.Index, f.idx, f.isDefer, f.unwinding, f.recovered, f.tag)
		for _, d := range f.defers {
			fmt.Fprintf(&b, "d%p", d.call)
		}
	}
	fmt.Fprintf(&b, "|%d", len(st.panics))
	if st.mon != nil {
		b.WriteString("|")
		b.WriteString(st.mon.Key())
	}
	if st.eng.unrollMaps {
		var its []string
		for a, v := range st.heap {
			if a.op == OObj && a.name == "iter" && v.op == OMap {
				its = append(its, fmt.Sprint(v.id))
			}
		}
		sort.Strings(its)
		b.WriteString("|" + strings.Join(its, ","))
	}
	return b.String()
}

func atomsOf(t *Term, f func(*Term)) {
	if t == nil || !t.syms {
		return
	}
	if t.op == OSym || t.op == OObj {
		f(t)
		return
	}
	for _, a := range t.args {
		atomsOf(a, f)
	}
}

type canon struct {
	st    *State
	num   map[*Term]int
	order []*Term
	memo  map[*Term]string
}

func (c *canon) skeleton(t *Term) string {
	if t == nil {
		return "-"
	}
	if t.op == OSym || t.op == OObj {
		if t.rigid() {
			return fmt.Sprintf("!%d", t.id)
		}
		if n, ok := c.num[t]; ok {
			return fmt.Sprintf("%c%d", "so"[b2i(t.op == OObj)], n)
		}
		return "?" + t.name
	}
	if !t.syms {
		return fmt.Sprintf("#%d", t.id)
	}
	var as []string
	for i, a := range t.args {
		s := c.skeleton(a)
		if t.op == OLin {
			s = fmt.Sprintf("%d*%s", t.coefs[i], s)
		}
		as = append(as, s)
	}
	return fmt.Sprintf("%d:%s:%d:%d(%s)", t.op, t.name, t.n, t.k, strings.Join(as, ","))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// str renders t with canonical numbers for its symbols, numbering new ones.
func (c *canon) str(t *Term) string {
	if t == nil {
		return "-"
	}
	if !t.syms {
		return fmt.Sprintf("#%d", t.id)
	}
	if t.rigid() {
		return fmt.Sprintf("!%d", t.id)
	}
	if t.op == OSym || t.op == OObj {
		n, ok := c.num[t]
		if !ok {
			n = len(c.order)
			c.num[t] = n
			c.order = append(c.order, t)
		}
		return fmt.Sprintf("%c%d", "so"[b2i(t.op == OObj)], n)
	}
	if s, ok := c.memo[t]; ok {
		return s
	}
	args := t.args
	coefs := t.coefs
	if (t.op == OLin || (t.op == OBin && t.name == "==")) && len(args) > 1 {
		idx := make([]int, len(args))
		for i := range idx {
			idx[i] = i
		}
		sk := make([]string, len(args))
		for i := range args {
			sk[i] = c.skeleton(args[i])
		}
		sort.SliceStable(idx, func(a, b int) bool { return sk[idx[a]] < sk[idx[b]] })
		var as []*Term
		var cs []int64
		for _, i := range idx {
			as = append(as, args[i])
			if t.op == OLin {
				cs = append(cs, coefs[i])
			}
		}
		args, coefs = as, cs
	}
	var parts []string
	for i, a := range args {
		s := c.str(a)
		if t.op == OLin {
			s = fmt.Sprintf("%d*%s", coefs[i], s)
		}
		parts = append(parts, s)
	}
	id := ""
	switch t.op {
	case OClosure, OFunc:
		id = fmt.Sprintf("%p", t.fn)
	case OIface:
		id = fmt.Sprint(typeID(t.typ2))
	case OConv:
		id = fmt.Sprint(typeID(t.typ))
	}
	s := fmt.Sprintf("%d:%s:%d:%d%s(%s)", t.op, t.name, t.n, t.k, id, strings.Join(parts, ","))
	c.memo[t] = s
	return s
}

func (c *canon) known(t *Term) bool {
	ok := true
	atomsOf(t, func(a *Term) {
		if _, in := c.num[a]; !in && !a.rigid() {
			ok = false
		}
	})
	return ok
}

// key renders the whole state and drops what cannot be reached from its roots.
func (st *State) key(slots []slotRef) string {
	c := &canon{st: st, num: map[*Term]int{}, memo: map[*Term]string{}}
	var b strings.Builder
	for _, s := range slots {
		b.WriteString(s.path)
		b.WriteString("=")
		b.WriteString(c.str(s.t))
		b.WriteString(";")
	}
	done := map[*Term]bool{}
	for {
		type ent struct {
			s string
			a *Term
		}
		var es []ent
		for a := range st.heap {
			if done[a] || !c.known(a) {
				continue
			}
			es = append(es, ent{c.skeleton(a), a})
		}
		if len(es) == 0 {
			break
		}
		sort.Slice(es, func(i, j int) bool { return es[i].s < es[j].s })
		for _, e := range es {
			done[e.a] = true
			v := st.heap[e.a]
			if e.a.op == OGlobal && st.eng.globals[e.a] == v {
				continue
			}
			if !v.syms && !e.a.syms && st.eng.globals[e.a] == v {
				continue
			}
			if g, ok := st.eng.globals[e.a]; ok && g == v {
				continue
			}
			fmt.Fprintf(&b, "[%s]=%s;", c.str(e.a), c.str(v))
		}
	}
	for a := range st.heap {
		if !done[a] {
			delete(st.heap, a)
		}
	}
	var fs []string
	f := st.facts
	for t, v := range f.ints {
		if !c.known(t) {
			delete(f.ints, t)
			continue
		}
		fs = append(fs, "i"+c.str(t)+v.String())
	}
	for t, v := range f.types {
		if !c.known(t) {
			delete(f.types, t)
			continue
		}
		fs = append(fs, "t"+c.str(t)+v.key())
	}
	for t, v := range f.bools {
		if !c.known(t) {
			delete(f.bools, t)
			continue
		}
		fs = append(fs, fmt.Sprintf("b%s%v", c.str(t), v))
	}
	for t, v := range f.strEq {
		if !c.known(t) {
			delete(f.strEq, t)
			continue
		}
		fs = append(fs, "e"+c.str(t)+v)
	}
	for t, v := range f.strNe {
		if !c.known(t) {
			delete(f.strNe, t)
			continue
		}
		fs = append(fs, "n"+c.str(t)+strings.Join(v, "\x00"))
	}
	for t, v := range f.defs {
		if !c.known(t) || !c.known(v) {
			delete(f.defs, t)
			continue
		}
		fs = append(fs, "d"+c.str(t)+"="+c.str(v))
	}
	keep := func(in []*Term, tag string) []*Term {
		var out []*Term
		seen := map[*Term]bool{}
		for _, t := range in {
			if seen[t] || !c.known(t) {
				continue
			}
			seen[t] = true
			out = append(out, t)
			fs = append(fs, tag+c.str(t))
		}
		return out
	}
	f.rel = keep(f.rel, "r")
	f.ne = keep(f.ne, "x")
	sort.Strings(fs)
	for _, s := range fs {
		b.WriteString(s)
		b.WriteString(";")
	}
	var cl []string
	for k := range st.clobbered {
		cl = append(cl, k)
	}
	sort.Strings(cl)
	b.WriteString(strings.Join(cl, ","))
	return b.String()
}

// arrive is called when st reaches a join or loop head. It reports whether to
// go on from there.
func (e *Engine) arrive(st *State, header bool) bool {
	e.arrivals++
	if debugLevel == "a" && e.arrivals%500 == 0 {
		fmt.Printf("ARR %d %s\n", e.arrivals, st.dump())
	}
	ctx := st.ctxKey()
	tab := e.tab[ctx]
	if tab == nil {
		tab = &ctxTab{seen: map[string]bool{}}
		e.tab[ctx] = tab
	}
	slots := st.slots()
	st.compactSlices(slots)
	k := st.key(slots)
	if tab.seen[k] {
		e.dups++
		return false
	}
	tab.seen[k] = true
	if !header {
		return true
	}
	var exact map[string]bool
	if !e.noExact {
		exact = st.exactSlots()
	}
	for _, r := range tab.reps {
		if covers(r, st, slots) {
			e.dups++
			return false
		}
	}
	compatible := 0
	for i := len(tab.reps) - 1; i >= 0; i-- {
		if _, ok := generalise(tab.reps[i], st, slots, exact, true); ok {
			compatible++
			if compatible >= e.smallK {
				break
			}
		}
	}
	for i := len(tab.reps) - 1; i >= 0 && compatible >= e.smallK; i-- {
		g, ok := generalise(tab.reps[i], st, slots, exact, false)
		if !ok {
			continue
		}
		e.widened++
		if debugLevel == "w" {
			fmt.Printf("WIDEN %s\n--A\n%s--B\n%s", ctx, tab.reps[i].dump(), st.dump())
		}
		g.apply(st, slots)
		if debugLevel == "w" {
			fmt.Printf("--RESULT\n%s", st.dump())
		}
		slots = st.slots()
		k := st.key(slots)
		if tab.seen[k] {
			e.dups++
			return false
		}
		tab.seen[k] = true
		for _, r := range tab.reps {
			if covers(r, st, slots) {
				e.dups++
				return false
			}
		}
		break
	}
	if len(tab.reps) > 600 {
		e.cantDecide(st.top().block.Instrs[0].Pos(), "loop in %s does not stabilise", st.top().fn)
		return false
	}
	tab.reps = append(tab.reps, st.fork())
	if debugLevel == "p" {
		mk := ""
		if st.mon != nil {
			mk = st.mon.Key()
		}
		fmt.Printf("REP %d %s b%d mon=%s tabs=%d arrivals=%d steps=%d\n", len(tab.reps), st.top().fn.Name(), st.top().block.Index, mk, len(e.tab), e.arrivals, e.steps)
		if f := os.Getenv("VERIF_REPS"); f != "" && strings.Contains(st.top().fn.Name()+" "+mk, f) {
			fmt.Print(st.dump())
		}
	}
	return true
}

// ---- covering: is state b an instance of the more general state a? ----

type matcher struct {
	a, b *State
	s    *subst
	objs map[*Term]*Term // objects of a to objects of b
	inv  map[*Term]*Term
	todo [][2]*Term // pairs whose equality must be checked at the end
	heap []([2]*Term)
}

func covers(a, b *State, bslots []slotRef) bool {
	as := a.slots()
	if len(as) != len(bslots) {
		return false
	}
	for k := range b.clobbered {
		if !a.clobbered[k] {
			return false
		}
	}
	m := &matcher{a: a, b: b, s: newSubst(), objs: map[*Term]*Term{}, inv: map[*Term]*Term{}}
	for i := range as {
		if as[i].path != bslots[i].path || !m.match(as[i].t, bslots[i].t) {
			return false
		}
	}
	// Heap of objects and globals, in lockstep.
	for i := 0; i < len(m.heap); i++ {
		oa, ob := m.heap[i][0], m.heap[i][1]
		for addr := range a.heap {
			if rootOf(mapRoot(addr)) == oa {
				ab := reroot(addr, oa, ob)
				if !m.match(a.heap[addr], b.loadRaw(ab)) {
					return false
				}
			}
		}
		for addr := range b.heap {
			if rootOf(mapRoot(addr)) == ob {
				aa := reroot(addr, ob, oa)
				if _, ok := a.heap[aa]; !ok {
					if !m.match(a.loadRaw(aa), b.heap[addr]) {
						return false
					}
				}
			}
		}
	}
	// Other locations: apply the substitution to the address.
	seen := map[*Term]bool{}
	for addr, v := range a.heap {
		if rootOf(mapRoot(addr)).op == OObj {
			continue
		}
		sa := m.s.apply(addr)
		seen[sa] = true
		bv, ok := b.heap[sa]
		if !ok {
			bv = b.loadRaw(sa)
		}
		if !m.match(v, bv) {
			return false
		}
	}
	for addr := range b.heap {
		if rootOf(mapRoot(addr)).op != OObj && !seen[addr] {
			if g, ok := b.eng.globals[addr]; ok && g == b.heap[addr] {
				continue
			}
			return false
		}
	}
	for x, y := range m.objs {
		m.s.m[x] = y
	}
	m.s.memo = map[*Term]*Term{}
	for _, p := range m.todo {
		if m.s.apply(p[0]) != p[1] {
			return false
		}
	}
	return m.factsHold()
}

// mapRoot sees through the location of a map's or slice's contents.
func mapRoot(a *Term) *Term {
	if a.op == OArr && a.args[0].op == OObj {
		return a.args[0]
	}
	return a
}

// loadRaw reads a location without recording anything.
func (st *State) loadRaw(addr *Term) *Term {
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if addr.op == OObj || addr.op == OArr {
		if t := pointee(addr.typ); t != nil {
			if _, ok := t.Underlying().(*types.Slice); ok || addr.op == OArr {
				return st.arrayContent(addr)
			}
			if _, ok := t.Underlying().(*types.Array); ok {
				return st.arrayContent(addr)
			}
		}
		if addr.op == OArr {
			return st.arrayContent(addr)
		}
		if addr.typ != nil {
			if _, ok := addr.typ.Underlying().(*types.Map); ok {
				return st.mapContent(addr)
			}
		}
	}
	return st.load(addr, nil)
}

func reroot(addr, from, to *Term) *Term {
	if addr == from {
		return to
	}
	s := newSubst()
	s.m[from] = to
	return s.apply(addr)
}

func (m *matcher) match(a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	if !a.syms {
		return a == b
	}
	if a.op == OExt && a.name == "runes2str" && b.op == OConst && isStringTerm(b) {
		return m.match(a.args[0], constRunes(b))
	}
	if sameArray(a, b) {
		_, lo, hi := sliceParts(a)
		_, lo2, hi2 := sliceParts(b)
		return m.match(lo, lo2) && m.match(hi, hi2)
	}
	switch a.op {
	case OSym:
		if r, ok := m.s.m[a]; ok {
			return r == b
		}
		if a.rigid() {
			if a != b {
				return false
			}
		}
		if b.op == OObj || (b.syms && hasObj(b) && !isIntType(a.typ)) {
			return false
		}
		m.s.m[a] = b
		m.s.memo = map[*Term]*Term{}
		return true
	case OObj:
		if (a.rigid() || b.rigid()) && a != b {
			return false
		}
		if r, ok := m.objs[a]; ok {
			return r == b
		}
		if b.op != OObj || m.inv[b] != nil {
			return false
		}
		m.objs[a], m.inv[b] = b, a
		m.heap = append(m.heap, [2]*Term{a, b})
		return true
	case OLin:
		var un *Term
		n := 0
		for i, x := range a.args {
			if x.op == OSym {
				if _, ok := m.s.m[x]; !ok {
					n++
					if a.coefs[i] == 1 && !x.rigid() {
						un = x
					}
				}
			}
		}
		if n == 1 && un != nil && len(a.args) == 1 {
			m.s.m[un] = addK(b, -a.k)
			m.s.memo = map[*Term]*Term{}
			return true
		}
		m.todo = append(m.todo, [2]*Term{a, b})
		return true
	case OSeq:
		return m.matchSeq(a, b)
	}
	if sameArray(a, b) {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) || a.n != b.n || a.name != b.name || a.fn != b.fn {
		return false
	}
	if a.op == OIface && typeID(a.typ2) != typeID(b.typ2) || a.op == OConv && typeID(a.typ) != typeID(b.typ) {
		return false
	}
	if a.op == OBin && a.name == "==" || a.op == OLen {
		m.todo = append(m.todo, [2]*Term{a, b})
		if a.op == OLen {
			// len(S) may bind later through the contents of S
			return true
		}
		return true
	}
	for i := range a.args {
		if !m.match(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

func hasObj(t *Term) bool {
	found := false
	atomsOf(t, func(a *Term) { found = found || a.op == OObj })
	return found
}

// fullSeg reports whether p is all of symbolic sequence s.
func fullSeg(p *Term) (s *Term, ok bool) {
	if p.op != OSeg || p.args[0].op != OSym {
		return nil, false
	}
	if z, isz := p.args[1].intVal(); !isz || z != 0 {
		return nil, false
	}
	if p.args[2] != mkLen(p.args[0]) {
		return nil, false
	}
	return p.args[0], true
}

func (m *matcher) matchSeq(a, b *Term) bool {
	if b.op != OSeq {
		return false
	}
	x, y := a.args, b.args
	for len(x) > 0 && len(y) > 0 {
		p, q := x[len(x)-1], y[len(y)-1]
		if p.op == OSeg || q.op == OSeg {
			break
		}
		if !m.match(p, q) {
			return false
		}
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	for len(x) > 0 && len(y) > 0 {
		p, q := x[0], y[0]
		if p.op == OSeg || q.op == OSeg {
			break
		}
		if !m.match(p, q) {
			return false
		}
		x, y = x[1:], y[1:]
	}
	if len(x) == 1 {
		if s, ok := fullSeg(x[0]); ok && strings.HasPrefix(s.name, "gen") {
			mid := mkSeq(y...)
			if r, ok := m.s.m[s]; ok {
				return r == mid
			}
			m.s.m[s] = mid
			m.s.memo = map[*Term]*Term{}
			return true
		}
	}
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i].op != y[i].op {
			return false
		}
		if x[i].op == OSeg {
			if !m.match(x[i].args[0], y[i].args[0]) {
				return false
			}
			m.todo = append(m.todo, [2]*Term{x[i], y[i]})
			continue
		}
		if !m.match(x[i], y[i]) {
			return false
		}
	}
	return true
}

// factsHold checks that b satisfies a's facts.
func (m *matcher) factsHold() bool {
	f := m.a.facts
	b := m.b
	for t, v := range f.ints {
		if !b.intSet(m.s.apply(t)).subsetOf(v) {
			return false
		}
	}
	for t, v := range f.types {
		if !b.typeWithin(m.s.apply(t), v) {
			return false
		}
	}
	for t, v := range f.bools {
		if b.eval(m.s.apply(t)) != triOf(v) {
			return false
		}
	}
	for t, v := range f.strEq {
		if s, ok := b.knownStr(m.s.apply(t)); !ok || s != v {
			return false
		}
	}
	for t, v := range f.strNe {
		x := m.s.apply(t)
		for _, s := range v {
			if b.evalStrEq(x, mkStr(s)) != no {
				return false
			}
		}
	}
	for t, v := range f.defs {
		x := m.s.apply(t)
		if x.op == OSeq && b.eng.normSeq != nil {
			n, ok := b.eng.normSeq(b, x)
			if !ok || n != m.s.apply(v) {
				return false
			}
			continue
		}
		if b.facts.defs[x] != m.s.apply(v) {
			return false
		}
	}
	for _, t := range f.rel {
		if !b.provesLE(toLin(m.s.apply(t))) {
			return false
		}
	}
	for _, t := range f.ne {
		if b.evalEq(m.s.apply(t), mkInt(0)) != no {
			return false
		}
	}
	return true
}

// typeWithin reports whether x's type is known to be within fact v.
func (st *State) typeWithin(x *Term, v TypeFact) bool {
	if x.op == OIface {
		if v.u != nil {
			i := v.u.index(x.typ2)
			return i >= 0 && v.allowed&(1<<i) != 0
		}
		if v.is != nil {
			return typeKey(v.is) == typeKey(x.typ2)
		}
		for _, k := range v.isNot {
			if k == typeKey(x.typ2) {
				return false
			}
		}
		return true
	}
	if x.op == OSeq {
		for _, p := range x.args {
			if p.op == OSeg {
				fv, ok := st.facts.types[p.args[0]]
				if !ok || v.u == nil || fv.u == nil || fv.allowed&^v.allowed != 0 {
					return false
				}
				continue
			}
			if !st.typeWithin(p, v) {
				return false
			}
		}
		return true
	}
	f, ok := st.typeFact(x)
	if v.u != nil {
		return ok && f.u != nil && f.allowed&^v.allowed == 0
	}
	if v.is != nil {
		return ok && f.is != nil && typeKey(f.is) == typeKey(v.is)
	}
	for _, k := range v.isNot {
		found := ok && f.is != nil && typeKey(f.is) != k
		for _, k2 := range f.isNot {
			found = found || k == k2
		}
		if !found {
			return false
		}
	}
	return true
}

// typeFact is what is known of x's type, from itself or from the sequence it
// is an element of.
func (st *State) typeFact(x *Term) (TypeFact, bool) {
	f, ok := st.facts.types[x]
	if ok {
		return f, true
	}
	if x.op == OIdx {
		f, ok = st.facts.types[x.args[0]]
		return f, ok
	}
	return f, false
}

// ---- generalisation ----

type genVar struct{ g, a, b *Term }

type gen struct {
	a, b  *State
	memo  map[[2]*Term]*Term
	vars  []genVar
	oa    map[*Term]*Term // object of a -> result object
	ob    map[*Term]*Term
	pairs [][3]*Term // result object, a's, b's
	sa    *subst     // result -> a
	sb    *subst
	nslot []*Term
	bs    []slotRef
	heap  map[*Term]*Term
	facts *Facts
	clob  map[string]bool
	drop  []*Term
	seqs  []genVar
}

func generalise(a, b *State, bslots []slotRef, exact map[string]bool, dry bool) (*gen, bool) {
	as := a.slots()
	if len(as) != len(bslots) {
		if debugLevel == "w" {
			fmt.Printf("NOGEN slots %d %d\n", len(as), len(bslots))
		}
		return nil, false
	}
	g := &gen{a: a, b: b, memo: map[[2]*Term]*Term{}, oa: map[*Term]*Term{}, ob: map[*Term]*Term{},
		bs: bslots, heap: map[*Term]*Term{}, clob: map[string]bool{}}
	for i := range as {
		if as[i].path != bslots[i].path {
			return nil, false
		}
		if exact[as[i].path] && as[i].t != bslots[i].t {
			return nil, false
		}
		t := g.lgg(as[i].t, bslots[i].t)
		if t == nil {
			if debugLevel == "w" {
				fmt.Printf("NOGEN slot %s: %s | %s\n", as[i].path, as[i].t, bslots[i].t)
			}
			return nil, false
		}
		g.nslot = append(g.nslot, t)
	}
	for i := 0; i < len(g.pairs); i++ {
		o, x, y := g.pairs[i][0], g.pairs[i][1], g.pairs[i][2]
		addrs := map[*Term]bool{}
		for addr := range a.heap {
			if rootOf(mapRoot(addr)) == x {
				addrs[addr] = true
			}
		}
		for addr := range b.heap {
			if rootOf(mapRoot(addr)) == y {
				addrs[reroot(addr, y, x)] = true
			}
		}
		var list []*Term
		for ad := range addrs {
			list = append(list, ad)
		}
		sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
		for _, ad := range list {
			v := g.lgg(a.loadRaw(ad), b.loadRaw(reroot(ad, x, y)))
			if v == nil {
				if debugLevel == "w" {
					fmt.Printf("NOGEN heap %s: %s | %s\n", ad, a.loadRaw(ad), b.loadRaw(reroot(ad, x, y)))
				}
				return nil, false
			}
			g.heap[reroot(ad, x, o)] = v
		}
	}
	if dry {
		return g, true
	}
	for k := range a.clobbered {
		g.clob[k] = true
	}
	for k := range b.clobbered {
		g.clob[k] = true
	}
	// Locations that do not belong to objects.
	usedB := map[*Term]bool{}
	for addr, v := range a.heap {
		r := rootOf(mapRoot(addr))
		if r.op == OObj {
			continue
		}
		if r.op == OGlobal {
			usedB[addr] = true
			n := g.lgg(v, b.loadRaw(addr))
			if n == nil {
				return nil, false
			}
			g.heap[addr] = n
			continue
		}
		matched := false
		for key, gt := range g.memo {
			if key[0] == r && gt != nil {
				ab := reroot(addr, r, key[1])
				usedB[ab] = true
				n := g.lgg(v, b.loadRaw(ab))
				if n == nil {
					return nil, false
				}
				g.heap[reroot(addr, r, gt)] = n
				matched = true
			}
		}
		if bv, ok := b.heap[addr]; ok && !matched && noVar(g, addr) {
			usedB[addr] = true
			n := g.lgg(v, bv)
			if n == nil {
				return nil, false
			}
			g.heap[addr] = n
			matched = true
		}
		if !matched {
			g.clob[clobKey(addr)] = true
		}
	}
	for addr, v := range b.heap {
		r := rootOf(mapRoot(addr))
		if r.op == OObj || usedB[addr] {
			continue
		}
		if r.op == OGlobal {
			n := g.lgg(a.loadRaw(addr), v)
			if n == nil {
				return nil, false
			}
			g.heap[addr] = n
			continue
		}
		g.clob[clobKey(addr)] = true
	}
	for i := 0; i < len(g.pairs); i++ { // objects reached only now
		o, x, y := g.pairs[i][0], g.pairs[i][1], g.pairs[i][2]
		for addr := range a.heap {
			if rootOf(mapRoot(addr)) == x {
				na := reroot(addr, x, o)
				if _, ok := g.heap[na]; ok {
					continue
				}
				v := g.lgg(a.heap[addr], b.loadRaw(reroot(addr, x, y)))
				if v == nil {
					return nil, false
				}
				g.heap[na] = v
			}
		}
	}
	g.joinFacts()
	return g, true
}

func noVar(g *gen, t *Term) bool { return t.syms }

func clobKey(addr *Term) string {
	if addr.op == OField {
		return typeKey(addr.args[0].typ) + "." + fmt.Sprint(addr.n)
	}
	if addr.op == OArr {
		return "contents " + typeKey(addr.args[0].typ)
	}
	return "any"
}

func (g *gen) newVar(name string, a, b *Term) *Term {
	typ := a.typ
	if typ == nil || a.op == ONil {
		typ = b.typ
	}
	v := newSym(name, typ)
	g.vars = append(g.vars, genVar{v, a, b})
	return v
}

func isEnum(t types.Type) bool {
	if t == nil {
		return false
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return isIntType(t)
}

func (g *gen) lgg(a, b *Term) *Term {
	if a == nil || b == nil {
		if a == b {
			return a
		}
		return nil
	}
	if a == b && !a.syms {
		return a
	}
	key := [2]*Term{a, b}
	if r, ok := g.memo[key]; ok {
		return r
	}
	r := g.lgg1(a, b)
	g.memo[key] = r
	return r
}

func (g *gen) intVar(a, b *Term) *Term {
	for _, v := range g.vars {
		if !isIntType(v.a.typ) && !isIntType(v.b.typ) {
			continue
		}
		ka, ok1 := diffConst(a, v.a)
		kb, ok2 := diffConst(b, v.b)
		if ok1 && ok2 && ka == kb {
			return addK(v.g, ka)
		}
	}
	for _, v := range g.seqs {
		ka, ok1 := diffConst(a, seqLen(v.a))
		kb, ok2 := diffConst(b, seqLen(v.b))
		if ok1 && ok2 && ka == kb {
			return addK(mkLen(v.g), ka)
		}
	}
	// A difference to another variable that is itself a variable.
	for _, v := range g.vars {
		if !isIntType(v.a.typ) && !isIntType(v.b.typ) {
			continue
		}
		for _, sign := range []int64{1, -1} {
			da, db := toLin(a).add(toLin(v.a), -1), toLin(b).add(toLin(v.b), -1)
			da, db = lin{nil, 0}.add(da, sign), lin{nil, 0}.add(db, sign)
			ta, tb := da.term(tInt), db.term(tInt)
			if len(ta.args) > 1 && len(tb.args) > 1 {
				continue
			}
			for _, w := range g.vars {
				if w.g == v.g {
					continue
				}
				ka, ok1 := diffConst(ta, w.a)
				kb, ok2 := diffConst(tb, w.b)
				if ok1 && ok2 && ka == kb {
					return toLin(v.g).add(toLin(w.g), sign).add(lin{nil, ka * sign}, 1).term(tInt)
				}
			}
		}
	}
	typ := a.typ
	if a.isConst() {
		typ = b.typ
	}
	v := newSym("g", typ)
	g.vars = append(g.vars, genVar{v, a, b})
	return v
}

// compat reports whether a and b have the same structure up to integers,
// symbols and sequences.
func compat(a, b *Term) bool {
	if a == b {
		return true
	}
	ia, ib := isIntType(a.typ), isIntType(b.typ)
	if ia && ib && (a.op != b.op || a.op == OLin || a.op == OSym || a.op == OConst) {
		if a.isConst() && b.isConst() && isEnum(a.typ) && isEnum(b.typ) {
			return false
		}
		return true
	}
	if a.op == OSym && b.op == OSym {
		return !a.rigid() && !b.rigid()
	}
	if a.op == OObj && b.op == OObj {
		if a.rigid() || b.rigid() {
			return a == b
		}
		return typeKey(a.typ) == typeKey(b.typ)
	}
	if isStringTerm(a) && isStringTerm(b) {
		return true
	}
	if a.op == OSeq && b.op == OSeq {
		return true
	}
	if a.op == OMap && b.op == OMap {
		return true
	}
	if a.op != b.op || len(a.args) != len(b.args) || a.n != b.n || a.name != b.name || a.fn != b.fn || a.g != b.g {
		return false
	}
	if a.op == OConst {
		return constant.Compare(a.c, 39, b.c) && a == b
	}
	if a.op == OIface && typeID(a.typ2) != typeID(b.typ2) || a.op == OConv && typeID(a.typ) != typeID(b.typ) {
		return false
	}
	if a.op == OSlice && !sameSmallLen(a, b) {
		return false
	}
	for i := range a.args {
		if !compat(a.args[i], b.args[i]) {
			return false
		}
	}
	return true
}

// sameArray says whether one of a and b is a slice of the other's elements.
func sameArray(a, b *Term) bool {
	if a.op != OSlice {
		a, b = b, a
	}
	return a.op == OSlice && b.op != OSlice && a.args[0].op == OArr && a.args[0].args[0] == b
}

func (g *gen) lgg1(a, b *Term) *Term {
	if sameArray(a, b) {
		arr, lo, hi := sliceParts(a)
		_, lo2, hi2 := sliceParts(b)
		return mkSlice(arr, g.lgg(lo, lo2), g.lgg(hi, hi2), a.typ)
	}
	if a == b && (a.op == OSym) {
		return a
	}
	if a.op == OObj && a.rigid() || b.op == OObj && b.rigid() {
		if a != b {
			return nil
		}
		if g.oa[a] == nil {
			g.oa[a], g.ob[b] = a, a
			g.pairs = append(g.pairs, [3]*Term{a, a, a})
		}
		return a
	}
	if a.op == OObj || b.op == OObj {
		if a.op != OObj || b.op != OObj || typeKey(a.typ) != typeKey(b.typ) || g.oa[a] != nil || g.ob[b] != nil {
			return nil
		}
		o := a
		if a != b {
			o = newObj(a.name, a.typ, a.site)
		}
		g.oa[a], g.ob[b] = o, o
		g.pairs = append(g.pairs, [3]*Term{o, a, b})
		return o
	}
	if a.op == OSlice && b.op == OSlice && a.args[0].op == OObj && b.args[0].op == OObj && sameSmallLen(a, b) {
		ca, cb := g.a.heap[a.args[0]], g.b.heap[b.args[0]]
		if ca != nil && cb != nil && ca.op == OSeq && cb.op == OSeq && a.args[1] == mkInt(0) && b.args[1] == mkInt(0) &&
			a.args[2] == seqLen(ca) && b.args[2] == seqLen(cb) {
			// Slices of all of an array: the result's is one too.
			o := g.lgg(a.args[0], b.args[0])
			if o == nil {
				return nil
			}
			c := g.lgg(ca, cb)
			if c == nil {
				return nil
			}
			return mkSlice(o, mkInt(0), seqLen(c), a.typ)
		}
	}
	if isIntType(a.typ) || isIntType(b.typ) {
		if a.isConst() && b.isConst() && isEnum(a.typ) && isEnum(b.typ) {
			return nil
		}
		if a.op == b.op && a.op != OLin && a.op != OSym && a.op != OConst && compat(a, b) {
			if r := g.rec(a, b); r != nil {
				return r
			}
		}
		if a.op == OLin && b.op == OLin && len(a.args) == len(b.args) && a.k == b.k {
			// Same shape with equal coefficients: go inside.
			same := true
			for i := range a.args {
				if a.coefs[i] != b.coefs[i] || (a.args[i] != b.args[i] && !(a.args[i].op == b.args[i].op && a.args[i].op != OSym)) {
					same = false
				}
			}
			if same {
				l := lin{nil, a.k}
				ok := true
				for i := range a.args {
					x := g.lgg(a.args[i], b.args[i])
					if x == nil {
						ok = false
						break
					}
					l = l.add(toLin(x), a.coefs[i])
				}
				if ok {
					return l.term(a.typ)
				}
			}
		}
		return g.intVar(a, b)
	}
	if a.op == OSeq && b.op == OSeq {
		return g.lggSeq(a, b)
	}
	if a.op == OMap && b.op == OMap {
		if a == b || a.name == b.name && len(a.args) == len(b.args) && (len(a.args) < 2 || a.name == "merge" || a.args[1] == b.args[1]) {
			var args []*Term
			for i := range a.args {
				x := g.lgg(a.args[i], b.args[i])
				if x == nil || x.op == OSym && i == 0 && x != a.args[i] {
					break
				}
				args = append(args, x)
			}
			if len(args) == len(a.args) {
				return mk(OMap, nil, a.name, 0, args...)
			}
		}
		m := newSym("gmap", nil)
		return mk(OMap, nil, "init", 0, m)
	}
	if isStringTerm(a) && isStringTerm(b) {
		e0 := g.a.eng
		if x, y := constRunes(a), constRunes(b); x != nil && y != nil && (a.op != OConst || b.op != OConst || e0.strRunes && len(x.args) == len(y.args)) {
			if r := g.lgg(x, y); r != nil {
				return runesStr(r, tString)
			}
		}
		if a.op == b.op && a.op != OConst && a.op != OSym && compat(a, b) {
			if r := g.rec(a, b); r != nil {
				return r
			}
		}
		return g.newVar("gs", a, b)
	}
	if a.op == OConst || b.op == OConst {
		return nil
	}
	if a.op == OSym && b.op == OSym {
		if a.rigid() || b.rigid() {
			return nil
		}
		return g.newVar(genName(a), a, b)
	}
	if compat(a, b) {
		if r := g.rec(a, b); r != nil {
			return r
		}
	}
	if a.typ != nil && b.typ != nil && typeKey(a.typ) == typeKey(b.typ) && !hasObj(a) && !hasObj(b) &&
		a.op != ONil && b.op != ONil && a.op != OIface && b.op != OIface && a.op != OFunc && a.op != OClosure && a.op != OStruct {
		return g.newVar("gv", a, b)
	}
	return nil
}

// sliceLenExact is the length up to which slices of different known lengths
// are kept apart.
var sliceLenExact int64

func sameSmallLen(a, b *Term) bool {
	x, ok1 := diffConst(a.args[2], a.args[1])
	y, ok2 := diffConst(b.args[2], b.args[1])
	if ok1 && x <= sliceLenExact || ok2 && y <= sliceLenExact {
		return ok1 && ok2 && x == y
	}
	return true
}

// exactSlots lists the loop variables of the header st is at that are known
// constants deciding the loop's condition: such loops are unrolled.
func (st *State) exactSlots() map[string]bool {
	f := st.top()
	n := len(f.block.Instrs)
	br, ok := f.block.Instrs[n-1].(*ssa.If)
	if !ok || f.unwinding != 0 {
		return nil
	}
	var out map[string]bool
	for _, ins := range f.block.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		k := f.info.index[phi]
		if v, ok := f.regs[k].intVal(); ok && v >= -1 && v <= 8 {
			if out == nil {
				out = map[string]bool{}
			}
			out[fmt.Sprintf("f%d.r%d", len(st.frames)-1, k)] = true
		}
	}
	if out == nil {
		return nil
	}
	t := st.fork()
	cb := t.eng.onMayPanic
	t.eng.onMayPanic = nil
	defer func() { t.eng.onMayPanic = cb }()
	for t.top().idx < n-1 {
		ins := t.top().block.Instrs[t.top().idx]
		switch ins := ins.(type) {
		case *ssa.BinOp, *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr, *ssa.Phi:
		case *ssa.Call:
			if b, ok := ins.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" {
				return nil
			}
		default:
			return nil
		}
		if r := t.eng.step(t); len(r) != 1 {
			return nil
		}
	}
	if t.eval(t.val(br.Cond)) == unknown {
		return nil
	}
	return out
}

// compactSlices forgets the elements of arrays that no slice covers.
func (st *State) compactSlices(slots []slotRef) {
	type use struct {
		lo, hi int64
		bad    bool
		hiSym  bool
		one    *Term // the only slice of it
	}
	uses := map[*Term]*use{}
	var visit func(t *Term)
	seen := map[*Term]bool{}
	get := func(o *Term) *use {
		u := uses[o]
		if u == nil {
			u = &use{lo: -1}
			uses[o] = u
		}
		return u
	}
	visit = func(t *Term) {
		if t == nil || !t.syms || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OObj {
			get(t).bad = true
			return
		}
		if t.op == OSlice && t.args[0].op == OObj {
			u := get(t.args[0])
			lo, ok := t.args[1].intVal()
			if !ok {
				u.bad = true
				return
			}
			if u.lo < 0 {
				u.one = t
			} else {
				u.one = nil
			}
			if u.lo < 0 || lo < u.lo {
				u.lo = lo
			}
			hi, ok := t.args[2].intVal()
			if !ok {
				u.hiSym = true
				visit(t.args[2])
			} else if hi > u.hi {
				u.hi = hi
			}
			return
		}
		for _, a := range t.args {
			visit(a)
		}
	}
	for _, s := range slots {
		visit(s.t)
	}
	for a, v := range st.heap {
		if a.op != OObj {
			visit(a)
		}
		visit(v)
	}
	for _, f := range []map[*Term]bool{st.facts.bools} {
		for t := range f {
			visit(t)
		}
	}
	sub := newSubst()
	for o, u := range uses {
		if u.bad || u.lo < 0 || st.heap[o] == nil || st.heap[o].op != OSeq {
			continue
		}
		c := st.heap[o]
		drop := 0
		for int64(drop) < u.lo && drop < len(c.args) && c.args[drop].op != OSeg {
			drop++
		}
		end := len(c.args)
		if !u.hiSym {
			n := int64(0)
			for i, p := range c.args {
				if p.op == OSeg {
					n = -1
					break
				}
				if n == u.hi {
					end = i
					break
				}
				n++
			}
			if u.hi == u.lo && n < 0 {
				end = drop
				if int64(drop) != u.lo {
					end = len(c.args)
				}
			}
		}
		if u.one != nil {
			for end > drop && c.args[end-1].op != OSeg && u.one.args[2] != seqLen(mkSeq(c.args[:end]...)) {
				end--
			}
			if u.one.args[2] != seqLen(mkSeq(c.args[:end]...)) {
				end = len(c.args)
			}
		}
		if end < drop {
			end = drop
		}
		if drop == 0 && end == len(c.args) {
			continue
		}
		n := newObj(o.name, o.typ, o.site)
		st.heap[n] = mkSeq(c.args[drop:end]...)
		delete(st.heap, o)
		for t := range seen {
			if t.op == OSlice && t.args[0] == o {
				sub.m[t] = mkSlice(n, addK(t.args[1], -int64(drop)), addK(t.args[2], -int64(drop)), t.typ)
			}
		}
	}
	if len(sub.m) == 0 {
		return
	}
	for i := range slots {
		if t := sub.apply(slots[i].t); t != slots[i].t {
			slots[i].t = t
			slots[i].set(t)
		}
	}
	for a, v := range st.heap {
		if t := sub.apply(v); t != v {
			st.heap[a] = t
		}
	}
	for t, v := range st.facts.bools {
		if n := sub.apply(t); n != t {
			delete(st.facts.bools, t)
			st.facts.bools[n] = v
		}
	}
}

func genName(a *Term) string {
	if strings.HasPrefix(a.name, "gen") {
		return a.name
	}
	return "g" + strings.TrimLeft(a.name, "g")
}

func (g *gen) rec(a, b *Term) *Term {
	if len(a.args) != len(b.args) {
		return nil
	}
	args := make([]*Term, len(a.args))
	for i := range a.args {
		args[i] = g.lgg(a.args[i], b.args[i])
		if args[i] == nil {
			return nil
		}
	}
	return rebuild(a, args)
}

func (g *gen) lggSeq(a, b *Term) *Term {
	if r := g.seqSameShape(a, b); r != nil {
		return r
	}
	x, y := a.args, b.args
	var suf, pre []*Term
	for len(x) > 0 && len(y) > 0 {
		p, q := x[len(x)-1], y[len(y)-1]
		if p.op == OSeg || q.op == OSeg || !compat(p, q) {
			break
		}
		if p.op == OObj && (g.oa[p] != nil || g.ob[q] != nil) && g.oa[p] != g.ob[q] {
			break
		}
		r := g.lgg(p, q)
		if r == nil {
			break
		}
		suf = append([]*Term{r}, suf...)
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	for len(x) > 0 && len(y) > 0 && x[0] == y[0] && x[0].op != OSeg {
		r := g.lgg(x[0], y[0])
		if r == nil {
			break
		}
		pre = append(pre, r)
		x, y = x[1:], y[1:]
	}
	ma, mb := mkSeq(x...), mkSeq(y...)
	var mid *Term
	if ma == mb {
		mid = ma
		if len(ma.args) > 0 && hasObj(ma) {
			mid = g.seqSameShape(ma, mb)
			if mid == nil {
				return nil
			}
		}
	} else {
		for _, v := range g.seqs {
			if v.a == ma && v.b == mb {
				mid = mkSeq(mkSeg(v.g, mkInt(0), mkLen(v.g)))
			}
		}
		if mid == nil {
			var et types.Type
			for _, p := range append(append([]*Term{}, ma.args...), mb.args...) {
				if p.op == OSeg {
					if p.args[0].typ != nil {
						et = elemType(p.args[0].typ)
					}
				} else if p.typ != nil && p.op != OIface && p.op != ONil {
					et = p.typ
				}
				if et != nil {
					break
				}
			}
			var st types.Type
			if et != nil {
				st = types.NewSlice(et)
			}
			s := newSym("gen", st)
			g.seqs = append(g.seqs, genVar{s, ma, mb})
			mid = mkSeq(mkSeg(s, mkInt(0), mkLen(s)))
		}
	}
	parts := append(append(append([]*Term{}, pre...), mid), suf...)
	return mkSeq(parts...)
}

// seqSameShape generalises part by part when both have the same parts.
func (g *gen) seqSameShape(a, b *Term) *Term {
	if len(a.args) != len(b.args) {
		return nil
	}
	for i := range a.args {
		p, q := a.args[i], b.args[i]
		if (p.op == OSeg) != (q.op == OSeg) {
			return nil
		}
		if p.op == OSeg {
			if p.args[0] != q.args[0] && !(p.args[0].op == OSym && q.args[0].op == OSym) {
				return nil
			}
			continue
		}
		if !compat(p, q) {
			return nil
		}
		if p.op == OObj && (g.oa[p] != nil || g.ob[q] != nil) && g.oa[p] != g.ob[q] {
			return nil
		}
	}
	var parts []*Term
	for i := range a.args {
		p, q := a.args[i], b.args[i]
		if p.op == OSeg {
			var base *Term
			if p.args[0] == q.args[0] {
				base = p.args[0]
			} else {
				sp, ok1 := fullSeg(p)
				sq, ok2 := fullSeg(q)
				if !ok1 || !ok2 {
					return nil
				}
				ma, mb := mkSeq(p), mkSeq(q)
				for _, v := range g.seqs {
					if v.a == ma && v.b == mb {
						base = v.g
					}
				}
				if base == nil {
					base = newSym("gen", sp.typ)
					_ = sq
					g.seqs = append(g.seqs, genVar{base, ma, mb})
				}
				parts = append(parts, mkSeg(base, mkInt(0), mkLen(base)))
				continue
			}
			lo, hi := g.lgg(p.args[1], q.args[1]), g.lgg(p.args[2], q.args[2])
			if lo == nil || hi == nil {
				return nil
			}
			parts = append(parts, mkSeg(base, lo, hi))
			continue
		}
		r := g.lgg(p, q)
		if r == nil {
			return nil
		}
		parts = append(parts, r)
	}
	return mkSeq(parts...)
}

// ---- joining facts ----

// widenSmall is how many values a widened set keeps apart.
var widenSmall = int64(14)

// widenSeq is how far apart the length of a widened sequence and a number are
// tried to be kept.
var widenSeq = int64(0)

// widenLow is the largest lower bound that a widened set may keep.
var widenLow = int64(0)

// widenFar has relations between numbers up to three apart tried.
var widenFar = false

// widenBack is how far one number may lie behind another for their relation to
// be tried.
var widenBack = int64(0)

func widenSet(a, b IntSet) IntSet {
	u := a.union(b)
	if len(u) <= 8 && u.equal(a) {
		return a
	}
	// Few small values: keep them apart. Otherwise go to infinity.
	if !u.empty() && u.min() > negInf && u.max() < posInf {
		n := int64(0)
		for _, v := range u {
			n += v.hi - v.lo + 1
		}
		if n <= widenSmall {
			return u
		}
	}
	lo, hi := int64(negInf), int64(posInf)
	if !a.empty() && !b.empty() {
		if b.min() >= a.min() {
			lo = a.min()
		} else if b.min() >= 0 {
			lo = min(b.min(), widenLow)
		} else if b.min() >= -1 {
			lo = -1
		}
		if b.max() <= a.max() {
			hi = a.max()
		} else if b.max() <= 0x10FFFF && a.max() >= 64 {
			hi = 0x10FFFF
		}
	}
	w := rng(lo, hi)
	// Keep the holes of a that b also has (sets of characters).
	if len(a) <= 60 {
		w = w.minus(a.compl().inter(b.compl()).inter(rng(a.min(), a.max())))
	}
	return w
}

func isRune(t types.Type) bool {
	b, ok := basicOf(t)
	return ok && b.Kind() == types.Int32
}

func (g *gen) joinFacts() {
	// Images of the result's terms in both states.
	g.sa, g.sb = newSubst(), newSubst()
	for _, v := range g.vars {
		g.sa.m[v.g], g.sb.m[v.g] = v.a, v.b
	}
	for _, v := range g.seqs {
		g.sa.m[v.g], g.sb.m[v.g] = v.a, v.b
	}
	for _, p := range g.pairs {
		g.sa.m[p[0]], g.sb.m[p[0]] = p[1], p[2]
	}
	terms := map[*Term]bool{}
	var collect func(t *Term)
	collect = func(t *Term) {
		if t == nil || !t.syms || terms[t] {
			return
		}
		terms[t] = true
		for _, a := range t.args {
			collect(a)
		}
		if t.op == OSym && t.typ != nil {
			switch t.typ.Underlying().(type) {
			case *types.Slice:
				collect(mkLen(t))
			case *types.Basic:
				if isStringTerm(t) {
					collect(mkLen(t))
				}
			}
		}
	}
	for _, t := range g.nslot {
		collect(t)
	}
	for a, v := range g.heap {
		collect(a)
		collect(v)
	}
	// Terms of a's facts, translated: those that a's and b's facts share.
	rev := map[*Term][]*Term{} // a's image -> result terms
	var list []*Term
	for t := range terms {
		list = append(list, t)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	for _, t := range list {
		ia := g.sa.apply(t)
		rev[ia] = append(rev[ia], t)
	}
	trans := func(t *Term) []*Term {
		if rs, ok := rev[t]; ok {
			return rs
		}
		if !t.syms {
			return []*Term{t}
		}
		s := newSubst()
		for _, x := range list {
			ia := g.sa.apply(x)
			rs := rev[ia]
			if ia.syms || ia.op == OConst {
				s.m[ia] = rs[0]
			}
			if ia.syms {
				shifted(s.m, ia, rs[0])
			}
		}
		r := s.apply(t)
		if g.sa.apply(r) == t {
			return []*Term{r}
		}
		return nil
	}
	f := newFacts()
	A, B := g.a, g.b
	addInt := func(t *Term) {
		if t.op == OLin || t.op == OConst {
			return
		}
		ia, ib := g.sa.apply(t), g.sb.apply(t)
		sa, sb := A.intSet(ia), B.intSet(ib)
		w := sa
		if !sb.subsetOf(sa) {
			w = widenSet(sa, sb)
			if u := sa.union(sb); isRune(t.typ) && len(u) <= 150 {
				w = u // the bounds are the program's own constants
			}
		}
		if !w.equal(fullSet) {
			f.ints[t] = w
		}
	}
	for _, t := range list {
		if isIntType(t.typ) {
			addInt(t)
		}
		if tf, ok := A.typeFactAny(g.sa.apply(t), A); ok {
			if tb, ok := B.typeFactAny(g.sb.apply(t), B); ok {
				if tf.u != nil && tb.u == tf.u {
					f.types[t] = TypeFact{u: tf.u, allowed: tf.allowed | tb.allowed}
				} else if tf.is != nil && tb.is != nil && typeKey(tf.is) == typeKey(tb.is) {
					f.types[t] = tf
				} else if tf.is == nil && tb.is == nil && tf.u == nil && tb.u == nil {
					var common []string
					for _, k := range tf.isNot {
						for _, k2 := range tb.isNot {
							if k == k2 {
								common = append(common, k)
							}
						}
					}
					if len(common) > 0 {
						f.types[t] = TypeFact{isNot: common}
					}
				}
			}
		}
		if isStringTerm(t) {
			xa, oka := A.knownStr(g.sa.apply(t))
			xb, okb := B.knownStr(g.sb.apply(t))
			if oka && okb && xa == xb {
				f.strEq[t] = xa
			}
			for _, s := range A.facts.strNe[g.sa.apply(t)] {
				if B.evalStrEq(g.sb.apply(t), mkStr(s)) == no {
					f.strNe[t] = append(f.strNe[t], s)
				}
			}
		}
		if t.typ == nil || isNilable(t.typ) {
			na, nb := A.isNil(g.sa.apply(t)), B.isNil(g.sb.apply(t))
			if na == nb && na != unknown {
				switch t.op {
				case OSym, OInit, OIdx, OExt, OData, OFld:
					f.bools[eqTerm(t, nilTerm)] = na == yes
				}
			}
		}
	}
	for t, v := range A.facts.ints {
		for _, r := range trans(t) {
			if _, ok := f.ints[r]; !ok && !r.isConst() {
				sb := B.intSet(g.sb.apply(r))
				w := v
				if !sb.subsetOf(v) {
					w = widenSet(v, sb)
				}
				if !w.equal(fullSet) {
					f.ints[r] = w
				}
			}
		}
	}
	for t, v := range A.facts.types {
		for _, r := range trans(t) {
			if _, ok := f.types[r]; ok {
				continue
			}
			if tb, ok := B.typeFactAny(g.sb.apply(r), B); ok && v.u != nil && tb.u == v.u {
				f.types[r] = TypeFact{u: v.u, allowed: v.allowed | tb.allowed}
			} else if ok && v.is != nil && tb.is != nil && typeKey(v.is) == typeKey(tb.is) {
				f.types[r] = v
			}
		}
	}
	for t, v := range A.facts.bools {
		for _, r := range trans(t) {
			if B.eval(g.sb.apply(r)) == triOf(v) {
				f.bools[r] = v
			}
		}
	}
	for t, v := range A.facts.strEq {
		for _, r := range trans(t) {
			if s, ok := B.knownStr(g.sb.apply(r)); ok && s == v {
				f.strEq[r] = v
			}
		}
	}
	for t, vs := range A.facts.strNe {
		for _, r := range trans(t) {
			if _, ok := f.strNe[r]; ok {
				continue
			}
			for _, s := range vs {
				if B.evalStrEq(g.sb.apply(r), mkStr(s)) == no {
					f.strNe[r] = append(f.strNe[r], s)
				}
			}
		}
	}
	for t, v := range A.facts.defs {
		if t.op == OSym && g.sa.m[t] == nil {
			if B.facts.defs[t] == v && stays(g, t) {
				f.defs[t] = v
			}
		}
	}
	// Relations.
	cand := map[*Term]bool{}
	for _, t := range A.facts.rel {
		for _, r := range trans(t) {
			cand[r] = true
		}
	}
	for _, t := range B.facts.rel { // by b's image
		s := newSubst()
		for _, x := range list {
			ib := g.sb.apply(x)
			if ib.syms {
				s.m[ib] = x
				shifted(s.m, ib, x)
			}
		}
		// A bound that b has weakened from a's would be weakened without end.
		if r := s.apply(t); cand[r] || toLin(r).k <= 8 && toLin(r).k >= -8 {
			cand[r] = true
		}
	}
	var ints []*Term
	for _, t := range list {
		if isIntType(t.typ) && t.op != OLin {
			ints = append(ints, t)
		}
	}
	steps := []int64{1, 0}
	if widenLow > 0 {
		steps = []int64{2, 1, 0}
	}
	if widenFar {
		steps = []int64{3, 2, 1, 0}
	}
	for k := int64(1); k <= widenBack; k++ {
		steps = append(steps, -k)
	}
	if len(ints) < 40 {
		for _, v := range g.vars {
			if !isIntType(v.g.typ) {
				continue
			}
			if b, ok := basicOf(v.g.typ); ok && b.Kind() == types.Int32 {
				continue
			}
			for _, t := range ints {
				if t == v.g {
					continue
				}
				for _, k := range steps {
					cand[toLin(v.g).add(toLin(t), -1).add(lin{nil, k}, 1).term(tInt)] = true
					cand[toLin(t).add(toLin(v.g), -1).add(lin{nil, k}, 1).term(tInt)] = true
				}
			}
		}
		for _, s := range g.seqs {
			for _, t := range ints {
				if t == mkLen(s.g) {
					continue
				}
				cand[toLin(mkLen(s.g)).add(toLin(t), -1).term(tInt)] = true
				cand[toLin(t).add(toLin(mkLen(s.g)), -1).term(tInt)] = true
				for k := int64(1); k <= widenSeq; k++ {
					cand[toLin(mkLen(s.g)).add(toLin(t), -1).add(lin{nil, k}, 1).term(tInt)] = true
				}
			}
		}
	}
	tmp := &State{eng: A.eng, heap: map[*Term]*Term{}, facts: f}
	var cl []*Term
	for t := range cand {
		cl = append(cl, t)
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].id < cl[j].id })
	for _, t := range cl {
		if t.op == OConst || !t.syms {
			continue
		}
		if tmp.provesLE(toLin(t)) {
			continue
		}
		if A.provesLE(toLin(g.sa.apply(t))) && B.provesLE(toLin(g.sb.apply(t))) {
			f.rel = append(f.rel, t)
		}
	}
	for _, t := range A.facts.ne {
		for _, r := range trans(t) {
			if B.evalEq(g.sb.apply(r), mkInt(0)) == no {
				f.ne = append(f.ne, r)
			}
		}
	}
	// Sequences: what their elements may be, and what they are equal to.
	for _, v := range g.seqs {
		if tf, ok := seqType(A, v.a); ok {
			if tb, ok := seqType(B, v.b); ok && tf.u == tb.u {
				f.types[v.g] = TypeFact{u: tf.u, allowed: tf.allowed | tb.allowed}
			}
		}
		if seqNonNil(A, v.a) && seqNonNil(B, v.b) {
			f.bools[ext("allnonnil", tBool, v.g)] = true
		}
		if A.eng.normSeq != nil {
			na, ok1 := A.eng.normSeq(A, v.a)
			nb, ok2 := B.eng.normSeq(B, v.b)
			if ok1 && ok2 {
				if n := g.lgg(na, nb); n != nil {
					f.defs[v.g] = n
				}
			}
		}
	}
	g.facts = f
}

// shifted adds to m what the atom of image, an integer atom+k, stands for when
// image stands for x.
func shifted(m map[*Term]*Term, image, x *Term) {
	if image.op != OLin || len(image.args) != 1 || image.coefs[0] != 1 || !isIntType(x.typ) {
		return
	}
	if _, ok := m[image.args[0]]; !ok {
		m[image.args[0]] = addK(x, -image.k)
	}
}

// stays reports whether symbol t means the same in the result.
func stays(g *gen, t *Term) bool { return true }

func (st *State) typeFactAny(x *Term, _ *State) (TypeFact, bool) {
	if x.op == OIface {
		for _, u := range st.eng.prog.universes {
			if i := u.index(x.typ2); i >= 0 {
				return TypeFact{u: u, allowed: 1 << i}, true
			}
		}
		return TypeFact{is: x.typ2}, true
	}
	if f, ok := st.typeFact(x); ok {
		return f, true
	}
	if u := st.eng.universeOf(x.typ); u != nil {
		return TypeFact{u: u, allowed: 1<<len(u.impls) - 1}, true
	}
	return TypeFact{}, false
}

func seqType(st *State, s *Term) (TypeFact, bool) {
	var out TypeFact
	for _, p := range s.args {
		var f TypeFact
		var ok bool
		if p.op == OSeg {
			f, ok = st.facts.types[p.args[0]]
			if !ok && p.args[0].typ != nil {
				if u := st.eng.universeOf(elemType(p.args[0].typ)); u != nil {
					f, ok = TypeFact{u: u, allowed: 1<<len(u.impls) - 1}, true
				}
			}
		} else {
			f, ok = st.typeFactAny(p, st)
		}
		if !ok || f.u == nil || (out.u != nil && out.u != f.u) {
			return out, false
		}
		out.u = f.u
		out.allowed |= f.allowed
	}
	if out.u == nil {
		// The empty sequence: any universe will do; the caller unifies.
		for _, u := range st.eng.prog.universes {
			return TypeFact{u: u}, true
		}
	}
	return out, out.u != nil
}

func seqNonNil(st *State, s *Term) bool {
	for _, p := range s.args {
		if p.op == OSeg {
			if st.eval(ext("allnonnil", tBool, p.args[0])) != yes {
				return false
			}
			continue
		}
		if st.isNil(p) != no {
			return false
		}
	}
	return true
}

// apply replaces st by the generalised state.
func (g *gen) apply(st *State, slots []slotRef) {
	for i := range slots {
		slots[i].set(g.nslot[i])
	}
	st.heap = g.heap
	for k, v := range st.eng.globals {
		if _, ok := st.heap[k]; !ok {
			st.heap[k] = v
		}
	}
	st.facts = g.facts
	st.clobbered = g.clob
}
