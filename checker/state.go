package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// A Monitor carries a check's ghost state along a path.
type Monitor interface {
	Clone() Monitor
	// Roots are the ghost's terms; SetRoots puts back (possibly renamed) ones.
	Roots() []*Term
	SetRoots([]*Term)
	Key() string
}

type deferred struct {
	call *ssa.Defer
	ci   *callInfo
}

type Frame struct {
	fn      *ssa.Function
	info    *fnInfo
	regs    []*Term
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	idx     int
	call    ssa.CallInstruction // the call in the caller, nil for the entry
	defers  []deferred
	isDefer bool // this frame runs a deferred call of the frame below
	// unwinding: 0 running, 1 in RunDefers, 2 panicking
	unwinding int
	recovered bool
	tag       string // set by checks
	onReturn  func(st *State, ret *Term) *Term
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = append([]*Term(nil), f.regs...)
	n.defers = append([]deferred(nil), f.defers...)
	for i := range n.defers {
		ci := *n.defers[i].ci
		n.defers[i].ci = &ci
	}
	return &n
}

type State struct {
	eng    *Engine
	frames []*Frame
	heap   map[*Term]*Term
	facts  *Facts
	mon    Monitor
	// panics in flight, innermost last; value is an interface term
	panics []*Term
	depth  int
	trail  []token.Pos
	stop   bool
	// fields of symbolic objects that may no longer have their first value
	clobbered map[string]bool
}

func (e *Engine) newState(mon Monitor) *State {
	st := &State{eng: e, heap: map[*Term]*Term{}, facts: newFacts(), mon: mon}
	for k, v := range e.globals {
		st.heap[k] = v
	}
	return st
}

func (st *State) fork() *State {
	n := &State{eng: st.eng, heap: cloneMap(st.heap), facts: st.facts.clone(),
		panics: append([]*Term(nil), st.panics...), depth: st.depth,
		trail: append([]token.Pos(nil), st.trail...)}
	if st.clobbered != nil {
		n.clobbered = cloneMap(st.clobbered)
	}
	for _, f := range st.frames {
		n.frames = append(n.frames, f.clone())
	}
	if st.mon != nil {
		n.mon = st.mon.Clone()
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// ---- function information ----

type fnInfo struct {
	fn      *ssa.Function
	index   map[ssa.Value]int
	values  []ssa.Value
	header  map[*ssa.BasicBlock]bool
	join    map[*ssa.BasicBlock]bool
	liveOut map[*ssa.BasicBlock]map[int]bool
	liveAtC map[[2]int][]int
	loops   map[*ssa.BasicBlock]bool
	copies  map[*ssa.MapUpdate]*ssa.Next
	vars    map[ssa.Value]bool // local variables: allocations used directly only
}

// isVar says whether a is a variable that is only ever read and written in
// place, so that storing a whole value makes what it held before irrelevant.
func isVar(a *ssa.Alloc) bool {
	whole := map[*ssa.BasicBlock][]int{}
	at := func(i ssa.Instruction) int {
		for k, x := range i.Block().Instrs {
			if x == i {
				return k
			}
		}
		return -1
	}
	var fas []*ssa.FieldAddr
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef:
		case *ssa.UnOp:
		case *ssa.Store:
			if r.Val == a {
				return false
			}
			whole[r.Block()] = append(whole[r.Block()], at(r))
		case *ssa.FieldAddr:
			fas = append(fas, r)
		default:
			return false
		}
	}
	if len(whole) == 0 {
		return false
	}
	for _, fa := range fas {
		for _, r := range *fa.Referrers() {
			switch r := r.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.UnOp:
			case *ssa.Store:
				if r.Val == fa {
					return false
				}
			default:
				return false
			}
			if r.Block() != fa.Block() {
				return false
			}
			for _, k := range whole[fa.Block()] {
				if at(fa) < k && k < at(r) {
					return false
				}
			}
		}
	}
	return true
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	in := &fnInfo{fn: fn, index: map[ssa.Value]int{}, header: map[*ssa.BasicBlock]bool{}, join: map[*ssa.BasicBlock]bool{},
		liveOut: map[*ssa.BasicBlock]map[int]bool{}, liveAtC: map[[2]int][]int{}, vars: map[ssa.Value]bool{}}
	addv := func(v ssa.Value) {
		in.index[v] = len(in.values)
		in.values = append(in.values, v)
	}
	for _, p := range fn.Params {
		addv(p)
	}
	for _, p := range fn.FreeVars {
		addv(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				addv(v)
			}
			if a, ok := ins.(*ssa.Alloc); ok && isVar(a) {
				in.vars[a] = true
			}
		}
		if len(b.Preds) > 1 {
			in.join[b] = true
		}
		for _, p := range b.Preds {
			if b.Dominates(p) {
				in.header[b] = true
			}
		}
	}
	// liveness
	liveIn := map[*ssa.BasicBlock]map[int]bool{}
	for _, b := range fn.Blocks {
		liveIn[b] = map[int]bool{}
		in.liveOut[b] = map[int]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			out := in.liveOut[b]
			for _, s := range b.Succs {
				for v := range liveIn[s] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for pi, p := range s.Preds {
					if p != b {
						continue
					}
					for _, ins := range s.Instrs {
						phi, ok := ins.(*ssa.Phi)
						if !ok {
							break
						}
						if k, ok := in.index[phi.Edges[pi]]; ok && !out[k] {
							out[k] = true
							changed = true
						}
					}
				}
			}
			live := cloneMap(out)
			in.transfer(b, 0, live)
			for v := range live {
				if !liveIn[b][v] {
					liveIn[b][v] = true
					changed = true
				}
			}
		}
	}
	e.infos[fn] = in
	return in
}

// copyLoop gives the Next instruction of the loop that upd is all of the body
// of, if that loop puts each entry of a map in another.
func (in *fnInfo) copyLoop(upd *ssa.MapUpdate) *ssa.Next {
	if in.copies == nil {
		in.copies = map[*ssa.MapUpdate]*ssa.Next{}
		for _, b := range in.fn.Blocks {
			if u, n := copyBody(b); n != nil {
				in.copies[u] = n
			}
		}
	}
	return in.copies[upd]
}

func (in *fnInfo) isCopyLoop(n *ssa.Next) bool {
	in.copyLoop(nil)
	for _, x := range in.copies {
		if x == n {
			return true
		}
	}
	return false
}

func copyBody(b *ssa.BasicBlock) (*ssa.MapUpdate, *ssa.Next) {
	var upd *ssa.MapUpdate
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.MapUpdate:
			if upd != nil {
				return nil, nil
			}
			upd = ins
		case *ssa.Extract, *ssa.FieldAddr, *ssa.UnOp, *ssa.DebugRef, *ssa.Jump, *ssa.Lookup:
		default:
			return nil, nil
		}
	}
	if upd == nil || len(b.Preds) != 1 || len(b.Succs) != 1 || b.Succs[0] != b.Preds[0] {
		return nil, nil
	}
	h := b.Preds[0]
	var next *ssa.Next
	for _, ins := range h.Instrs {
		switch ins := ins.(type) {
		case *ssa.Next:
			next = ins
		case *ssa.Extract, *ssa.DebugRef, *ssa.If:
		default:
			return nil, nil
		}
	}
	if next == nil || next.IsString || len(h.Succs) != 2 || h.Succs[0] != b {
		return nil, nil
	}
	for i, v := range []ssa.Value{upd.Key, upd.Value} {
		if l, ok := v.(*ssa.Lookup); ok && i == 1 && !l.CommaOk && l.Index == upd.Key {
			// the value looked up again
			if r, ok := next.Iter.(*ssa.Range); ok && sameMap(r.X, l.X) {
				continue
			}
		}
		x, ok := v.(*ssa.Extract)
		if !ok || x.Tuple != next || x.Index != i+1 {
			return nil, nil
		}
	}
	return upd, next
}

// sameMap says whether a and b are one map: one value, or loads of one
// variable, or of one field of one object, that a loop copying it elsewhere
// does not set.
func sameMap(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.UnOp)
	y, ok2 := b.(*ssa.UnOp)
	if !ok1 || !ok2 || x.Op != token.MUL || y.Op != token.MUL {
		return false
	}
	if _, ok := x.X.(*ssa.Global); ok && x.X == y.X {
		return true
	}
	f, ok1 := x.X.(*ssa.FieldAddr)
	g, ok2 := y.X.(*ssa.FieldAddr)
	return ok1 && ok2 && f.X == g.X && f.Field == g.Field
}

// transfer updates live (live after b) to what is live before instruction idx.
func (in *fnInfo) transfer(b *ssa.BasicBlock, idx int, live map[int]bool) {
	var ops [16]*ssa.Value
	for j := len(b.Instrs) - 1; j >= idx; j-- {
		ins := b.Instrs[j]
		if v, ok := ins.(ssa.Value); ok {
			delete(live, in.index[v])
		}
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		if s, ok := ins.(*ssa.Store); ok && in.vars[s.Addr] {
			delete(live, in.index[s.Addr])
			if k, ok := in.index[s.Val]; ok {
				live[k] = true
			}
			continue
		}
		for _, op := range ins.Operands(ops[:0]) {
			if *op == nil {
				continue
			}
			if k, ok := in.index[*op]; ok {
				live[k] = true
			}
		}
	}
}

// liveAt lists the values live before instruction idx of b.
func (in *fnInfo) liveAt(b *ssa.BasicBlock, idx int) []int {
	key := [2]int{b.Index, idx}
	if l, ok := in.liveAtC[key]; ok {
		return l
	}
	live := cloneMap(in.liveOut[b])
	in.transfer(b, idx, live)
	var out []int
	for v := range live {
		out = append(out, v)
	}
	sort.Ints(out)
	in.liveAtC[key] = out
	return out
}

// ---- memory ----

func pointee(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return falseT
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return mkConst(constant.MakeInt64(0), t)
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return nilTerm
		}
		return newSym("zero", t)
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return T.intern(&Term{op: OStruct, args: fs, typ: t})
	case *types.Array:
		if u.Len() > 256 {
			s := newSym("array", t)
			return mkSeq(mkSeg(s, mkInt(0), mkInt(u.Len())))
		}
		var es []*Term
		for i := int64(0); i < u.Len(); i++ {
			es = append(es, zeroOf(u.Elem()))
		}
		return mkSeq(es...)
	}
	return nilTerm
}

func fieldOf(v *Term, i int, typ types.Type) *Term {
	if v.op == OStruct {
		return v.args[i]
	}
	if typ == nil {
		if st := structOf(v.typ); st != nil {
			typ = st.Field(i).Type()
		}
	}
	return T.intern(&Term{op: OFld, args: []*Term{v}, n: i, typ: typ})
}

func rootOf(addr *Term) *Term {
	for addr.op == OField || addr.op == OElem {
		addr = addr.args[0]
	}
	return addr
}

func (st *State) load(addr *Term, typ types.Type) *Term {
	if st.eng.normAddr != nil {
		addr = st.eng.normAddr(st, addr)
	}
	if v, ok := st.heap[addr]; ok {
		return v
	}
	if typ == nil {
		typ = pointee(addr.typ)
	}
	if addr.op == OElem {
		return st.loadElem(addr.args[0], addr.args[1], typ)
	}
	if addr.op == OField {
		base := addr.args[0]
		if base.op == OElem {
			return fieldOf(st.load(base, nil), addr.n, typ)
		}
		if v, ok := st.heap[base]; ok { // whole struct value known
			return fieldOf(v, addr.n, typ)
		}
	}
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok && addr.op != OGlobal {
			var fs []*Term
			for i := 0; i < s.NumFields(); i++ {
				fs = append(fs, st.load(mkField(addr, i), s.Field(i).Type()))
			}
			return T.intern(&Term{op: OStruct, args: fs, typ: typ})
		}
		if rootOf(addr).op == OObj {
			return zeroOf(typ)
		}
		if _, ok := typ.Underlying().(*types.Array); ok {
			return st.arrayContent(addr)
		}
	}
	if len(st.clobbered) > 0 && (st.clobbered[clobKey(addr)] || st.clobbered["any"]) {
		v := newSym("clobbered", typ)
		st.heap[addr] = v
		return v
	}
	if st.eng.loadInit != nil {
		if v := st.eng.loadInit(st, addr, typ); v != nil {
			return v
		}
	}
	return T.intern(&Term{op: OInit, args: []*Term{addr}, typ: typ})
}

func (st *State) store(addr, val *Term, typ types.Type) {
	if st.eng.normAddr != nil {
		addr = st.eng.normAddr(st, addr)
	}
	if addr.op == OElem {
		st.storeElem(addr.args[0], addr.args[1], val)
		return
	}
	if addr.op == OField && addr.args[0].op == OElem {
		base := addr.args[0]
		old := st.load(base, nil)
		s := structOf(old.typ)
		if s == nil {
			if t := pointee(base.typ); t != nil {
				s = structOf(t)
			}
		}
		if s == nil {
			st.storeElem(base.args[0], base.args[1], newSym("struct", nil))
			return
		}
		var fs []*Term
		for i := 0; i < s.NumFields(); i++ {
			if i == addr.n {
				fs = append(fs, val)
			} else {
				fs = append(fs, fieldOf(old, i, s.Field(i).Type()))
			}
		}
		st.storeElem(base.args[0], base.args[1], T.intern(&Term{op: OStruct, args: fs, typ: old.typ}))
		return
	}
	if typ == nil {
		typ = pointee(addr.typ)
	}
	if typ != nil {
		if s, ok := typ.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				st.store(mkField(addr, i), fieldOf(val, i, s.Field(i).Type()), s.Field(i).Type())
			}
			return
		}
	}
	st.heap[addr] = val
}

// arrayContent returns the contents of the array object arr as a sequence.
func (st *State) arrayContent(arr *Term) *Term {
	if c, ok := st.heap[arr]; ok {
		return c
	}
	if arr.op == OArr {
		v := arr.args[0]
		if st.clobbered[clobKey(arr)] || st.clobbered["any"] {
			c := mkSeq(mkSeg(newSym("clobbered", v.typ), mkInt(0), mkLen(v)))
			st.heap[arr] = c
			return c
		}
		if st.eng.sliceInit != nil {
			if c := st.eng.sliceInit(st, v); c != nil {
				return c
			}
		}
		return mkSeq(mkSeg(v, mkInt(0), mkLen(v)))
	}
	if t := pointee(arr.typ); t != nil {
		if a, ok := t.Underlying().(*types.Array); ok {
			if arr.op == OObj {
				return zeroOf(t)
			}
			init := T.intern(&Term{op: OInit, args: []*Term{arr}, typ: t})
			return mkSeq(mkSeg(init, mkInt(0), mkInt(a.Len())))
		}
	}
	init := newSym("content", nil)
	return mkSeq(mkSeg(init, mkInt(0), mkLen(init)))
}

func (st *State) loadElem(arr, i *Term, typ types.Type) *Term {
	c := st.arrayContent(arr)
	k, off, _ := st.locate(c, i)
	if k >= 0 {
		p := c.args[k]
		if p.op == OSeg {
			return mkIdx(p.args[0], add(p.args[1], off), typ)
		}
		return p
	}
	return ext("elem", typ, c, i)
}

// locate finds the part of sequence c that holds index i; off is the offset
// in it and start the index at which the part begins.
func (st *State) locate(c, i *Term) (part int, off, start *Term) {
	cum := mkInt(0)
	for k, p := range c.args {
		if p.op == OSeg {
			o := sub(i, cum)
			n := partLen(p)
			lastOK := k == len(c.args)-1
			if k == 0 || st.provesLE(toLin(mkInt(0)).add(toLin(o), -1)) {
				if lastOK || st.provesLE(toLin(o).add(toLin(n), -1).add(lin{nil, 1}, 1)) {
					return k, o, cum
				}
			}
			// Not provably inside: it must be provably after to go on.
			if !st.provesLE(toLin(n).add(toLin(o), -1)) {
				return -1, nil, nil
			}
			cum = add(cum, n)
			continue
		}
		d := toLin(i).add(toLin(cum), -1)
		if v, ok := d.konst(); ok && v == 0 {
			return k, mkInt(0), cum
		}
		if !st.provesLE(lin{nil, 1}.add(d, -1)) { // i >= cum+1 ?
			if st.evalEq(i, cum) == yes {
				return k, mkInt(0), cum
			}
			return -1, nil, nil
		}
		cum = addK(cum, 1)
	}
	return -1, nil, nil
}

func (st *State) storeElem(arr, i, val *Term) {
	c := st.arrayContent(arr)
	k, off, _ := st.locate(c, i)
	if k < 0 {
		s := newSym("content", nil)
		st.heap[arr] = mkSeq(mkSeg(s, mkInt(0), seqLen(c)))
		return
	}
	var parts []*Term
	parts = append(parts, c.args[:k]...)
	p := c.args[k]
	if p.op == OSeg {
		at := add(p.args[1], off)
		parts = append(parts, mkSeg(p.args[0], p.args[1], at), val, mkSeg(p.args[0], addK(at, 1), p.args[2]))
	} else {
		parts = append(parts, val)
	}
	parts = append(parts, c.args[k+1:]...)
	st.heap[arr] = mkSeq(parts...)
}

// subSeq returns elements lo..hi of sequence c.
func (st *State) subSeq(c, lo, hi *Term) *Term {
	if z, ok := lo.intVal(); ok && z == 0 && hi == seqLen(c) {
		return c
	}
	if lo == hi {
		return mkSeq()
	}
	front := st.cut(c, hi)
	if front == nil {
		return mkSeq(mkSeg(ext("subseq", nil, c, lo, hi), mkInt(0), sub(hi, lo)))
	}
	_, back := st.split(front, lo)
	if back == nil {
		return mkSeq(mkSeg(ext("subseq", nil, c, lo, hi), mkInt(0), sub(hi, lo)))
	}
	return back
}

func (st *State) cut(c, at *Term) *Term { f, _ := st.split(c, at); return f }

// split splits c before index at. It returns nil if that is not expressible.
func (st *State) split(c, at *Term) (front, back *Term) {
	if at == seqLen(c) {
		return c, mkSeq()
	}
	cum := mkInt(0)
	for k, p := range c.args {
		if d, ok := diffConst(at, cum); ok && d == 0 {
			return mkSeq(c.args[:k]...), mkSeq(c.args[k:]...)
		}
		n := partLen(p)
		if p.op == OSeg {
			o := sub(at, cum)
			inside := len(c.args) == 1 || (st.provesLE(toLin(mkInt(0)).add(toLin(o), -1)) && st.provesLE(toLin(o).add(toLin(n), -1)))
			if inside {
				mid := add(p.args[1], o)
				f := append(append([]*Term{}, c.args[:k]...), mkSeg(p.args[0], p.args[1], mid))
				b := append([]*Term{mkSeg(p.args[0], mid, p.args[2])}, c.args[k+1:]...)
				return mkSeq(f...), mkSeq(b...)
			}
		}
		cum = add(cum, n)
	}
	if st.evalEq(at, cum) == yes {
		return c, mkSeq()
	}
	return nil, nil
}

// sliceParts normalises a slice value to array, lo, hi.
func sliceParts(v *Term) (arr, lo, hi *Term) {
	if v.op == OSlice {
		return v.args[0], v.args[1], v.args[2]
	}
	return T.intern(&Term{op: OArr, args: []*Term{v}, typ: v.typ}), mkInt(0), mkLen(v)
}

func mkSlice(arr, lo, hi *Term, typ types.Type) *Term {
	if arr.op == OArr {
		v := arr.args[0]
		if z, ok := lo.intVal(); ok && z == 0 && hi == mkLen(v) {
			return v
		}
	}
	return T.intern(&Term{op: OSlice, args: []*Term{arr, lo, hi}, typ: typ})
}

// content returns the elements of slice value v.
func (st *State) content(v *Term) *Term {
	if v.op == ONil || st.isNil(v) == yes {
		return mkSeq()
	}
	arr, lo, hi := sliceParts(v)
	return st.subSeq(st.arrayContent(arr), lo, hi)
}

// newSlice allocates an array holding seq.
func (st *State) newSlice(seq *Term, typ types.Type) *Term {
	arr := newObj("array", types.NewPointer(types.NewSlice(elemTypeOr(typ))), 0)
	st.heap[arr] = seq
	return mkSlice(arr, mkInt(0), seqLen(seq), typ)
}

func elemTypeOr(t types.Type) types.Type {
	if e := elemType(t); e != nil {
		return e
	}
	return types.Typ[types.Invalid]
}

// appendSeq models append(s, xs...).
func (st *State) appendSeq(s, xs *Term, typ types.Type) *Term {
	if len(xs.args) == 0 {
		return s
	}
	if s.op == ONil || st.isNil(s) == yes {
		return st.newSlice(xs, typ)
	}
	arr, lo, hi := sliceParts(s)
	all := st.arrayContent(arr)
	total := seqLen(all)
	front, back := st.split(all, hi)
	cur := st.content(s)
	if hi != total {
		// The array goes on behind the slice: append writes over it.
		end := add(hi, seqLen(xs))
		if front != nil && st.provesLE(toLin(end).add(toLin(total), -1)) {
			if _, rest := st.split(back, seqLen(xs)); rest != nil {
				st.heap[arr] = mkSeq(front, xs, rest)
				return mkSlice(arr, lo, end, typ)
			}
		}
		if front == nil {
			front = mkSeq(mkSeg(newSym("content", nil), mkInt(0), hi))
		}
		cl := newSym("clobbered", nil)
		st.heap[arr] = mkSeq(front, mkSeg(cl, mkInt(0), sub(total, hi)))
	}
	return st.newSlice(mkSeq(cur, xs), typ)
}
