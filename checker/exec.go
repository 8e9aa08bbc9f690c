package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type callInfo struct {
	instr  ssa.CallInstruction
	fn     *ssa.Function // static or resolved callee
	method *types.Func   // for an interface call that is not resolved
	clo    *Term         // callee value
	args   []*Term       // receiver first
	pos    token.Pos
	typ    types.Type // result type
}

type Outcome struct {
	st    *State
	ret   *Term
	panic *Term
}

type Engine struct {
	prog    *Program
	infos   map[*ssa.Function]*fnInfo
	globals map[*Term]*Term
	unis    map[string]*universe

	// hooks
	onCall     func(st *State, c *callInfo) (bool, []Outcome)
	onExit     func(st *State, ret, panicVal *Term) []*State
	onStore    func(st *State, ins ssa.Instruction, addr, val *Term)
	onMayPanic func(st *State, ins ssa.Instruction, kind string, proven bool)
	onGo       func(st *State, ins *ssa.Go)
	onMap      func(st *State, ins ssa.Instruction, m *Term)
	onLookup   func(st *State, ins *ssa.Lookup, m, k *Term, has bool)
	unrollMaps bool // go through small tables of constants entry by entry
	onMapRange func(st *State, ins *ssa.Range, m *Term)
	onAssume   func(st *State, t *Term, val bool) bool
	onStrEq    func(st *State, t *Term, s string)
	onStrNe    func(st *State, t *Term, s string)
	onRecurse  func(st *State, c *callInfo) (bool, []Outcome)
	onArrive   func(st *State, blk *ssa.BasicBlock, header bool)
	onAppend   func(st *State, ci *callInfo, s, xs, ret *Term) []Outcome
	onElem     func(st *State, ins *ssa.UnOp, v *Term) []*State
	onAssert   func(st *State, x *Term) []*State
	onSort     func(st *State, ci *callInfo, before, after *Term)
	onDispatch func(st *State, c *callInfo) (bool, []Outcome)
	inlineFn   func(fn *ssa.Function) bool
	normAddr   func(st *State, addr *Term) *Term
	loadInit   func(st *State, addr *Term, typ types.Type) *Term
	sliceInit  func(st *State, v *Term) *Term
	intFacts   func(st *State, t *Term) IntSet
	relFacts   func(st *State, l lin) []lin
	nilFacts   func(st *State, t *Term) tri
	strNe      func(st *State, t *Term, s string) bool
	// normSeq gives the normal form of a sequence for a check's equivalence.
	normSeq func(st *State, seq *Term) (*Term, bool)

	closedNonNil bool
	halt         bool
	strRunes     bool // generalise different constant strings by character
	smallK       int  // distinct values kept per position before widening
	noExact      bool // loops are not unrolled even where the number of rounds is known

	// statistics
	steps, forks, arrivals, dups, widened int
	maxStates                             int
	budget                                time.Duration // for one call of Run
	fnsSeen                               map[*ssa.Function]bool
	undecided                             map[string]token.Pos
	unmodelled                            map[string]int
	tab                                   map[string]*ctxTab
}

func newEngine(p *Program) *Engine {
	return &Engine{prog: p, infos: p.infos, globals: map[*Term]*Term{}, smallK: 3, maxStates: 400000,
		fnsSeen: map[*ssa.Function]bool{}, undecided: map[string]token.Pos{}, unmodelled: map[string]int{}, tab: map[string]*ctxTab{}}
}

func (e *Engine) cantDecide(pos token.Pos, format string, args ...interface{}) {
	e.undecided[fmt.Sprintf(format, args...)] = pos
}

func (e *Engine) universeOf(t types.Type) *universe {
	if t == nil {
		return nil
	}
	return e.prog.universes[typeKey(t)]
}

// pushCall starts executing fn on st.
func (e *Engine) pushCall(st *State, fn *ssa.Function, args []*Term, bindings []*Term, call ssa.CallInstruction) *Frame {
	in := e.info(fn)
	f := &Frame{fn: fn, info: in, regs: make([]*Term, len(in.values)), block: fn.Blocks[0], call: call}
	for i, p := range fn.Params {
		if i < len(args) {
			f.regs[in.index[p]] = args[i]
		} else {
			f.regs[in.index[p]] = newSym(p.Name(), p.Type())
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bindings) {
			f.regs[in.index[p]] = bindings[i]
		} else {
			f.regs[in.index[p]] = newSym(p.Name(), p.Type())
		}
	}
	e.fnsSeen[fn] = true
	st.frames = append(st.frames, f)
	return f
}

var (
	started   = time.Now()
	curReport *Report
)

// enough says whether to stop: what was found answers the question, or the
// time is up.
func enough() bool {
	t := time.Since(started)
	if curReport == nil {
		return false
	}
	if len(curReport.findings) > 0 {
		return t > 60*time.Second
	}
	if t > 780*time.Second {
		curReport.fail("undecided", "time limit", "-", "the analysis did not end within its time limit")
		return true
	}
	return false
}

// Run explores every path from the given states.
func (e *Engine) Run(states ...*State) {
	begun := time.Now()
	work := states
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for st != nil {
			e.steps++
			if e.halt {
				return
			}
			if e.steps%64 == 0 && (enough() || e.budget > 0 && time.Since(begun) > e.budget) {
				if !enough() {
					e.cantDecide(0, "time limit of one function")
				}
				return
			}
			if e.arrivals > e.maxStates || e.steps > 60*e.maxStates {
				e.cantDecide(0, "state limit reached")
				return
			}
			next := e.step(st)
			switch len(next) {
			case 0:
				st = nil
			case 1:
				st = next[0]
			default:
				e.forks += len(next) - 1
				st = next[0]
				work = append(work, next[1:]...)
			}
		}
	}
}

func (st *State) val(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			if !isNilable(v.Type()) {
				return zeroOf(v.Type())
			}
			return nilTerm
		}
		if v.Value.Kind() == constant.Int || v.Value.Kind() == constant.Float {
			if isIntType(v.Type()) {
				return mkConst(constant.ToInt(v.Value), v.Type())
			}
		}
		return mkConst(v.Value, v.Type())
	case *ssa.Function:
		return T.intern(&Term{op: OFunc, fn: v, typ: v.Type()})
	case *ssa.Global:
		return T.intern(&Term{op: OGlobal, g: v, typ: v.Type()})
	case *ssa.Builtin:
		return newSym("builtin", nil)
	}
	f := st.top()
	k, ok := f.info.index[v]
	if !ok {
		return newSym("unknown", v.Type())
	}
	t := f.regs[k]
	if t == nil {
		t = newSym(v.Name(), v.Type())
		f.regs[k] = t
	}
	return t
}

func (st *State) set(v ssa.Value, t *Term) {
	f := st.top()
	f.regs[f.info.index[v]] = t
}

func (e *Engine) step(st *State) []*State {
	if len(st.frames) == 0 || st.stop {
		return nil
	}
	f := st.top()
	if f.unwinding != 0 {
		return e.unwind(st)
	}
	ins := f.block.Instrs[f.idx]
	if p := ins.Pos(); p != 0 {
		if n := len(st.trail); n == 0 || st.trail[n-1] != p {
			if n >= 40 {
				st.trail = append(st.trail[:0:0], st.trail[n-20:]...)
			}
			st.trail = append(st.trail, p)
		}
	}
	switch ins := ins.(type) {
	case *ssa.If:
		c := st.val(ins.Cond)
		switch st.eval(c) {
		case yes:
			return e.jump(st, f.block.Succs[0])
		case no:
			return e.jump(st, f.block.Succs[1])
		}
		other := st.fork()
		blk := f.block
		var out []*State
		if st.assume(c, true) {
			out = append(out, e.jump(st, blk.Succs[0])...)
		}
		if other.assume(c, false) {
			out = append(out, e.jump(other, blk.Succs[1])...)
		}
		return out
	case *ssa.Jump:
		return e.jump(st, f.block.Succs[0])
	case *ssa.Return:
		var ret *Term
		switch len(ins.Results) {
		case 0:
			ret = nil
		case 1:
			ret = st.val(ins.Results[0])
		default:
			var rs []*Term
			for _, r := range ins.Results {
				rs = append(rs, st.val(r))
			}
			ret = T.intern(&Term{op: OTuple, args: rs, typ: f.fn.Signature.Results()})
		}
		return e.doReturn(st, ret)
	case *ssa.Panic:
		return e.startPanic(st, st.val(ins.X))
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			f.unwinding = 1
			return []*State{st}
		}
		f.idx++
		return []*State{st}
	case *ssa.Defer:
		ci := e.resolve(st, ins)
		f.defers = append(f.defers, deferred{ins, ci})
		f.idx++
		return []*State{st}
	case *ssa.Go:
		if e.onGo != nil {
			e.onGo(st, ins)
		} else {
			e.cantDecide(ins.Pos(), "go statement")
		}
		f.idx++
		return []*State{st}
	case *ssa.Call:
		ci := e.resolve(st, ins)
		return e.call(st, ci)
	}
	f.idx++
	outs := e.simple(st, ins)
	return outs
}

func (e *Engine) doReturn(st *State, ret *Term) []*State {
	f := st.top()
	if f.onReturn != nil {
		ret = f.onReturn(st, ret)
		if st.stop {
			return nil
		}
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		if e.onExit != nil {
			return e.onExit(st, ret, nil)
		}
		return nil
	}
	if f.isDefer {
		p := st.top()
		if p.unwinding == 2 && f.recovered {
			// The frame below recovered: it returns to its caller.
			st.panics = st.panics[:len(st.panics)-1]
			p.unwinding = 3 // run the remaining defers, then return
		}
		return []*State{st}
	}
	c := st.top()
	if v, ok := f.call.(*ssa.Call); ok && ret != nil {
		st.set(v, ret)
	}
	c.idx++
	return []*State{st}
}

func (e *Engine) startPanic(st *State, v *Term) []*State {
	st.panics = append(st.panics, v)
	st.top().unwinding = 2
	return []*State{st}
}

// unwind runs deferred calls of the top frame.
func (e *Engine) unwind(st *State) []*State {
	f := st.top()
	if n := len(f.defers); n > 0 {
		d := f.defers[n-1]
		f.defers = f.defers[:n-1]
		return e.callDeferred(st, d.ci)
	}
	switch f.unwinding {
	case 1:
		f.unwinding = 0
		f.idx++
		return []*State{st}
	case 3:
		f.unwinding = 0
		if f.fn.Recover != nil {
			f.prev, f.block, f.idx = f.block, f.fn.Recover, 0
			return []*State{st}
		}
		var ret *Term
		res := f.fn.Signature.Results()
		switch res.Len() {
		case 0:
		case 1:
			ret = zeroOf(res.At(0).Type())
		default:
			var rs []*Term
			for i := 0; i < res.Len(); i++ {
				rs = append(rs, zeroOf(res.At(i).Type()))
			}
			ret = T.intern(&Term{op: OTuple, args: rs, typ: res})
		}
		return e.doReturn(st, ret)
	}
	// Panicking: leave this frame.
	st.frames = st.frames[:len(st.frames)-1]
	if f.isDefer && len(st.frames) > 0 && st.top().unwinding != 0 {
		// A deferred call panicked; the new panic replaces the old one.
		p := st.top()
		if p.unwinding == 2 && len(st.panics) >= 2 {
			st.panics = append(st.panics[:len(st.panics)-2], st.panics[len(st.panics)-1])
		}
		p.unwinding = 2
		return []*State{st}
	}
	if len(st.frames) == 0 {
		if e.onExit != nil {
			return e.onExit(st, nil, st.panics[len(st.panics)-1])
		}
		return nil
	}
	st.top().unwinding = 2
	return []*State{st}
}

func (e *Engine) callDeferred(st *State, ci *callInfo) []*State {
	base := len(st.frames)
	outs := e.callWith(st, ci, true)
	for _, o := range outs {
		if len(o.frames) > base {
			o.top().isDefer = true
		}
	}
	return outs
}

// resolve evaluates the callee and arguments of a call.
func (e *Engine) resolve(st *State, ins ssa.CallInstruction) *callInfo {
	c := ins.Common()
	ci := &callInfo{instr: ins, pos: ins.Pos(), typ: c.Signature().Results()}
	if v := ins.Value(); v != nil {
		ci.typ = v.Type()
	}
	if c.IsInvoke() {
		recv := st.val(c.Value)
		ci.method = c.Method
		ci.args = append(ci.args, recv)
	} else {
		switch v := c.Value.(type) {
		case *ssa.Function:
			ci.fn = v
		case *ssa.Builtin:
		default:
			ci.clo = st.val(v)
		}
	}
	for _, a := range c.Args {
		ci.args = append(ci.args, st.val(a))
	}
	return ci
}

func (e *Engine) call(st *State, ci *callInfo) []*State { return e.callWith(st, ci, false) }

func (e *Engine) callWith(st *State, ci *callInfo, isDefer bool) []*State {
	finish := func(outs []Outcome) []*State {
		var res []*State
		for _, o := range outs {
			if o.st.stop {
				continue
			}
			if o.ret == reenter {
				// The model pushed a frame; the call is made again when it is done.
				res = append(res, o.st)
				continue
			}
			if o.panic != nil {
				res = append(res, e.startPanicDefer(o.st, o.panic, isDefer)...)
				continue
			}
			if !isDefer {
				f := o.st.top()
				if v, ok := ci.instr.(*ssa.Call); ok && o.ret != nil {
					o.st.set(v, o.ret)
				}
				f.idx++
			}
			res = append(res, o.st)
		}
		return res
	}
	if b, ok := ci.instr.Common().Value.(*ssa.Builtin); ok {
		return finish(e.builtin(st, ci, b))
	}
	if ci.method != nil && ci.fn == nil {
		recv := ci.args[0]
		if st.isNil(recv) == yes {
			return finish([]Outcome{{st: st, panic: newSym("nil-method-call", nil)}})
		}
		var conc types.Type
		if recv.op == OIface {
			conc = recv.typ2
		} else if f, ok := st.facts.types[recv]; ok && f.is != nil {
			conc = f.is
		} else if ts := st.typesOf(recv); len(ts) == 1 {
			conc = ts[0]
		}
		if e.onMayPanic != nil {
			e.onMayPanic(st, ci.instr, "nil-call", st.isNil(recv) == no)
		}
		if conc != nil {
			if fn := e.prog.ssa.LookupMethod(conc, ci.method.Pkg(), ci.method.Name()); fn != nil {
				ci.fn = fn
				args := append([]*Term{st.dataOf(recv, conc)}, ci.args[1:]...)
				ci.args = args
			}
		} else if e.onDispatch != nil {
			if ok, outs := e.onDispatch(st, ci); ok {
				return finish(outs)
			}
		}
	}
	var bindings []*Term
	if ci.clo != nil && ci.fn == nil {
		switch ci.clo.op {
		case OFunc:
			ci.fn = ci.clo.fn
		case OClosure:
			ci.fn = ci.clo.fn
			bindings = ci.clo.args
		}
	}
	if e.onCall != nil {
		if ok, outs := e.onCall(st, ci); ok {
			return finish(outs)
		}
	}
	if ci.fn != nil && e.canInline(ci.fn) {
		for _, f := range st.frames {
			if f.fn == ci.fn && f.unwinding == 0 {
				if e.onRecurse != nil {
					if ok, outs := e.onRecurse(st, ci); ok {
						return finish(outs)
					}
				}
				e.cantDecide(ci.pos, "recursive call of %s", ci.fn)
				return finish(e.opaque(st, ci))
			}
		}
		if len(st.frames) > 40 {
			e.cantDecide(ci.pos, "call depth")
			return nil
		}
		e.pushCall(st, ci.fn, ci.args, bindings, ci.instr)
		if isDefer {
			st.top().call = nil
		}
		return []*State{st}
	}
	if outs := e.extern(st, ci); outs != nil {
		return finish(outs)
	}
	return finish(e.opaque(st, ci))
}

func (e *Engine) startPanicDefer(st *State, v *Term, isDefer bool) []*State {
	if isDefer {
		p := st.top()
		if p.unwinding == 2 && len(st.panics) > 0 {
			st.panics = st.panics[:len(st.panics)-1]
		}
		st.panics = append(st.panics, v)
		p.unwinding = 2
		return []*State{st}
	}
	return e.startPanic(st, v)
}

func (e *Engine) canInline(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if e.inlineFn != nil {
		return e.inlineFn(fn)
	}
	return e.prog.ours(fn)
}

func (e *Engine) opaque(st *State, ci *callInfo) []Outcome {
	name := "?"
	if ci.fn != nil {
		name = ci.fn.String()
	} else if ci.method != nil {
		name = ci.method.FullName()
	}
	e.unmodelled[name]++
	return []Outcome{{st: st, ret: opaqueResult(name, ci.typ)}}
}

func opaqueResult(name string, typ types.Type) *Term {
	if typ == nil {
		return nil
	}
	if tup, ok := typ.(*types.Tuple); ok {
		var rs []*Term
		for i := 0; i < tup.Len(); i++ {
			rs = append(rs, newSym(fmt.Sprintf("%s.%d", name, i), tup.At(i).Type()))
		}
		return T.intern(&Term{op: OTuple, args: rs, typ: typ})
	}
	return newSym(name, typ)
}

// dataOf returns the concrete value in interface value x of dynamic type t.
func (st *State) dataOf(x *Term, t types.Type) *Term {
	if x.op == OIface {
		return x.args[0]
	}
	return T.intern(&Term{op: OData, args: []*Term{x}, typ: t, n: typeID(t)})
}

func mkIface(v *Term, t types.Type) *Term {
	if v.op == OData && v.n == typeID(t) {
		return v.args[0]
	}
	return T.intern(&Term{op: OIface, args: []*Term{v}, typ2: t})
}

func (e *Engine) mayPanic(st *State, ins ssa.Instruction, kind string, proven bool) {
	if e.onMayPanic != nil {
		e.onMayPanic(st, ins, kind, proven)
	}
}

// reenter marks an outcome whose state has a new frame on top.
var reenter = &Term{op: OSym, name: "reenter"}

// jump moves to block b, evaluating its phis.
func (e *Engine) jump(st *State, b *ssa.BasicBlock) []*State {
	f := st.top()
	from := f.block
	pi := -1
	for i, p := range b.Preds {
		if p == from {
			pi = i
			break
		}
	}
	// Both branches of an If may lead to b: pick by the successor's order.
	var vals []*Term
	n := 0
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals = append(vals, st.val(phi.Edges[pi]))
		n++
	}
	for i := 0; i < n; i++ {
		st.set(b.Instrs[i].(*ssa.Phi), vals[i])
	}
	f.prev, f.block, f.idx = from, b, n
	if f.info.header[b] || f.info.join[b] {
		if e.onArrive != nil {
			e.onArrive(st, b, f.info.header[b])
		}
		if !e.arrive(st, f.info.header[b]) {
			return nil
		}
	}
	return []*State{st}
}

// simple executes an instruction without control transfer.
func (e *Engine) simple(st *State, ins ssa.Instruction) []*State {
	one := []*State{st}
	switch ins := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		o := newObj(ins.Comment, ins.Type(), ins.Pos())
		st.set(ins, o)
	case *ssa.BinOp:
		st.set(ins, e.binop(st, ins))
	case *ssa.UnOp:
		x := st.val(ins.X)
		switch ins.Op {
		case token.MUL:
			e.mayPanic(st, ins, "nil-deref", st.isNil(x) == no)
			st.assumeNil(x, false)
			v := st.load(x, ins.Type())
			st.set(ins, v)
			if e.onElem != nil && v.op == OIdx {
				return e.onElem(st, ins, v)
			}
		case token.NOT:
			st.set(ins, notTerm(x))
		case token.SUB:
			if isIntType(ins.Type()) {
				st.set(ins, lin{nil, 0}.add(toLin(x), -1).term(ins.Type()))
			} else {
				st.set(ins, ext("neg", ins.Type(), x))
			}
		default:
			st.set(ins, ext("unop"+ins.Op.String(), ins.Type(), x))
			if ins.Op == token.ARROW {
				e.cantDecide(ins.Pos(), "channel receive")
				st.set(ins, newSym("recv", ins.Type()))
			}
		}
	case *ssa.ChangeType:
		st.set(ins, st.val(ins.X))
	case *ssa.ChangeInterface:
		x := st.val(ins.X)
		if x.op != OIface && x.op != ONil && x.typ != nil && typeKey(x.typ) != typeKey(ins.Type()) && e.universeOf(x.typ) == nil {
			// keep identity
		}
		st.set(ins, x)
	case *ssa.Convert:
		st.set(ins, e.convert(st, st.val(ins.X), ins.X.Type(), ins.Type()))
	case *ssa.MakeInterface:
		st.set(ins, mkIface(st.val(ins.X), ins.X.Type()))
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range ins.Bindings {
			bs = append(bs, st.val(b))
		}
		st.set(ins, T.intern(&Term{op: OClosure, fn: ins.Fn.(*ssa.Function), args: bs, typ: ins.Type()}))
	case *ssa.MakeMap:
		o := newObj("map", ins.Type(), ins.Pos())
		st.heap[o] = mapEmpty
		st.set(ins, o)
	case *ssa.MakeSlice:
		n := st.val(ins.Len)
		var c *Term
		if k, ok := n.intVal(); ok && k <= 16 {
			var es []*Term
			for i := int64(0); i < k; i++ {
				es = append(es, zeroOf(elemType(ins.Type())))
			}
			c = mkSeq(es...)
		} else {
			s := newSym("zeros", ins.Type())
			c = mkSeq(mkSeg(s, mkInt(0), n))
		}
		e.mayPanic(st, ins, "make-len", st.provesLE(lin{nil, 0}.add(toLin(n), -1)))
		if k, ok := n.intVal(); ok && k == 0 {
			// make([]T, 0, n): not nil, but empty.
			arr := newObj("array", types.NewPointer(ins.Type()), ins.Pos())
			st.heap[arr] = c
			st.set(ins, mkSlice(arr, mkInt(0), mkInt(0), ins.Type()))
			break
		}
		st.set(ins, st.newSlice(c, ins.Type()))
	case *ssa.MakeChan:
		e.cantDecide(ins.Pos(), "channel")
		st.set(ins, newObj("chan", ins.Type(), ins.Pos()))
	case *ssa.Slice:
		return e.slice(st, ins)
	case *ssa.FieldAddr:
		x := st.val(ins.X)
		e.mayPanic(st, ins, "nil-deref", st.isNil(x) == no)
		st.assumeNil(x, false)
		if x.typ == nil {
			x2 := *x
			_ = x2
		}
		t := mkField(x, ins.Field)
		if t.typ == nil {
			t.typ = ins.Type()
		}
		st.set(ins, t)
	case *ssa.Field:
		st.set(ins, fieldOf(st.val(ins.X), ins.Field, ins.Type()))
	case *ssa.IndexAddr:
		x := st.val(ins.X)
		i := st.val(ins.Index)
		var arr, n *Term
		at := i
		if p, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			arr = x
			n = mkInt(p.Elem().Underlying().(*types.Array).Len())
		} else {
			var lo *Term
			if x.op == ONil {
				e.mayPanic(st, ins, "index", false)
				return nil
			}
			arr, lo, _ = sliceParts(x)
			n = mkLen(x)
			at = add(lo, i)
		}
		e.checkIndex(st, ins, i, n)
		t := T.intern(&Term{op: OElem, args: []*Term{arr, at}, typ: ins.Type()})
		st.set(ins, t)
	case *ssa.Index:
		x, i := st.val(ins.X), st.val(ins.Index)
		if x.op == OSeq {
			k, _, _ := st.locate(x, i)
			e.checkIndex(st, ins, i, seqLen(x))
			if k >= 0 && x.args[k].op != OSeg {
				st.set(ins, x.args[k])
				break
			}
			st.set(ins, ext("elem", ins.Type(), x, i))
			break
		}
		e.checkIndex(st, ins, i, mkLen(x))
		if s, ok := st.knownStr(x); ok {
			if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(s) {
				st.set(ins, mkInt(int64(s[k])))
				break
			}
		}
		st.set(ins, byteAt(x, i))
	case *ssa.Lookup:
		return e.lookup(st, ins)
	case *ssa.MapUpdate:
		m := st.val(ins.Map)
		if e.onMap != nil {
			e.onMap(st, ins, m)
		}
		e.mayPanic(st, ins, "nil-map", st.isNil(m) == no || m.op == OObj)
		loc := mapLoc(m)
		if l := st.top().info.copyLoop(ins); l != nil {
			// All of one map is put in another.
			if coll := st.heap[st.val(l.Iter)]; coll != nil {
				st.heap[loc] = mapMerge(st.mapContent(m), st.mapContent(coll))
				f := st.top()
				f.block = l.Block()
				return e.jump(st, l.Block().Succs[1])
			}
		}
		st.heap[loc] = mapPut(st.mapContent(m), st.val(ins.Key), st.val(ins.Value))
	case *ssa.Range:
		o := newObj("iter", nil, ins.Pos())
		x := st.val(ins.X)
		st.heap[o] = x
		if _, ok := ins.X.Type().Underlying().(*types.Map); ok && e.onMapRange != nil {
			e.onMapRange(st, ins, x)
		}
		st.set(ins, o)
	case *ssa.Next:
		it := st.val(ins.Iter)
		coll := st.heap[it]
		tup := ins.Type().(*types.Tuple)
		done := st.fork()
		k := newSym("key", tup.At(1).Type())
		v := newSym("val", tup.At(2).Type())
		end := T.intern(&Term{op: OTuple, args: []*Term{falseT, zeroOrNil(tup.At(1).Type()), zeroOrNil(tup.At(2).Type())}, typ: tup})
		done.set(ins, end)
		if coll != nil && coll.op == OMap {
			if coll == mapEmpty {
				return []*State{done}
			}
			st.heap[it] = without(coll.args[0], coll.args[1])
			st.set(ins, T.intern(&Term{op: OTuple, args: []*Term{trueT, coll.args[1], coll.args[2]}, typ: tup}))
			return one
		}
		if coll != nil && !ins.IsString {
			c := st.mapContent(coll)
			if n := constMap(c); e.unrollMaps && n > 0 && n <= 16 && !st.top().info.isCopyLoop(ins) {
				// a known table: its entries one after the other
				st.heap[it] = c
				return e.simple(st, ins)
			}
			if c == mapEmpty {
				return []*State{done}
			}
			if st.top().info.isCopyLoop(ins) {
				st.set(ins, T.intern(&Term{op: OTuple, args: []*Term{trueT, k, v}, typ: tup}))
				return one
			}
			// the value is the map's value for this key
			if _, bad := tup.At(2).Type().(*types.Basic); !bad || tup.At(2).Type() != types.Typ[types.Invalid] {
				st.facts.bools[ext("has", tBool, c, k)] = true
				v = ext("lookup", tup.At(2).Type(), c, k)
			}
		}
		if ins.IsString {
			st.restrictInt(k, rng(0, posInf))
			v = newSym("rune", tRune)
			st.restrictInt(v, rng(0, 0x10FFFF))
			if coll != nil && st.provesLE(toLin(mkLen(coll))) {
				return []*State{done}
			}
		}
		st.set(ins, T.intern(&Term{op: OTuple, args: []*Term{trueT, k, v}, typ: tup}))
		return []*State{st, done}
	case *ssa.TypeAssert:
		return e.typeAssert(st, ins)
	case *ssa.Extract:
		x := st.val(ins.Tuple)
		if x.op == OTuple {
			st.set(ins, x.args[ins.Index])
		} else {
			st.set(ins, fieldOf(x, ins.Index, ins.Type()))
		}
	case *ssa.Store:
		addr := st.val(ins.Addr)
		val := st.val(ins.Val)
		e.mayPanic(st, ins, "nil-deref", st.isNil(addr) == no)
		if e.onStore != nil {
			e.onStore(st, ins, addr, val)
		}
		st.store(addr, val, ins.Val.Type())
	case *ssa.Send, *ssa.Select:
		e.cantDecide(ins.Pos(), "channel operation")
		if v, ok := ins.(ssa.Value); ok {
			st.set(v, opaqueResult("select", v.Type()))
		}
	case *ssa.SliceToArrayPointer, *ssa.MultiConvert:
		v := ins.(ssa.Value)
		st.set(v, newSym("conv", v.Type()))
	default:
		e.cantDecide(ins.Pos(), "instruction %T", ins)
	}
	return one
}

func zeroOrNil(t types.Type) *Term {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nilTerm
	}
	return zeroOf(t)
}

func (e *Engine) checkIndex(st *State, ins ssa.Instruction, i, n *Term) {
	lo := lin{nil, 0}.add(toLin(i), -1)
	hi := toLin(i).add(toLin(n), -1).add(lin{nil, 1}, 1)
	e.mayPanic(st, ins, "index", st.provesLE(lo) && st.provesLE(hi))
	st.addLE(lo)
	st.addLE(hi)
}

func (e *Engine) slice(st *State, ins *ssa.Slice) []*State {
	x := st.val(ins.X)
	opt := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return st.val(v)
	}
	zero := mkInt(0)
	check := func(lo, hi, n *Term) {
		a := lin{nil, 0}.add(toLin(lo), -1)
		b := toLin(lo).add(toLin(hi), -1)
		c := toLin(hi).add(toLin(n), -1)
		e.mayPanic(st, ins, "slice", st.provesLE(a) && st.provesLE(b) && st.provesLE(c))
		st.addLE(a)
		st.addLE(b)
		st.addLE(c)
	}
	switch t := ins.X.Type().Underlying().(type) {
	case *types.Pointer:
		n := mkInt(t.Elem().Underlying().(*types.Array).Len())
		lo, hi := opt(ins.Low, zero), opt(ins.High, n)
		check(lo, hi, n)
		st.set(ins, mkSlice(x, lo, hi, ins.Type()))
	case *types.Basic:
		n := mkLen(x)
		if s, ok := st.knownStr(x); ok {
			n = mkInt(int64(len(s)))
		}
		lo, hi := opt(ins.Low, zero), opt(ins.High, n)
		check(lo, hi, n)
		st.set(ins, st.substr(x, lo, hi))
	default:
		if x.op == ONil {
			lo, hi := opt(ins.Low, zero), opt(ins.High, zero)
			check(lo, hi, zero)
			st.set(ins, nilTerm)
			break
		}
		arr, l0, _ := sliceParts(x)
		n := mkLen(x)
		lo, hi := opt(ins.Low, zero), opt(ins.High, n)
		check(lo, hi, n)
		st.set(ins, mkSlice(arr, add(l0, lo), add(l0, hi), ins.Type()))
	}
	return []*State{st}
}

func (st *State) substr(x, lo, hi *Term) *Term {
	if s, ok := st.knownStr(x); ok {
		a, ok1 := lo.intVal()
		b, ok2 := hi.intVal()
		if ok1 && ok2 && a >= 0 && a <= b && int(b) <= len(s) {
			return mkStr(s[a:b])
		}
	}
	if z, ok := lo.intVal(); ok && z == 0 && hi == mkLen(x) {
		return x
	}
	if x.op == OExt && x.name == "substr" {
		return ext("substr", tString, x.args[0], add(x.args[1], lo), add(x.args[1], hi))
	}
	return ext("substr", tString, x, lo, hi)
}

func (e *Engine) typeAssert(st *State, ins *ssa.TypeAssert) []*State {
	if e.onAssert == nil {
		return e.typeAssert1(st, ins)
	}
	var out []*State
	for _, s := range e.onAssert(st, st.val(ins.X)) {
		out = append(out, e.typeAssert1(s, ins)...)
	}
	return out
}

func (e *Engine) typeAssert1(st *State, ins *ssa.TypeAssert) []*State {
	x := st.val(ins.X)
	t := ins.AssertedType
	res := func(s *State) *Term {
		if types.IsInterface(t) {
			return x
		}
		return s.dataOf(x, t)
	}
	if !ins.CommaOk {
		v := st.hasType(x, t)
		e.mayPanic(st, ins, "type-assert", v == yes)
		if v == no {
			return e.startPanic(st, newSym("type-assertion-failed", nil))
		}
		if !st.assumeType(x, t, true) {
			return nil
		}
		st.set(ins, res(st))
		return []*State{st}
	}
	tup := func(s *State, ok bool) {
		var v *Term
		if ok {
			v = res(s)
		} else {
			v = zeroOf(t)
		}
		s.set(ins, T.intern(&Term{op: OTuple, args: []*Term{v, mkBool(ok)}, typ: ins.Type()}))
	}
	switch st.hasType(x, t) {
	case yes:
		tup(st, true)
		return []*State{st}
	case no:
		tup(st, false)
		return []*State{st}
	}
	other := st.fork()
	var out []*State
	if st.assumeType(x, t, true) {
		tup(st, true)
		out = append(out, st)
	}
	if other.assumeType(x, t, false) {
		tup(other, false)
		out = append(out, other)
	}
	return out
}

// ---- maps ----

var mapEmpty = mk(OMap, nil, "empty", 0)

// mapMerge is map m with everything in n put in it.
func mapMerge(m, n *Term) *Term {
	if n == mapEmpty {
		return m
	}
	if m == mapEmpty {
		return n
	}
	if constMap(n) > 0 {
		var ps []*Term
		for d := n; d.name == "put"; d = d.args[0] {
			ps = append(ps, d)
		}
		for i := len(ps) - 1; i >= 0; i-- {
			m = mapPut(m, ps[i].args[1], ps[i].args[2])
		}
		return m
	}
	return mk(OMap, nil, "merge", 0, m, n)
}

func mapPut(m, k, v *Term) *Term { return mk(OMap, nil, "put", 0, m, k, v) }
func mapDel(m, k *Term) *Term    { return mk(OMap, nil, "del", 0, m, k) }

func mapLoc(m *Term) *Term {
	if m.op == OObj {
		return m
	}
	return mk(OArr, nil, "map", 0, m)
}

func (st *State) mapContent(m *Term) *Term {
	if m.op == ONil {
		return mapEmpty
	}
	if c, ok := st.heap[mapLoc(m)]; ok {
		return c
	}
	if loc := mapLoc(m); loc.op == OArr && (st.clobbered[clobKey(loc)] || st.clobbered["any"]) {
		c := mk(OMap, nil, "init", 0, newSym("clobbered", m.typ))
		st.heap[loc] = c
		return c
	}
	return mk(OMap, nil, "init", 0, m)
}

// lookupIn finds key k in map contents c: value and presence.
func (st *State) lookupIn(c, k *Term, typ types.Type) (v *Term, has *Term) {
	for d := c; ; {
		switch d.name {
		case "empty":
			return zeroOf(typ), falseT
		case "put":
			switch st.evalEq(d.args[1], k) {
			case yes:
				return d.args[2], trueT
			case no:
				d = d.args[0]
				continue
			}
		case "del":
			switch st.evalEq(d.args[1], k) {
			case yes:
				return zeroOf(typ), falseT
			case no:
				d = d.args[0]
				continue
			}
		}
		return ext("lookup", typ, d, k), ext("has", tBool, d, k)
	}
}

// replaceMap is map contents m with the contents old they build on replaced.
func (t *Terms) replaceMap(m, old, by *Term) *Term {
	if m == old {
		return by
	}
	args := append([]*Term{t.replaceMap(m.args[0], old, by)}, m.args[1:]...)
	return mk(OMap, nil, m.name, 0, args...)
}

// deletes says whether something is taken out of the map again.
func deletes(m *Term) bool {
	for ; m.name == "put" || m.name == "del"; m = m.args[0] {
		if m.name == "del" {
			return true
		}
	}
	return false
}

// constMap counts the entries of a map whose keys are all known constants; 0
// if they are not.
func constMap(c *Term) int {
	n := 0
	for ; c.name == "put"; c = c.args[0] {
		if !c.args[1].isConst() {
			return 0
		}
		n++
	}
	if c.name != "empty" {
		return 0
	}
	return n
}

// without is the known table c without key k.
func without(c, k *Term) *Term {
	if c == mapEmpty {
		return c
	}
	if c.args[1] == k {
		return without(c.args[0], k)
	}
	return mapPut(without(c.args[0], k), c.args[1], c.args[2])
}

func (e *Engine) lookup(st *State, ins *ssa.Lookup) []*State {
	x, k := st.val(ins.X), st.val(ins.Index)
	if _, ok := ins.X.Type().Underlying().(*types.Basic); ok {
		e.checkIndex(st, ins, k, mkLen(x))
		if s, ok := st.knownStr(x); ok {
			if i, ok := k.intVal(); ok && i >= 0 && int(i) < len(s) {
				st.set(ins, mkInt(int64(s[i])))
				return []*State{st}
			}
		}
		st.set(ins, byteAt(x, k))
		return []*State{st}
	}
	typ := ins.X.Type().Underlying().(*types.Map).Elem()
	c := st.mapContent(x)
	put := func(s *State, v, ok *Term) {
		if e.onLookup != nil {
			b, _ := ok.boolVal()
			e.onLookup(s, ins, x, k, b)
		}
		if ins.CommaOk {
			s.set(ins, T.intern(&Term{op: OTuple, args: []*Term{v, ok}, typ: ins.Type()}))
		} else {
			s.set(ins, v)
		}
	}
	if n := constMap(c); n > 1 && n <= 64 && !k.isConst() {
		// A table: one case for each of its keys.
		var out []*State
		rest := st
		for d := c; d.name == "put"; d = d.args[0] {
			kc := d.args[1]
			switch rest.evalEq(kc, k) {
			case no:
				continue
			case yes:
				put(rest, d.args[2], trueT)
				return append(out, rest)
			}
			hit := rest.fork()
			if hit.assume(eqTerm(k, kc), true) {
				put(hit, d.args[2], trueT)
				out = append(out, hit)
			}
			if !rest.assume(eqTerm(k, kc), false) {
				return out
			}
		}
		put(rest, zeroOf(typ), falseT)
		return append(out, rest)
	}
	var out []*State
	rest := []*State{st}
	for c != nil && len(rest) > 0 {
		under := c
		for under.name == "put" || under.name == "del" {
			under = under.args[0]
		}
		top := c
		c = nil
		if under.name == "merge" {
			// what was put in last comes first
			top, c = T.replaceMap(top, under, under.args[1]), under.args[0]
		}
		s := rest[0]
		v, has := s.lookupIn(top, k, typ)
		if c != nil && !deletes(top) {
			switch s.eval(has) {
			case yes:
				put(s, v, trueT)
				return append(out, s)
			case no:
				continue
			}
			hit := s.fork()
			if hit.assume(has, true) {
				put(hit, v, trueT)
				out = append(out, hit)
			}
			if !s.assume(has, false) {
				return out
			}
			continue
		}
		switch s.eval(has) {
		case yes:
			put(s, v, trueT)
			return append(out, s)
		case no:
			put(s, zeroOf(typ), falseT)
			return append(out, s)
		}
		other := s.fork()
		if s.assume(has, true) {
			put(s, v, trueT)
			out = append(out, s)
		}
		if other.assume(has, false) {
			put(other, zeroOf(typ), falseT)
			out = append(out, other)
		}
		return out
	}
	return out
}

// ---- operators ----

func (e *Engine) binop(st *State, ins *ssa.BinOp) *Term {
	a, b := st.val(ins.X), st.val(ins.Y)
	return st.binopT(ins.Op, a, b, ins.X.Type(), ins.Type())
}

func (st *State) binopT(op token.Token, a, b *Term, opTyp, typ types.Type) *Term {
	if a.op == OConst && b.op == OConst {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return mkBool(constant.Compare(a.c, op, b.c))
		case token.SHL, token.SHR:
			if n, ok := constant.Uint64Val(b.c); ok && n < 64 {
				return mkConst(constant.Shift(a.c, op, uint(n)), typ)
			}
		case token.QUO:
			if isIntType(typ) {
				if constant.Sign(b.c) != 0 {
					return mkConst(constant.BinaryOp(a.c, token.QUO_ASSIGN, b.c), typ)
				}
				break
			}
			return mkConst(constant.BinaryOp(a.c, op, b.c), typ)
		case token.REM:
			if constant.Sign(b.c) == 0 {
				break
			}
			return mkConst(constant.BinaryOp(a.c, op, b.c), typ)
		case token.ADD:
			if a.c.Kind() == constant.String {
				return mkStr(constant.StringVal(a.c) + constant.StringVal(b.c))
			}
			return mkConst(constant.BinaryOp(a.c, op, b.c), typ)
		default:
			return mkConst(constant.BinaryOp(a.c, op, b.c), typ)
		}
	}
	isInt := isIntType(opTyp)
	switch op {
	case token.ADD:
		if isInt {
			return toLin(a).add(toLin(b), 1).term(typ)
		}
		if isStringTerm(a) || isStringTerm(b) {
			return mkConcat(a, b)
		}
	case token.SUB:
		if isInt {
			return toLin(a).add(toLin(b), -1).term(typ)
		}
	case token.MUL:
		if isInt {
			if k, ok := a.intVal(); ok {
				return lin{nil, 0}.add(toLin(b), k).term(typ)
			}
			if k, ok := b.intVal(); ok {
				return lin{nil, 0}.add(toLin(a), k).term(typ)
			}
		}
	case token.EQL, token.NEQ:
		var r *Term
		if basic, ok := basicOf(opTyp); ok && basic.Info()&types.IsBoolean != 0 {
			if v, ok := a.boolVal(); ok {
				a, b = b, a
				_ = v
			}
			if v, ok := b.boolVal(); ok {
				r = a
				if !v {
					r = notTerm(a)
				}
			}
		}
		if r == nil {
			switch st.evalEq(a, b) {
			case yes:
				r = trueT
			case no:
				r = falseT
			default:
				r = eqTerm(a, b)
			}
		}
		if op == token.NEQ {
			return notTerm(r)
		}
		return r
	case token.LSS:
		if isInt {
			return ltTerm(a, b)
		}
	case token.GTR:
		if isInt {
			return ltTerm(b, a)
		}
	case token.LEQ:
		if isInt {
			return leTerm(a, b)
		}
	case token.GEQ:
		if isInt {
			return leTerm(b, a)
		}
	case token.AND:
		if isInt {
			for _, x := range []*Term{a, b} {
				if k, ok := x.intVal(); ok && k >= 0 {
					r := ext("op&", typ, a, b)
					st.facts.ints[r] = rng(0, k)
					return r
				}
			}
		}
	case token.REM:
		if k, ok := b.intVal(); ok && k > 0 && isInt {
			r := ext("op%", typ, a, b)
			lo := -(k - 1)
			if st.provesLE(lin{nil, 0}.add(toLin(a), -1)) {
				lo = 0
			}
			st.facts.ints[r] = st.intSet(r).inter(rng(lo, k-1))
			return r
		}
	case token.QUO:
		if k, ok := b.intVal(); ok && k > 0 && isInt {
			r := ext("op/", typ, a, b)
			s := st.intSet(a)
			if !s.empty() && s.min() >= 0 {
				hi := s.max()
				if hi < posInf {
					hi /= k
				}
				st.facts.ints[r] = rng(0, hi)
				// k*r <= a <= k*r + k-1
				kr := lin{nil, 0}.add(toLin(r), k)
				st.facts.rel = append(st.facts.rel, kr.add(toLin(a), -1).term(tInt),
					toLin(a).add(kr, -1).add(lin{nil, -(k - 1)}, 1).term(tInt))
			}
			return r
		}
	}
	return ext("op"+op.String(), typ, a, b)
}

func (e *Engine) convert(st *State, x *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		// Sizes: only widening or rune/int/byte conversions occur.
		if v, ok := x.intVal(); ok {
			return mkConst(constant.MakeInt64(v), to)
		}
		fb, _ := basicOf(from)
		tb, _ := basicOf(to)
		if sizeOf(tb) >= sizeOf(fb) {
			return x
		}
		lo, hi := rangeOf(tb)
		if st.intSet(x).subsetOf(rng(lo, hi)) {
			return x
		}
		return T.intern(&Term{op: OConv, args: []*Term{x}, typ: to})
	}
	fs, ts := from.Underlying(), to.Underlying()
	if b, ok := ts.(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if isIntType(from) {
			if v, ok := x.intVal(); ok {
				return mkStr(string(rune(v)))
			}
			return ext("rune2str", to, x)
		}
		if sl, ok := fs.(*types.Slice); ok {
			c := st.content(x)
			if len(c.args) == 0 {
				return mkStr("")
			}
			allConst := true
			var rs []rune
			for _, p := range c.args {
				if v, ok := p.intVal(); ok && p.op == OConst {
					rs = append(rs, rune(v))
				} else {
					allConst = false
				}
			}
			if allConst && elemType(sl) != nil && isRuneType(sl.Elem()) {
				return mkStr(string(rs))
			}
			name := "runes2str"
			if !isRuneType(sl.Elem()) {
				name = "bytes2str"
			}
			return ext(name, to, c)
		}
		return x
	}
	if sl, ok := ts.(*types.Slice); ok && isStringTerm(x) {
		if s, ok := st.knownStr(x); ok {
			var es []*Term
			if isRuneType(sl.Elem()) {
				for _, r := range s {
					es = append(es, mkInt(int64(r)))
				}
			} else {
				for i := 0; i < len(s); i++ {
					es = append(es, mkInt(int64(s[i])))
				}
			}
			return st.newSlice(mkSeq(es...), to)
		}
		if isRuneType(sl.Elem()) {
			s := ext("str2runes", to, x)
			return s
		}
		return ext("str2bytes", to, x)
	}
	return T.intern(&Term{op: OConv, args: []*Term{x}, typ: to})
}

func isRuneType(t types.Type) bool {
	b, ok := basicOf(t)
	return ok && b.Kind() == types.Int32
}

func sizeOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

func rangeOf(b *types.Basic) (int64, int64) {
	switch b.Kind() {
	case types.Int8:
		return -128, 127
	case types.Uint8:
		return 0, 255
	case types.Int16:
		return -32768, 32767
	case types.Uint16:
		return 0, 65535
	case types.Int32:
		return -1 << 31, 1<<31 - 1
	case types.Uint32:
		return 0, 1<<32 - 1
	}
	return negInf, posInf
}

// ---- builtins ----

func (e *Engine) builtin(st *State, ci *callInfo, b *ssa.Builtin) []Outcome {
	one := func(t *Term) []Outcome { return []Outcome{{st: st, ret: t}} }
	switch b.Name() {
	case "len":
		x := ci.args[0]
		if s, ok := st.knownStr(x); ok {
			return one(mkInt(int64(len(s))))
		}
		if x.op == OObj { // a map
			if c := st.mapContent(x); c == mapEmpty {
				return one(mkInt(0))
			}
			return one(mkLen(st.mapContent(x)))
		}
		if x.op == OSeq {
			return one(seqLen(x))
		}
		if x.typ != nil {
			if _, ok := x.typ.Underlying().(*types.Map); ok {
				return one(mkLen(st.mapContent(x)))
			}
			if p, ok := x.typ.Underlying().(*types.Pointer); ok {
				if a, ok := p.Elem().Underlying().(*types.Array); ok {
					return one(mkInt(a.Len()))
				}
			}
		}
		return one(mkLen(x))
	case "cap":
		s := newSym("cap", tInt)
		st.facts.rel = append(st.facts.rel, sub(mkLen(ci.args[0]), s))
		return one(s)
	case "append":
		s, x := ci.args[0], ci.args[1]
		if isStringTerm(x) {
			return one(newSym("append", ci.typ))
		}
		xs := st.content(x)
		ret := st.appendSeq(s, xs, ci.typ)
		if e.onAppend != nil {
			return e.onAppend(st, ci, s, xs, ret)
		}
		return one(ret)
	case "copy":
		dst, src := ci.args[0], ci.args[1]
		if dst.op != ONil {
			arr, lo, hi := sliceParts(dst)
			if !isStringTerm(src) && mkLen(dst) == mkLen(src) {
				all := st.arrayContent(arr)
				front, rest := st.split(all, lo)
				if front != nil {
					if _, back := st.split(rest, sub(hi, lo)); back != nil {
						st.heap[arr] = mkSeq(front, st.content(src), back)
						return one(mkLen(dst))
					}
				}
			}
			if !isStringTerm(src) {
				if c := st.copyInto(arr, lo, hi, src); c {
					return one(newSym("copied", tInt))
				}
			}
			if !isStringTerm(src) && src.op != ONil && st.lessEq(mkLen(dst), mkLen(src)) {
				sarr, slo, _ := sliceParts(src)
				if c := st.copyInto(arr, lo, hi, mkSlice(sarr, slo, add(slo, sub(hi, lo)), src.typ)); c {
					return one(mkLen(dst))
				}
			}
			n := seqLen(st.arrayContent(arr))
			st.heap[arr] = mkSeq(mkSeg(newSym("content", nil), mkInt(0), n))
		}
		return one(newSym("copied", tInt))
	case "delete":
		m, k := ci.args[0], ci.args[1]
		if e.onMap != nil {
			if ins, ok := ci.instr.(ssa.Instruction); ok {
				e.onMap(st, ins, m)
			}
		}
		st.heap[mapLoc(m)] = mapDel(st.mapContent(m), k)
		return one(nil)
	case "recover":
		return e.recoverCall(st)
	case "print", "println":
		return one(nil)
	case "ssa:wrapnilchk":
		return one(ci.args[0])
	case "close":
		e.cantDecide(ci.pos, "close")
		return one(nil)
	case "panic":
		return []Outcome{{st: st, panic: ci.args[0]}}
	}
	if ci.typ != nil {
		if t, ok := ci.typ.(*types.Tuple); ok && t.Len() == 0 {
			return one(nil)
		}
		return one(newSym(b.Name(), ci.typ))
	}
	return one(nil)
}

// copyInto models copy(dst, src) when src is provably shorter.
func (st *State) copyInto(arr, lo, hi, src *Term) bool {
	n := mkLen(src)
	if !st.provesLE(toLin(n).add(toLin(sub(hi, lo)), -1)) {
		return false
	}
	all := st.arrayContent(arr)
	front, rest := st.split(all, lo)
	if front == nil {
		return false
	}
	_, back := st.split(rest, n)
	if back == nil {
		return false
	}
	st.heap[arr] = mkSeq(front, st.content(src), back)
	return true
}

func (e *Engine) recoverCall(st *State) []Outcome {
	f := st.top()
	if f.isDefer && len(st.frames) >= 2 && len(st.panics) > 0 {
		p := st.frames[len(st.frames)-2]
		if p.unwinding == 2 && !f.recovered {
			f.recovered = true
			return []Outcome{{st: st, ret: st.panics[len(st.panics)-1]}}
		}
	}
	return []Outcome{{st: st, ret: nilTerm}}
}

func posString(p *Program, pos token.Pos) string {
	if pos == 0 {
		return "?"
	}
	ps := p.fset.Position(pos)
	name := ps.Filename
	if i := strings.LastIndex(name, p.dir+"/"); i == 0 {
		name = name[len(p.dir)+1:]
	}
	return fmt.Sprintf("%s:%d:%d", name, ps.Line, ps.Column)
}
