package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C14"] = checkC14
}

const FlowRule = "dataflow over the SSA form of the whole repository (static call graph, field-based aliasing)"

// printEntry is the printer's entry and its receiver's struct.
func (p *Program) printEntry() (fn *ssa.Function, printer *types.Named) {
	fn = p.fn("format", "Printer.PrintTree")
	if fn == nil {
		return nil, nil
	}
	return fn, namedOf(fn.Signature.Recv().Type())
}

func (r *Report) sawFns(fns []*ssa.Function) {
	for _, f := range fns {
		r.fns[f.String()] = true
	}
	r.count("functions_analysed", len(fns))
}

// ---- C14: no writes to shared state ----

func (p *Program) shared(g *callGraph, printer *types.Named) *sharing {
	st := printer.Underlying().(*types.Struct)
	given := map[*types.Var]string{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Exported() && !f.Embedded() && isRef(f.Type()) {
			given[f] = "the caller's " + f.Name()
		}
	}
	return p.sharedValues(g, func(gl *ssa.Global) string {
		if gl.Pkg == nil || !p.ourPkg(gl.Pkg.Pkg) || gl.Pkg == p.pkgs["cljfmt"] || strings.HasPrefix(gl.Name(), "init$") {
			return ""
		}
		return "the package-level variable " + gl.Pkg.Pkg.Name() + "." + gl.Name()
	}, func(v *types.Var) string { return given[v] })
}

func checkC14(p *Program, r *Report) {
	r.rule("no instruction reachable from PrintTree, Reader or File writes (store, map update, delete, append in place, sorting) anything that package-level variables or the settings maps given by the caller refer to")
	entry, printer := p.printEntry()
	if entry == nil {
		r.fail("anchor", "PrintTree", "-", "(*Printer).PrintTree not found")
		return
	}
	g := p.callGraph()
	s := p.shared(g, printer)
	fns := g.reach(entry, p.pkgs["parse"].Func("Reader"), p.pkgs["parse"].Func("File"), p.pkgs["format"].Func("NewPrinter"))
	r.sawFns(fns)
	writes := 0
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins.(type) {
				case *ssa.Store, *ssa.MapUpdate, ssa.CallInstruction:
					writes++
				}
			}
		}
	}
	r.count("writes_and_calls_examined", writes)
	r.count("shared_values_tracked", len(s.val))
	reportMutations(p, r, s, fns)
	r.need("functions_analysed", 40)
	r.need("shared_values_tracked", 5)
}

func reportMutations(p *Program, r *Report, s *sharing, fns []*ssa.Function) {
	for _, m := range s.mutations(fns) {
		var names []string
		for n := range m.what {
			names = append(names, n)
		}
		sort.Strings(names)
		r.fail("shared-write", fnName(m.fn)+":"+names[0], posString(p, m.ins.Pos()), "%s %s what %s refers to", fnName(m.fn), m.how, strings.Join(names, ", "))
	}
}

// ---- C12: positions never influence the output ----

func checkC12(p *Program, r *Report) {
	r.rule("a value read from a position (the Pos object of a node, its fields, or a method of it) in any function reachable from PrintTree flows only into the position of another node or into an error on a path that ends in a panic; no node is handed to reflective formatting elsewhere")
	entry, _ := p.printEntry()
	m := p.nodes()
	if entry == nil || m.pos == nil {
		r.fail("anchor", "PrintTree", "-", "(*Printer).PrintTree or parse.Pos not found")
		return
	}
	g := p.callGraph()
	fns := g.reach(entry)
	in := map[*ssa.Function]bool{}
	for _, f := range fns {
		in[f] = true
	}
	// Taint: values that depend on a position.
	taint := map[ssa.Value]bool{}
	retTaint := map[*ssa.Function]bool{}
	isPos := func(t types.Type) bool { return types.Identical(t, m.pos) || types.Identical(t, pointee(m.pos)) }
	nodeLike := func(t types.Type) bool {
		return types.Implements(t, m.iface.Underlying().(*types.Interface))
	}
	reads := 0
	work := true
	mark := func(v ssa.Value) {
		if v != nil && !taint[v] {
			taint[v] = true
			work = true
		}
	}
	bad := func(fn *ssa.Function, ins ssa.Instruction, what string) {
		r.fail("position-flow", fnName(fn)+":"+what, posString(p, ins.Pos()), "a node's position influences what %s does (%s)", fnName(fn), what)
	}
	for work {
		work = false
		reads = 0
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if v, ok := ins.(ssa.Value); ok {
						// Sources.
						if isPos(v.Type()) {
							if _, alloc := ins.(*ssa.Alloc); !alloc {
								reads++
								mark(v)
							}
						}
						if mi, ok := ins.(*ssa.MakeInterface); ok && isPos(mi.X.Type()) {
							mark(v)
						}
					}
					tainted := false
					for _, op := range ins.Operands(nil) {
						tainted = tainted || taint[*op]
					}
					if !tainted {
						continue
					}
					switch ins := ins.(type) {
					case *ssa.UnOp, *ssa.BinOp, *ssa.Phi, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.Index, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface,
						*ssa.MakeInterface, *ssa.TypeAssert, *ssa.Extract, *ssa.Slice, *ssa.Lookup, *ssa.Range, *ssa.Next:
						if u, ok := ins.(*ssa.UnOp); ok && taint[u.X] || !ok {
							mark(ins.(ssa.Value))
						}
					case *ssa.Return:
						if !retTaint[fn] {
							retTaint[fn] = true
							work = true
						}
					}
					if c, ok := ins.(*ssa.Call); ok {
						for _, f := range g.sites[c] {
							if in[f] {
								for i, a := range callArgs(c) {
									if taint[a] && i < len(f.Params) {
										mark(f.Params[i])
									}
								}
							}
						}
						if len(g.sites[c]) == 0 {
							mark(c)
						}
					}
				}
			}
		}
		// Results of functions that return positions.
		for _, fn := range fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if c, ok := ins.(*ssa.Call); ok {
						for _, f := range g.sites[c] {
							if retTaint[f] {
								mark(c)
							}
						}
					}
				}
			}
		}
	}
	r.sawFns(fns)
	r.count("position_values", reads)
	r.count("values_depending_on_positions", len(taint))
	sinks := 0
	for _, fn := range fns {
		if neverReturns(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			if doomed(b) {
				continue
			}
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.If:
					sinks++
					if taint[ins.Cond] {
						bad(fn, ins, "a branch")
					}
				case *ssa.Store:
					sinks++
					if !taint[ins.Val] {
						break
					}
					if isPos(ins.Val.Type()) {
						if fa, ok := ins.Addr.(*ssa.FieldAddr); ok && structOf(pointee(fa.X.Type())) != nil {
							break // given to another node
						}
						if _, ok := ins.Addr.(*ssa.Alloc); ok {
							break
						}
					}
					if isLocalVarargs(ins.Addr) {
						break // judged at the call
					}
					bad(fn, ins, "a store")
				case *ssa.MapUpdate:
					sinks++
					if taint[ins.Key] || taint[ins.Value] {
						bad(fn, ins, "a map entry")
					}
				case *ssa.Call:
					sinks++
					for _, a := range callArgs(ins) {
						if taint[a] && len(g.sites[ins]) == 0 && !pureCalls[calleeName(ins.Common())] {
							bad(fn, ins, "a call of "+calleeName(ins.Common()))
						}
						if len(g.sites[ins]) == 0 {
							if v := reflected(a); v != nil && nodeLike(v.Type()) && !strings.HasPrefix(calleeName(ins.Common()), "builtin.") {
								bad(fn, ins, "a node given to "+calleeName(ins.Common()))
							}
						}
					}
					if ins.Common().IsInvoke() && taint[ins.Common().Value] && len(g.sites[ins]) == 0 {
						bad(fn, ins, "a call of "+calleeName(ins.Common()))
					}
				case *ssa.Return:
					if !taintedAny(taint, ins.Results) {
						break
					}
					if fn == entry || g.escapes[fn] && !isPos(fn.Signature.Results().At(0).Type()) {
						bad(fn, ins, "the result")
					}
				case *ssa.IndexAddr:
					if taint[ins.Index] {
						bad(fn, ins, "an index")
					}
				case *ssa.Slice:
					if taint[ins.Low] || taint[ins.High] {
						bad(fn, ins, "a slice bound")
					}
				}
			}
		}
	}
	r.count("sinks_examined", sinks)
	r.need("functions_analysed", 40)
	r.need("sinks_examined", 200)
}

func taintedAny(t map[ssa.Value]bool, vs []ssa.Value) bool {
	for _, v := range vs {
		if t[v] {
			return true
		}
	}
	return false
}

// pureCalls only compute; what becomes of the result is followed.
var pureCalls = map[string]bool{"fmt.Sprintf": true, "fmt.Sprint": true, "fmt.Errorf": true, "strings.Repeat": true, "builtin.len": true, "builtin.append": true, "builtin.cap": true, "errors.New": true, "strconv.Itoa": true}

func callArgs(c ssa.CallInstruction) []ssa.Value {
	cm := c.Common()
	if cm.IsInvoke() {
		return append([]ssa.Value{cm.Value}, cm.Args...)
	}
	return cm.Args
}

// isLocalVarargs says whether addr lies in a local array made for a call.
func isLocalVarargs(addr ssa.Value) bool {
	ia, ok := addr.(*ssa.IndexAddr)
	if !ok {
		return false
	}
	_, ok = ia.X.(*ssa.Alloc)
	return ok
}

// reflected is the value a call's argument may show by reflection: an
// interface made from it, directly or as an element of variadic arguments.
func reflected(a ssa.Value) ssa.Value {
	if mi, ok := a.(*ssa.MakeInterface); ok {
		return mi.X
	}
	if sl, ok := a.(*ssa.Slice); ok {
		if al, ok := sl.X.(*ssa.Alloc); ok {
			for _, ref := range *al.Referrers() {
				ia, ok := ref.(*ssa.IndexAddr)
				if !ok {
					continue
				}
				for _, r2 := range *ia.Referrers() {
					if st, ok := r2.(*ssa.Store); ok {
						switch v := st.Val.(type) {
						case *ssa.MakeInterface:
							return v.X
						case *ssa.ChangeInterface:
							return v.X
						}
					}
				}
			}
		}
	}
	return nil
}

// ---- C13: determinism ----

// nondeterministic functions by prefix of their full name.
var nondetCalls = []string{"time.", "(time.", "math/rand.", "(*math/rand.", "crypto/rand.", "math/rand/v2.", "os.Getenv", "os.LookupEnv", "os.Environ", "os.Getpid", "os.Getwd", "os.Hostname",
	"runtime.", "maps.Keys", "maps.Values", "maps.All", "(reflect.Value).MapKeys", "(reflect.Value).MapRange", "(*reflect.MapIter)", "os.Stat", "os.ReadDir", "os.ReadFile", "os.Open", "(*sync.Map).Range", "(*sync.Pool)", "hash/maphash."}

func checkC13(p *Program, r *Report) {
	r.rule("in every function reachable from PrintTree: each range over a map has a body whose effects do not depend on the order (writes keyed by the range key, constant flags, deletions, slices sorted by a total order before use); no clock, randomness, environment, goroutine, select or address is consulted; every unexported field of the printer that formatting writes is given a fresh value before it is read; no package-level state is written")
	entry, printer := p.printEntry()
	if entry == nil {
		r.fail("anchor", "PrintTree", "-", "(*Printer).PrintTree not found")
		return
	}
	g := p.callGraph()
	fns := g.reach(entry)
	r.sawFns(fns)
	reportMutations(p, r, p.shared(g, printer), fns)
	eff := &effects{p: p, g: g}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Go, *ssa.Select, *ssa.Send:
					r.fail("concurrency", fnName(fn), posString(p, ins.Pos()), "%s uses goroutines or channels: the order of what they do is not determined", fnName(fn))
				case *ssa.Convert:
					if bt, ok := ins.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						r.fail("address", fnName(fn), posString(p, ins.Pos()), "%s computes with an address", fnName(fn))
					}
				case *ssa.Range:
					if _, ok := ins.X.Type().Underlying().(*types.Map); ok {
						r.count("map_ranges", 1)
						if why := eff.orderMatters(fn, ins); why != "" {
							r.fail("map-order", fnName(fn), posString(p, ins.Pos()), "what %s does depends on the iteration order of a map: %s", fnName(fn), why)
						}
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					name := calleeName(c.Common())
					for _, pre := range nondetCalls {
						if strings.HasPrefix(name, pre) && !(strings.HasSuffix(pre, ".") && strings.Contains(strings.TrimPrefix(name, pre), "/")) {
							r.fail("nondeterminism", fnName(fn)+":"+name, posString(p, ins.Pos()), "%s calls %s", fnName(fn), name)
						}
					}
					r.count("calls_examined", 1)
				}
			}
		}
	}
	carryOver(p, r, g, entry, printer)
	r.need("functions_analysed", 40)
	r.need("map_ranges", 5)
}

type effects struct {
	p *Program
	g *callGraph
	// writes, per function, through which parameters memory may be written
	// (bit i), bit 62: anything else
	memo map[*ssa.Function]uint64
}

const otherWrites = uint64(1) << 62

// rootParam finds the parameter a value is read from, following loads.
func rootParam(v ssa.Value, seen map[ssa.Value]bool) (params map[ssa.Value]bool, other bool) {
	params = map[ssa.Value]bool{}
	var rec func(v ssa.Value)
	rec = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter, *ssa.FreeVar:
			params[x] = true
		case *ssa.FieldAddr:
			rec(x.X)
		case *ssa.IndexAddr:
			rec(x.X)
		case *ssa.Field:
			rec(x.X)
		case *ssa.UnOp:
			if al, ok := x.X.(*ssa.Alloc); ok {
				// a local variable: what was stored there
				for _, ref := range *al.Referrers() {
					if st, ok := ref.(*ssa.Store); ok && st.Addr == al {
						rec(st.Val)
					}
				}
				return
			}
			rec(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				rec(e)
			}
		case *ssa.Lookup:
			rec(x.X)
		case *ssa.Extract:
			rec(x.Tuple)
		case *ssa.Next:
			rec(x.Iter)
		case *ssa.Range:
			rec(x.X)
		case *ssa.TypeAssert:
			rec(x.X)
		case *ssa.ChangeType:
			rec(x.X)
		case *ssa.ChangeInterface:
			rec(x.X)
		case *ssa.MakeInterface:
			rec(x.X)
		case *ssa.Slice:
			rec(x.X)
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Const, *ssa.MakeClosure, *ssa.Function:
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				rec(x.Call.Args[0])
				return
			}
			other = true
		default:
			other = true
		}
	}
	rec(v)
	return
}

// writes summarises what fn may write: through its parameters, or elsewhere.
func (e *effects) writes(fn *ssa.Function) uint64 {
	if e.memo == nil {
		e.memo = map[*ssa.Function]uint64{}
	}
	if v, ok := e.memo[fn]; ok {
		return v
	}
	e.memo[fn] = 0
	for {
		w := e.writes1(fn)
		if w == e.memo[fn] {
			return w
		}
		e.memo[fn] = w
	}
}

func (e *effects) bits(fn *ssa.Function, v ssa.Value) uint64 {
	params, other := rootParam(v, map[ssa.Value]bool{})
	var w uint64
	if other {
		w |= otherWrites
	}
	for pv := range params {
		found := false
		for i, q := range fn.Params {
			if q == pv {
				w |= 1 << uint(i)
				found = true
			}
		}
		if !found {
			w |= otherWrites
		}
	}
	if _, ok := v.(*ssa.Global); ok {
		w |= otherWrites
	}
	return w
}

func (e *effects) writes1(fn *ssa.Function) uint64 {
	var w uint64
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			w |= e.insWrites(fn, ins)
		}
	}
	return w
}

func (e *effects) insWrites(fn *ssa.Function, ins ssa.Instruction) uint64 {
	switch ins := ins.(type) {
	case *ssa.Store:
		if baseLocal(ins.Addr) {
			return 0
		}
		return e.bits(fn, ins.Addr)
	case *ssa.MapUpdate:
		return e.bits(fn, ins.Map)
	case *ssa.Send, *ssa.Go, *ssa.Select, *ssa.Defer:
		return otherWrites
	case *ssa.Call:
		cm := ins.Common()
		if bi, ok := cm.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "delete", "copy", "clear":
				return e.bits(fn, cm.Args[0])
			case "append", "len", "cap", "print", "recover", "panic", "ssa:wrapnilchk", "min", "max":
				return 0
			}
			return otherWrites
		}
		var w uint64
		sites := e.g.sites[ins]
		for _, f := range sites {
			cw := e.writes(f)
			w |= cw & otherWrites
			for i, a := range callArgs(ins) {
				if cw&(1<<uint(i)) != 0 {
					w |= e.bits(fn, a)
				}
			}
		}
		if len(sites) == 0 {
			name := calleeName(cm)
			if mutators[name] {
				return e.bits(fn, cm.Args[0])
			}
			if !purePkg(name) {
				return otherWrites
			}
		}
		return w
	}
	return 0
}

// purePkg says whether a function of the standard library has no effects.
func purePkg(name string) bool {
	for _, pre := range []string{"strings.", "unicode.", "unicode/utf8.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.", "math.", "bytes.Equal", "bytes.Compare", "path/filepath.Ext", "path/filepath.Join", "path/filepath.Base", "bytes.Index", "bytes.Has"} {
		if strings.HasPrefix(name, pre) {
			return true
		}
	}
	return false
}

// loopBlocks is the natural loop headed by h.
func loopBlocks(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, pr := range h.Preds {
		if h.Dominates(pr) && !in[pr] {
			in[pr] = true
			work = append(work, pr)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, pr := range b.Preds {
			if !in[pr] {
				in[pr] = true
				work = append(work, pr)
			}
		}
	}
	return in
}

// orderMatters says why the loop over rng may do different things for
// different iteration orders, or "".
func (e *effects) orderMatters(fn *ssa.Function, rng *ssa.Range) string {
	var next *ssa.Next
	for _, ref := range *rng.Referrers() {
		if n, ok := ref.(*ssa.Next); ok {
			next = n
		}
	}
	if next == nil {
		return ""
	}
	var key, val ssa.Value
	for _, ref := range *next.Referrers() {
		if x, ok := ref.(*ssa.Extract); ok {
			switch x.Index {
			case 1:
				key = x
			case 2:
				val = x
			}
		}
	}
	return e.loopOrder(fn, next.Block(), next, key, val, 0)
}

// loopOrder says why the loop headed by head may do different things for
// different orders of the elements seed ranges over, or "". Different
// iterations have different keys.
func (e *effects) loopOrder(fn *ssa.Function, head *ssa.BasicBlock, seed, key, val ssa.Value, depth int) string {
	in := loopBlocks(head)
	// varies: values that depend on the iteration.
	varies := map[ssa.Value]bool{}
	for ch := true; ch; {
		ch = false
		for b := range in {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || varies[v] {
					continue
				}
				dep := v == seed
				for _, op := range ins.Operands(nil) {
					dep = dep || varies[*op]
				}
				if ph, ok := v.(*ssa.Phi); ok && b != head && !dep {
					// Chosen by a branch inside the loop.
					same := true
					for _, ed := range ph.Edges {
						same = same && ed == ph.Edges[0]
					}
					dep = !same
				}
				if _, ok := v.(*ssa.UnOp); ok && !dep && loadsWritten(ins.(*ssa.UnOp), in) {
					dep = true
				}
				if dep {
					varies[v] = true
					ch = true
				}
			}
		}
	}
	isKey := func(v ssa.Value) bool {
		for {
			switch x := v.(type) {
			case *ssa.Convert:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			default:
				return v == key
			}
		}
	}
	ofVal := func(v ssa.Value) bool { // reached only through this entry's value
		if val == nil {
			return false
		}
		seen := map[ssa.Value]bool{}
		var rec func(v ssa.Value) bool
		rec = func(v ssa.Value) bool {
			if v == val {
				return true
			}
			if seen[v] {
				return true
			}
			seen[v] = true
			switch x := v.(type) {
			case *ssa.FieldAddr:
				return rec(x.X)
			case *ssa.IndexAddr:
				return rec(x.X)
			case *ssa.Field:
				return rec(x.X)
			case *ssa.UnOp:
				if x.Op == token.MUL {
					return rec(x.X)
				}
			case *ssa.Lookup:
				return rec(x.X)
			case *ssa.Extract:
				return rec(x.Tuple)
			case *ssa.Next:
				return rec(x.Iter)
			case *ssa.Range:
				return rec(x.X)
			case *ssa.Alloc:
				return in[x.Block()]
			}
			return false
		}
		return rec(v)
	}
	cells := map[*ssa.Alloc][]ssa.Value{}
	var maps, mapReads []ssa.Value // maps the loop changes, and reads at other keys
	for b := range in {
		// An early way out must not tell entries apart.
		for _, s := range b.Succs {
			if in[s] || b == head || doomed(s) {
				continue
			}
			if why := earlyExit(b, s, varies, in); why != "" {
				return why
			}
		}
		if doomed(b) {
			continue
		}
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Phi:
				if b != head {
					continue
				}
				if why := e.phiOrder(ins, in, varies, depth); why != "" {
					return why
				}
			case *ssa.MapUpdate:
				inner := in[blockOf(ins.Map)] && isAllocated(ins.Map)
				if inner || ofVal(ins.Map) {
					continue
				}
				maps = append(maps, ins.Map)
				if isKey(ins.Key) {
					continue
				}
				if !varies[ins.Value] {
					continue // the set of keys written does not depend on the order
				}
				return "an entry written under a key that different iterations may share"
			case *ssa.Store:
				if baseLocal(ins.Addr) {
					al := localAlloc(ins.Addr)
					if al != nil && in[al.Block()] {
						continue
					}
					if whole := ins.Addr == ssa.Value(al); al != nil && whole {
						cells[al] = append(cells[al], ins.Val)
						continue
					}
					if !varies[ins.Val] {
						continue
					}
					return "a variable that keeps the value of the last iteration"
				}
				if ofVal(ins.Addr) {
					continue
				}
				if !varies[ins.Val] && !varies[ins.Addr] {
					continue
				}
				return "a store of a value that depends on the iteration"
			case *ssa.Call:
				cm := ins.Common()
				if bi, ok := cm.Value.(*ssa.Builtin); ok {
					if bi.Name() == "delete" {
						if !ofVal(cm.Args[0]) {
							maps = append(maps, cm.Args[0])
						}
						continue
					}
					if bi.Name() == "len" {
						if _, ok := cm.Args[0].Type().Underlying().(*types.Map); ok {
							mapReads = append(mapReads, cm.Args[0])
						}
					}
					if bi.Name() == "append" || bi.Name() == "len" || bi.Name() == "cap" {
						continue
					}
				}
				w := e.insWrites(fn, ins)
				if w == 0 {
					continue
				}
				// Writes only to this entry's value are independent.
				ok := len(e.g.sites[ins]) > 0
				for _, f := range e.g.sites[ins] {
					cw := e.writes(f)
					if cw&otherWrites != 0 {
						ok = false
					}
					for i, a := range callArgs(ins) {
						if cw&(1<<uint(i)) != 0 && !ofVal(a) {
							ok = false
						}
					}
				}
				if ok {
					continue
				}
				return "a call with effects (" + calleeName(cm) + ")"
			case *ssa.Lookup:
				if _, ok := ins.X.Type().Underlying().(*types.Map); ok && !isKey(ins.Index) {
					mapReads = append(mapReads, ins.X)
				}
			case *ssa.Range:
				if _, ok := ins.X.Type().Underlying().(*types.Map); ok {
					mapReads = append(mapReads, ins.X)
				}
			case *ssa.Go, *ssa.Defer, *ssa.Send, *ssa.Select:
				return "a deferred or concurrent call"
			}
		}
	}
	for _, m := range maps {
		for _, rd := range mapReads {
			if samePlace(m, rd, 0) {
				return "entries one iteration changes are read by another"
			}
		}
	}
	for al, stored := range cells {
		if why := e.cellOrder(al, stored, in, varies, depth); why != "" {
			return why
		}
	}
	return ""
}

// samePlace says whether two values are read from the same place.
func samePlace(a, b ssa.Value, depth int) bool {
	if a == b {
		return true
	}
	if depth > 8 {
		return true
	}
	switch x := a.(type) {
	case *ssa.UnOp:
		if y, ok := b.(*ssa.UnOp); ok && x.Op == y.Op {
			return samePlace(x.X, y.X, depth+1)
		}
	case *ssa.FieldAddr:
		if y, ok := b.(*ssa.FieldAddr); ok && x.Field == y.Field {
			return samePlace(x.X, y.X, depth+1)
		}
	case *ssa.Field:
		if y, ok := b.(*ssa.Field); ok && x.Field == y.Field {
			return samePlace(x.X, y.X, depth+1)
		}
	case *ssa.Lookup:
		if y, ok := b.(*ssa.Lookup); ok {
			return samePlace(x.X, y.X, depth+1)
		}
	case *ssa.Extract:
		if y, ok := b.(*ssa.Extract); ok && x.Index == y.Index {
			return samePlace(x.Tuple, y.Tuple, depth+1)
		}
	}
	return false
}

// cellOrder checks a variable (one that closures share, say) the loop writes.
func (e *effects) cellOrder(al *ssa.Alloc, stored []ssa.Value, in map[*ssa.BasicBlock]bool, varies map[ssa.Value]bool, depth int) string {
	isLoad := func(v ssa.Value) bool {
		u, ok := v.(*ssa.UnOp)
		return ok && u.Op == token.MUL && u.X == al
	}
	consts := map[string]bool{}
	adds, apps := 0, 0
	for _, v := range stored {
		switch x := v.(type) {
		case *ssa.Const:
			consts[x.String()] = true
			continue
		case *ssa.BinOp:
			if commutes(x) && (isLoad(x.X) || isLoad(x.Y)) {
				adds++
				continue
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && isLoad(x.Call.Args[0]) {
				apps++
				continue
			}
		}
		if varies[v] {
			return "a variable that keeps the value of the last iteration"
		}
		consts[v.String()] = true
	}
	switch {
	case apps > 0:
		if adds > 0 || len(consts) > 0 {
			return "a list built in iteration order"
		}
		return e.unordered([]ssa.Value{al}, in, depth)
	case adds > 0 && len(consts) > 0, len(consts) > 1:
		return "a flag set to different values by different entries"
	}
	return ""
}

func commutes(x *ssa.BinOp) bool {
	return (x.Op == token.ADD || x.Op == token.OR || x.Op == token.AND || x.Op == token.XOR || x.Op == token.MUL) && isNumeric(x.Type())
}

func localAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func blockOf(v ssa.Value) *ssa.BasicBlock {
	if i, ok := v.(ssa.Instruction); ok {
		return i.Block()
	}
	return nil
}

func isAllocated(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc:
		return true
	}
	return false
}

// loadsWritten says whether a load reads a local variable written in the loop.
func loadsWritten(u *ssa.UnOp, in map[*ssa.BasicBlock]bool) bool {
	al := localAlloc(u.X)
	if al == nil {
		return false
	}
	for _, ref := range *al.Referrers() {
		if st, ok := ref.(*ssa.Store); ok && in[st.Block()] {
			return true
		}
	}
	return false
}

// earlyExit checks a way out of the loop from b to s.
func earlyExit(b, s *ssa.BasicBlock, varies map[ssa.Value]bool, in map[*ssa.BasicBlock]bool) string {
	for _, ins := range s.Instrs {
		if ph, ok := ins.(*ssa.Phi); ok {
			for i, pr := range s.Preds {
				if pr == b && varies[ph.Edges[i]] {
					return "the loop is left with a value of the entry it stopped at"
				}
			}
			continue
		}
		if ret, ok := ins.(*ssa.Return); ok {
			for _, v := range ret.Results {
				if varies[v] {
					return "a value of the entry the loop stopped at is returned"
				}
			}
		}
	}
	// Values of the loop used after it.
	for blk := range in {
		for _, ins := range blk.Instrs {
			v, ok := ins.(ssa.Value)
			if !ok || !varies[v] {
				continue
			}
			if ph, isPhi := v.(*ssa.Phi); isPhi && len(ph.Edges) > 0 {
				continue // judged as an accumulator
			}
			for _, ref := range *v.Referrers() {
				if rb := ref.Block(); rb != nil && !in[rb] && !doomed(rb) {
					if _, isPhi := ref.(*ssa.Phi); isPhi {
						continue
					}
					return "a value of the entry the loop stopped at is used after it"
				}
			}
		}
	}
	return ""
}

// phiOrder checks a value carried from one iteration to the next.
func (e *effects) phiOrder(ph *ssa.Phi, in map[*ssa.BasicBlock]bool, varies map[ssa.Value]bool, depth int) string {
	// Find what is fed back.
	var back []ssa.Value
	seen := map[ssa.Value]bool{ph: true}
	var collect func(v ssa.Value)
	collect = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if q, ok := v.(*ssa.Phi); ok && in[q.Block()] {
			for _, ed := range q.Edges {
				collect(ed)
			}
			return
		}
		back = append(back, v)
	}
	for i, pr := range ph.Block().Preds {
		if in[pr] {
			collect(ph.Edges[i])
		}
	}
	if len(back) == 0 {
		return ""
	}
	consts := map[string]bool{}
	adds, apps, others := 0, 0, 0
	for _, v := range back {
		switch x := v.(type) {
		case *ssa.Const:
			consts[x.String()] = true
		case *ssa.BinOp:
			if commutes(x) && (seen[x.X] || seen[x.Y]) {
				adds++
			} else {
				others++
			}
		case *ssa.Call:
			if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" && seen[x.Call.Args[0]] {
				apps++
			} else if bi, ok := x.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
				// append to something derived from the accumulator
				apps++
			} else {
				others++
			}
		default:
			if !varies[v] {
				consts[v.String()] = true
			} else {
				others++
			}
		}
	}
	switch {
	case others > 0:
		return "a value carried from one iteration to the next"
	case apps > 0:
		if adds > 0 || len(consts) > 0 {
			return "a list built in iteration order"
		}
		if why := e.unordered(append([]ssa.Value{ph}, back...), in, depth); why != "" {
			return why
		}
	case adds > 0 && len(consts) > 0, len(consts) > 1:
		return "a flag set to different values by different entries"
	}
	return ""
}

func isNumeric(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// unordered checks a list whose elements are in an order that is not
// determined: it must be sorted, by a total order, before anything looks at
// it, or be used only as a set. in is the loop that built it, if any.
func (e *effects) unordered(vals []ssa.Value, in map[*ssa.BasicBlock]bool, depth int) string {
	const why = "a list built in iteration order is used without sorting it"
	if depth > 4 {
		return why
	}
	type use struct {
		ins ssa.Instruction
		why string
	}
	var sorts []ssa.Instruction
	var uses []use
	seen := map[ssa.Value]bool{}
	for len(vals) > 0 {
		v := vals[0]
		vals = vals[1:]
		if seen[v] || v.Referrers() == nil {
			continue
		}
		seen[v] = true
		for _, ref := range *v.Referrers() {
			if in[ref.Block()] {
				switch x := ref.(type) {
				case *ssa.Call:
					if bi, ok := x.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "append" || bi.Name() == "len") {
						continue
					}
				case *ssa.Phi, *ssa.DebugRef:
					continue
				case *ssa.Store:
					if _, ok := v.(*ssa.Alloc); ok && x.Addr == v {
						continue
					}
					if al, ok := x.Addr.(*ssa.Alloc); ok && seen[al] {
						continue
					}
				case *ssa.UnOp:
					if _, ok := v.(*ssa.Alloc); ok {
						vals = append(vals, x)
						continue
					}
				}
				return why
			}
			switch x := ref.(type) {
			case *ssa.DebugRef:
			case *ssa.ChangeType, *ssa.MakeInterface, *ssa.Phi:
				vals = append(vals, ref.(ssa.Value))
			case *ssa.UnOp:
				vals = append(vals, x)
			case *ssa.Store:
				al, ok := x.Addr.(*ssa.Alloc)
				switch {
				case x.Addr == v:
				case ok:
					vals = append(vals, al)
				default:
					uses = append(uses, use{ref, why})
				}
			case *ssa.MakeClosure:
				if _, ok := v.(*ssa.Alloc); !ok || !onlySorts(e, x) {
					uses = append(uses, use{ref, why})
				}
			case *ssa.IndexAddr:
				if w := e.elementUse(x, depth); w != "" {
					uses = append(uses, use{ref, w})
				}
			case *ssa.Return:
				uses = append(uses, use{ref, e.returned(x, v, depth)})
			case *ssa.Call:
				name := calleeName(x.Common())
				switch {
				case name == "sort.Strings" || name == "sort.Ints" || name == "slices.Sort":
					sorts = append(sorts, ref)
				case name == "sort.Sort" || name == "sort.Stable":
					if t := seenType(x.Call.Args[0]); t != nil && (t.String() == "sort.StringSlice" || t.String() == "sort.IntSlice" || e.totalLess(lessMethod(e.p, t))) {
						sorts = append(sorts, ref)
					} else {
						uses = append(uses, use{ref, why})
					}
				case name == "sort.Slice" || name == "sort.SliceStable":
					if e.totalLess(closureOf(x.Call.Args[1])) {
						sorts = append(sorts, ref)
					} else {
						uses = append(uses, use{ref, why})
					}
				case name == "builtin.len":
				case len(e.g.sites[x]) == 1:
					// A helper that is given the list.
					f := e.g.sites[x][0]
					for i, a := range callArgs(x) {
						if a == v && i < len(f.Params) {
							if sortsParam(f, f.Params[i]) {
								sorts = append(sorts, ref)
							} else if w := e.unordered([]ssa.Value{f.Params[i]}, nil, depth+1); w != "" {
								uses = append(uses, use{ref, w})
							}
						}
					}
				default:
					uses = append(uses, use{ref, why})
				}
			default:
				uses = append(uses, use{ref, why})
			}
		}
	}
	for _, u := range uses {
		ok := u.why == ""
		for _, s := range sorts {
			if s.Block() == u.ins.Block() && before(s, u.ins) || s.Block() != u.ins.Block() && s.Block().Dominates(u.ins.Block()) {
				ok = true
			}
		}
		if !ok {
			return u.why
		}
	}
	return ""
}

// onlySorts says whether a closure is only used as a total order to sort by.
func onlySorts(e *effects, mc *ssa.MakeClosure) bool {
	for _, ref := range *mc.Referrers() {
		c, ok := ref.(*ssa.Call)
		if !ok {
			if _, ok := ref.(*ssa.DebugRef); ok {
				continue
			}
			return false
		}
		if n := calleeName(c.Common()); n != "sort.Slice" && n != "sort.SliceStable" || !e.totalLess(mc.Fn.(*ssa.Function)) {
			return false
		}
	}
	return true
}

// sortsParam says whether fn sorts its parameter first thing.
func sortsParam(fn *ssa.Function, pv *ssa.Parameter) bool {
	for _, ins := range fn.Blocks[0].Instrs {
		if c, ok := ins.(*ssa.Call); ok {
			switch calleeName(c.Common()) {
			case "sort.Strings", "sort.Ints", "slices.Sort":
				return c.Call.Args[0] == pv
			}
			return false
		}
	}
	return false
}

// elementUse checks the use of an element of an unordered list: in a loop
// over the whole list that treats it as a set.
func (e *effects) elementUse(ia *ssa.IndexAddr, depth int) string {
	const why = "a list built in iteration order is used without sorting it"
	fn := ia.Parent()
	var head *ssa.BasicBlock
	for b := ia.Block(); b != nil; b = b.Idom() {
		if l := loopBlocks(b); len(l) > 1 && l[ia.Block()] || len(l) == 1 && b == ia.Block() && selfLoop(b) {
			head = b
			break
		}
	}
	if head == nil {
		return why
	}
	// The index must run over the list.
	in := loopBlocks(head)
	ok := false
	switch x := ia.Index.(type) {
	case *ssa.Phi:
		ok = x.Block() == head
	case *ssa.BinOp:
		ph, isPhi := x.X.(*ssa.Phi)
		ok = isPhi && ph.Block() == head && x.Op == token.ADD
	}
	if !ok {
		return why
	}
	_ = in
	if e.loopOrder(fn, head, ia, nil, nil, depth+1) != "" {
		return why
	}
	return ""
}

func selfLoop(b *ssa.BasicBlock) bool {
	for _, s := range b.Succs {
		if s == b {
			return true
		}
	}
	return false
}

// returned checks what callers do with an unordered list fn returns.
func (e *effects) returned(ret *ssa.Return, v ssa.Value, depth int) string {
	const why = "a list built in iteration order is returned without sorting it"
	fn := ret.Parent()
	if e.g.escapes[fn] || len(e.g.in[fn]) == 0 {
		return why
	}
	for _, c := range e.g.in[fn] {
		cv := c.Value()
		if cv == nil {
			return why
		}
		if len(ret.Results) > 1 {
			for _, ref := range *cv.Referrers() {
				if x, ok := ref.(*ssa.Extract); ok && ret.Results[x.Index] == v {
					if w := e.unordered([]ssa.Value{x}, nil, depth+1); w != "" {
						return w
					}
				}
			}
			continue
		}
		if w := e.unordered([]ssa.Value{cv}, nil, depth+1); w != "" {
			return w
		}
	}
	return ""
}

func before(a, b ssa.Instruction) bool {
	for _, ins := range a.Block().Instrs {
		if ins == a {
			return true
		}
		if ins == b {
			return false
		}
	}
	return false
}

func seenType(v ssa.Value) types.Type {
	if mi, ok := v.(*ssa.MakeInterface); ok {
		return mi.X.Type()
	}
	return nil
}

func closureOf(v ssa.Value) *ssa.Function {
	switch x := v.(type) {
	case *ssa.MakeClosure:
		return x.Fn.(*ssa.Function)
	case *ssa.Function:
		return x
	}
	return nil
}

func lessMethod(p *Program, t types.Type) *ssa.Function {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(nil, "Less")
	if sel == nil {
		if n := namedOf(t); n != nil {
			sel = p.ssa.MethodSets.MethodSet(t).Lookup(n.Obj().Pkg(), "Less")
		}
	}
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

// totalLess says whether a comparison orders whole elements: it only returns
// x < y (or >) of two elements of a basic type.
func (e *effects) totalLess(f *ssa.Function) bool {
	if f == nil {
		return false
	}
	n := 0
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Return:
				if len(x.Results) != 1 {
					return false
				}
				bo, ok := x.Results[0].(*ssa.BinOp)
				if !ok || (bo.Op != token.LSS && bo.Op != token.GTR) {
					return false
				}
				for _, op := range []ssa.Value{bo.X, bo.Y} {
					u, ok := op.(*ssa.UnOp)
					if !ok {
						return false
					}
					if _, ok := u.X.(*ssa.IndexAddr); !ok {
						return false
					}
				}
				n++
			case *ssa.Call, *ssa.If:
				return false
			}
		}
	}
	return n > 0
}

// ---- per-call state ----

// carryOver checks that what formatting one tree leaves in the printer cannot
// be seen by the next: each field formatting writes (or whose map or slice it
// changes) is assigned a fresh value in PrintTree before anything reads it.
func carryOver(p *Program, r *Report, g *callGraph, entry *ssa.Function, printer *types.Named) {
	// The structs the printer is made of.
	fields := map[*types.Var]string{}
	var add func(t types.Type, path string, depth int)
	seen := map[types.Type]bool{}
	add = func(t types.Type, path string, depth int) {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || seen[n] || n.Obj().Pkg() == nil || n.Obj().Pkg() != printer.Obj().Pkg() {
			return
		}
		seen[n] = true
		s, ok := n.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			fields[f] = path + "." + f.Name()
			add(f.Type(), path+"."+f.Name(), depth+1)
		}
	}
	add(printer, "Printer", 0)
	fns := g.reach(entry)
	fieldOfAddr := func(v ssa.Value) *types.Var {
		fa, ok := v.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		s := structOf(pointee(fa.X.Type()))
		if s == nil {
			return nil
		}
		f := s.Field(fa.Field)
		if _, ok := fields[f]; ok {
			return f
		}
		return nil
	}
	// Which fields does formatting write, directly or what they refer to?
	s := p.sharedValues(g, func(*ssa.Global) string { return "" }, func(v *types.Var) string {
		if n, ok := fields[v]; ok && isRef(v.Type()) {
			return n
		}
		return ""
	})
	written := map[*types.Var]ssa.Instruction{}
	byName := map[string]*types.Var{}
	for f, n := range fields {
		byName[n] = f
	}
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if f := fieldOfAddr(st.Addr); f != nil {
						if fa := st.Addr.(*ssa.FieldAddr); baseLocal(fa.X) && fn != entry {
							continue
						}
						written[f] = ins
					}
				}
			}
		}
	}
	for _, m := range s.mutations(fns) {
		for n := range m.what {
			if f := byName[n]; f != nil && written[f] == nil {
				written[f] = m.ins
			}
		}
	}
	// What each function reads, transitively.
	readsOf := map[*ssa.Function]map[*types.Var]bool{}
	direct := func(ins ssa.Instruction) *types.Var {
		switch x := ins.(type) {
		case *ssa.UnOp:
			if x.Op == token.MUL {
				return fieldOfAddr(x.X)
			}
		case *ssa.Field:
			st := structOf(x.X.Type())
			if st != nil {
				if _, ok := fields[st.Field(x.Field)]; ok {
					return st.Field(x.Field)
				}
			}
		}
		return nil
	}
	for _, fn := range fns {
		m := map[*types.Var]bool{}
		for _, f := range g.reach(fn) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if v := direct(ins); v != nil {
						m[v] = true
					}
				}
			}
		}
		readsOf[fn] = m
	}
	// Must-assigned analysis, with helpers summarised by what they assign on
	// every path to their return.
	assigns := map[*ssa.Function]map[*types.Var]bool{}
	var must func(fn *ssa.Function, report bool) map[*types.Var]bool
	must = func(fn *ssa.Function, report bool) map[*types.Var]bool {
		if !report {
			if a, ok := assigns[fn]; ok {
				return a
			}
			assigns[fn] = map[*types.Var]bool{}
		}
		outB := map[*ssa.BasicBlock]map[*types.Var]bool{}
		var result map[*types.Var]bool
		blocks := fn.DomPreorder()
		for pass := 0; pass < 8; pass++ {
			result = nil
			for _, b := range blocks {
				var cur map[*types.Var]bool
				if b != fn.Blocks[0] {
					for _, pr := range b.Preds {
						o, ok := outB[pr]
						if !ok {
							continue
						}
						if cur == nil {
							cur = copySet(o)
						} else {
							for f := range cur {
								if !o[f] {
									delete(cur, f)
								}
							}
						}
					}
				}
				if cur == nil {
					cur = map[*types.Var]bool{}
				}
				for _, ins := range b.Instrs {
					if report && pass == 7 {
						if v := direct(ins); v != nil && written[v] != nil && !cur[v] && !exempt(v, written, s) {
							r.fail("carry-over", fields[v], posString(p, ins.Pos()), "%s is read before this call gave it a value of its own, and formatting changes it: it may hold what an earlier PrintTree left", fields[v])
						}
						if c, ok := ins.(ssa.CallInstruction); ok {
							if _, isDefer := ins.(*ssa.Defer); !isDefer {
								for _, f := range g.sites[c] {
									for v := range readsOf[f] {
										if written[v] != nil && !cur[v] && !mustBefore(f, v, must) {
											r.fail("carry-over", fields[v], posString(p, ins.Pos()), "%s may be read by %s before this call gave it a value of its own, and formatting changes it", fields[v], fnName(f))
										}
									}
								}
							}
						}
					}
					switch x := ins.(type) {
					case *ssa.Store:
						if f := fieldOfAddr(x.Addr); f != nil && freshValue(x.Val, fields, s) {
							cur[f] = true
						}
					case *ssa.Call:
						for _, f := range g.sites[x] {
							if len(g.sites[x]) == 1 {
								for v := range must(f, false) {
									cur[v] = true
								}
							}
						}
					case *ssa.Return:
						if result == nil {
							result = copySet(cur)
						} else {
							for f := range result {
								if !cur[f] {
									delete(result, f)
								}
							}
						}
					}
				}
				outB[b] = cur
			}
		}
		if !report {
			assigns[fn] = result
		}
		return result
	}
	must(entry, true)
	r.count("printer_fields", len(fields))
	r.count("printer_fields_formatting_writes", len(written))
}

// mustBefore says whether f gives v a fresh value before reading it; only
// functions that do nothing but assign are recognised.
func mustBefore(f *ssa.Function, v *types.Var, must func(*ssa.Function, bool) map[*types.Var]bool) bool {
	if !must(f, false)[v] {
		return false
	}
	// The first access must be a store.
	b := f.Blocks[0]
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Store:
			if fa, ok := x.Addr.(*ssa.FieldAddr); ok {
				if s := structOf(pointee(fa.X.Type())); s != nil && s.Field(fa.Field) == v {
					return true
				}
			}
		case *ssa.UnOp:
			if fa, ok := x.X.(*ssa.FieldAddr); ok {
				if s := structOf(pointee(fa.X.Type())); s != nil && s.Field(fa.Field) == v {
					return false
				}
			}
		}
	}
	return false
}

func copySet(m map[*types.Var]bool) map[*types.Var]bool {
	o := map[*types.Var]bool{}
	for k := range m {
		o[k] = true
	}
	return o
}

// freshValue says whether v does not carry anything over from the printer.
func freshValue(v ssa.Value, fields map[*types.Var]string, s *sharing) bool {
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Const, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Alloc, *ssa.Parameter:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			for _, f := range s.g.sites[x] {
				for _, b := range f.Blocks {
					for _, ins := range b.Instrs {
						if ret, ok := ins.(*ssa.Return); ok {
							for _, rv := range ret.Results {
								if len(s.val[rv]) > 0 {
									return false
								}
							}
						}
						if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
							if fa, ok := u.X.(*ssa.FieldAddr); ok {
								if st := structOf(pointee(fa.X.Type())); st != nil {
									if n, ok := fields[st.Field(fa.Field)]; ok && strings.Count(n, ".") >= 1 && !isRef(st.Field(fa.Field).Type()) {
										return false
									}
								}
							}
						}
					}
				}
			}
			return len(s.val[v]) == 0
		}
		return false
	}
	return rec(v)
}

// exempt: a field that only its own constructor sets.
func exempt(v *types.Var, written map[*types.Var]ssa.Instruction, s *sharing) bool { return false }

var _ = fmt.Sprint
