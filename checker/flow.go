package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// callGraph is the static call graph of the repository's functions: direct
// calls, functions taken as values (assumed called where they are taken), and
// interface calls resolved to every implementation in the repository.
type callGraph struct {
	p     *Program
	out   map[*ssa.Function][]*ssa.Function
	sites map[ssa.CallInstruction][]*ssa.Function // callees with a body
	in    map[*ssa.Function][]ssa.CallInstruction
	// escapes: functions that code outside the repository may call, because
	// they are passed as values or belong to a value passed as an interface.
	escapes map[*ssa.Function]bool
}

func (p *Program) callGraph() *callGraph {
	g := &callGraph{p: p, out: map[*ssa.Function][]*ssa.Function{}, sites: map[ssa.CallInstruction][]*ssa.Function{}, in: map[*ssa.Function][]ssa.CallInstruction{}, escapes: map[*ssa.Function]bool{}}
	methods := map[string][]*ssa.Function{} // by name
	bySig := []*ssa.Function{}
	for _, fn := range p.fns {
		if fn.Signature.Recv() != nil && fn.Synthetic == "" || fn.Signature.Recv() != nil {
			methods[fn.Name()] = append(methods[fn.Name()], fn)
		}
		bySig = append(bySig, fn)
	}
	taken := map[*ssa.Function]bool{}
	for _, fn := range p.fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				callee := ssa.Value(nil)
				if c, ok := ins.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if *op == callee {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						taken[f] = true
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					taken[mc.Fn.(*ssa.Function)] = true
				}
			}
		}
	}
	for _, fn := range p.fns {
		seen := map[*ssa.Function]bool{}
		add := func(f *ssa.Function) {
			if f != nil && len(f.Blocks) > 0 && !seen[f] {
				seen[f] = true
				g.out[fn] = append(g.out[fn], f)
			}
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					cm := c.Common()
					var cs []*ssa.Function
					switch {
					case cm.IsInvoke():
						it, _ := cm.Value.Type().Underlying().(*types.Interface)
						for _, m := range methods[cm.Method.Name()] {
							if it != nil && types.Implements(m.Signature.Recv().Type(), it) {
								cs = append(cs, m)
							}
						}
					case cm.StaticCallee() != nil:
						cs = append(cs, cm.StaticCallee())
					default:
						if _, ok := cm.Value.(*ssa.Builtin); ok {
							break
						}
						if fs, ok := localFns(cm.Value); ok {
							cs = append(cs, fs...)
							break
						}
						for _, f := range bySig {
							if taken[f] && types.Identical(sigNoRecv(f.Signature), sigNoRecv(cm.Signature())) {
								cs = append(cs, f)
							}
						}
					}
					for _, f := range cs {
						if len(f.Blocks) > 0 {
							g.sites[c] = append(g.sites[c], f)
							g.in[f] = append(g.in[f], c)
						}
						add(f)
					}
				}
				var ops [16]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					if f, ok := (*op).(*ssa.Function); ok {
						add(f)
						if c, ok := ins.(ssa.CallInstruction); !ok || c.Common().Value != *op {
							g.escapes[f] = true
						}
					}
				}
				if mc, ok := ins.(*ssa.MakeClosure); ok {
					add(mc.Fn.(*ssa.Function))
					g.escapes[mc.Fn.(*ssa.Function)] = true
				}
				// A value of the repository handed to other code as an
				// interface may have its methods called there.
				if mi, ok := ins.(*ssa.MakeInterface); ok {
					if it, ok := mi.Type().Underlying().(*types.Interface); ok {
						ms := p.ssa.MethodSets.MethodSet(mi.X.Type())
						// the methods of an interface of the repository's own are
						// called where its code says so
						n, ok := mi.Type().(*types.Named)
						own := ok && p.ourPkg(n.Obj().Pkg())
						for i := 0; i < it.NumMethods(); i++ {
							if sel := ms.Lookup(it.Method(i).Pkg(), it.Method(i).Name()); sel != nil {
								f := p.ssa.MethodValue(sel)
								if !own {
									add(f)
								}
								if f != nil {
									g.escapes[f] = true
								}
							}
						}
					}
				}
			}
		}
	}
	return g
}

// localFns lists the functions that v, a function value, can be where that
// is a matter of one function and its closures only.
func localFns(v ssa.Value) ([]*ssa.Function, bool) {
	switch v := v.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}, true
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}, true
	case *ssa.FreeVar:
		if b := binding(v); b != nil {
			return localFns(b)
		}
	case *ssa.UnOp:
		cell := v.X
		for {
			fv, ok := cell.(*ssa.FreeVar)
			if !ok {
				break
			}
			if cell = binding(fv); cell == nil {
				return nil, false
			}
		}
		if a, ok := cell.(*ssa.Alloc); ok {
			return storedFns(a, map[ssa.Value]bool{})
		}
	}
	return nil, false
}

// binding is the value that the free variable v is bound to.
func binding(v *ssa.FreeVar) ssa.Value {
	fn := v.Parent()
	if fn.Parent() == nil {
		return nil
	}
	var out ssa.Value
	for _, b := range fn.Parent().Blocks {
		for _, ins := range b.Instrs {
			mc, ok := ins.(*ssa.MakeClosure)
			if !ok || mc.Fn != fn {
				continue
			}
			for i, fv := range fn.FreeVars {
				if fv == v {
					if out != nil && out != mc.Bindings[i] {
						return nil
					}
					out = mc.Bindings[i]
				}
			}
		}
	}
	return out
}

// storedFns lists the functions stored in a variable and the closures' views
// of it.
func storedFns(cell ssa.Value, seen map[ssa.Value]bool) ([]*ssa.Function, bool) {
	if seen[cell] {
		return nil, true
	}
	seen[cell] = true
	var out []*ssa.Function
	for _, r := range *cell.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.Store:
			if r.Addr != cell {
				return nil, false
			}
			if c, ok := r.Val.(*ssa.Const); ok && c.IsNil() {
				continue
			}
			fs, ok := localFns(r.Val)
			if !ok {
				return nil, false
			}
			out = append(out, fs...)
		case *ssa.MakeClosure:
			for i, b := range r.Bindings {
				if b != cell {
					continue
				}
				fs, ok := storedFns(r.Fn.(*ssa.Function).FreeVars[i], seen)
				if !ok {
					return nil, false
				}
				out = append(out, fs...)
			}
		default:
			return nil, false
		}
	}
	return out, true
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// reach lists the functions reachable from the given ones, which it includes.
func (g *callGraph) reach(from ...*ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var work, out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] && g.p.ours(f) {
			seen[f] = true
			work = append(work, f)
			out = append(out, f)
		}
	}
	for _, f := range from {
		add(f)
	}
	for len(work) > 0 {
		f := work[len(work)-1]
		work = work[:len(work)-1]
		for _, c := range g.out[f] {
			add(c)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// noReturn says whether fn never returns normally.
func noReturn(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !deadEnd(b, map[*ssa.BasicBlock]bool{}) {
			return false
		}
	}
	return true
}

// deadEnd says whether block b contains a call that never returns.
func deadEnd(b *ssa.BasicBlock, _ map[*ssa.BasicBlock]bool) bool {
	for _, ins := range b.Instrs {
		if c, ok := ins.(*ssa.Call); ok {
			if f := c.Common().StaticCallee(); f != nil && f != b.Parent() {
				if exits[fnName(f)] || (len(f.Blocks) > 0 && fnPkg(f) != nil && neverReturns(f)) {
					return true
				}
			}
		}
		if _, ok := ins.(*ssa.Panic); ok {
			return true
		}
	}
	return false
}

var exits = map[string]bool{"os.Exit": true, "log.Fatal": true, "log.Fatalf": true, "log.Fatalln": true, "log.Panic": true, "log.Panicf": true, "log.Panicln": true, "runtime.Goexit": true}

var neverMemo = map[*ssa.Function]bool{}

func neverReturns(f *ssa.Function) bool {
	if v, ok := neverMemo[f]; ok {
		return v
	}
	neverMemo[f] = false
	neverMemo[f] = noReturn(f)
	return neverMemo[f]
}

// doomed says whether every path from block b ends in a panic or an exit.
func doomed(b *ssa.BasicBlock) bool { return doomedRec(b, map[*ssa.BasicBlock]bool{}) }

func doomedRec(b *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[b] {
		return true
	}
	seen[b] = true
	if deadEnd(b, nil) {
		return true
	}
	if len(b.Succs) == 0 {
		return false
	}
	for _, s := range b.Succs {
		if !doomedRec(s, seen) {
			return false
		}
	}
	return true
}

// sharing is a field-based, flow-insensitive analysis of which values may be,
// or lie in, one of a set of shared objects (Andersen-style, over the whole
// repository). Each shared object has a name.
type sharing struct {
	g     *callGraph
	val   map[ssa.Value]map[string]bool
	field map[*types.Var]map[string]bool // what a struct field may hold
	elem  map[string]map[string]bool     // what the elements of a type may hold
	ret   map[*ssa.Function][]map[string]bool
	dirty bool
}

func (s *sharing) addTo(m *map[string]bool, from map[string]bool) {
	for k := range from {
		if *m == nil {
			*m = map[string]bool{}
		}
		if !(*m)[k] {
			(*m)[k] = true
			s.dirty = true
		}
	}
}

func (s *sharing) addVal(v ssa.Value, from map[string]bool) {
	m := s.val[v]
	s.addTo(&m, from)
	if m != nil {
		s.val[v] = m
	}
}

// isRef says whether a value of type t can give access to shared memory.
func isRef(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if isRef(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return isRef(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if isRef(u.At(i).Type()) {
				return true
			}
		}
	}
	return false
}

// sharedValues runs the analysis: roots names what a global holds; callerMap
// says which struct fields hold what the caller gave.
func (p *Program) sharedValues(g *callGraph, global func(*ssa.Global) string, field func(*types.Var) string) *sharing {
	s := &sharing{g: g, val: map[ssa.Value]map[string]bool{}, field: map[*types.Var]map[string]bool{}, elem: map[string]map[string]bool{}, ret: map[*ssa.Function][]map[string]bool{}}
	fieldVar := func(t types.Type, i int) *types.Var {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		return t.Underlying().(*types.Struct).Field(i)
	}
	for {
		s.dirty = false
		for _, fn := range p.fns {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					// The address of a global, a field or an element lies in
					// what its base lies in.
					for _, op := range ins.Operands(nil) {
						if gl, ok := (*op).(*ssa.Global); ok {
							if n := global(gl); n != "" {
								s.addVal(gl, map[string]bool{n: true})
							}
						}
					}
					switch ins := ins.(type) {
					case *ssa.FieldAddr:
						fv := fieldVar(ins.X.Type(), ins.Field)
						if n := field(fv); n != "" {
							// The field's content is shared, not its place.
							break
						}
						s.addVal(ins, s.val[ins.X])
					case *ssa.IndexAddr:
						s.addVal(ins, s.val[ins.X])
					case *ssa.UnOp:
						if !isRef(ins.Type()) {
							break
						}
						switch x := ins.X.(type) {
						case *ssa.FieldAddr:
							fv := fieldVar(x.X.Type(), x.Field)
							if n := field(fv); n != "" {
								s.addVal(ins, map[string]bool{n: true})
							}
							s.addVal(ins, s.field[fv])
							s.addVal(ins, s.val[x])
						default:
							s.addVal(ins, s.val[ins.X])
						}
					case *ssa.Field:
						fv := fieldVar(ins.X.Type(), ins.Field)
						if n := field(fv); n != "" {
							s.addVal(ins, map[string]bool{n: true})
						}
						if isRef(ins.Type()) {
							s.addVal(ins, s.field[fv])
							s.addVal(ins, s.val[ins.X])
						}
					case *ssa.Store:
						if !isRef(ins.Val.Type()) {
							break
						}
						switch a := ins.Addr.(type) {
						case *ssa.FieldAddr:
							fv := fieldVar(a.X.Type(), a.Field)
							m := s.field[fv]
							s.addTo(&m, s.val[ins.Val])
							if m != nil {
								s.field[fv] = m
							}
						case *ssa.IndexAddr:
							s.addVal(a.X, s.val[ins.Val])
						default:
							s.addVal(ins.Addr, s.val[ins.Val])
						}
					case *ssa.Phi:
						for _, e := range ins.Edges {
							s.addVal(ins, s.val[e])
						}
					case *ssa.ChangeType:
						s.addVal(ins, s.val[ins.X])
					case *ssa.ChangeInterface:
						s.addVal(ins, s.val[ins.X])
					case *ssa.MakeInterface:
						s.addVal(ins, s.val[ins.X])
					case *ssa.TypeAssert:
						s.addVal(ins, s.val[ins.X])
					case *ssa.Convert:
						if isRef(ins.Type()) {
							s.addVal(ins, s.val[ins.X])
						}
					case *ssa.Slice:
						s.addVal(ins, s.val[ins.X])
					case *ssa.Extract:
						if isRef(ins.Type()) {
							if c, ok := ins.Tuple.(*ssa.Call); ok {
								for _, f := range g.sites[c] {
									if ins.Index < len(s.ret[f]) {
										s.addVal(ins, s.ret[f][ins.Index])
									}
								}
								break
							}
							s.addVal(ins, s.val[ins.Tuple])
						}
					case *ssa.Lookup:
						if isRef(ins.Type()) {
							s.addVal(ins, s.val[ins.X])
						}
					case *ssa.Range:
						s.addVal(ins, s.val[ins.X])
					case *ssa.Next:
						s.addVal(ins, s.val[ins.Iter])
					case *ssa.MapUpdate:
						if isRef(ins.Value.Type()) {
							s.addVal(ins.Map, s.val[ins.Value])
						}
					case *ssa.MakeClosure:
						f := ins.Fn.(*ssa.Function)
						for i, bnd := range ins.Bindings {
							s.addVal(f.FreeVars[i], s.val[bnd])
							s.addVal(bnd, s.val[f.FreeVars[i]])
						}
					case *ssa.Return:
						for i, v := range ins.Results {
							if isRef(v.Type()) {
								for len(s.ret[fn]) <= i {
									s.ret[fn] = append(s.ret[fn], nil)
								}
								s.addTo(&s.ret[fn][i], s.val[v])
							}
						}
					}
					if c, ok := ins.(ssa.CallInstruction); ok {
						cm := c.Common()
						args := cm.Args
						if cm.IsInvoke() {
							args = append([]ssa.Value{cm.Value}, args...)
						}
						for _, f := range g.sites[c] {
							for i, a := range args {
								if i < len(f.Params) {
									s.addVal(f.Params[i], s.val[a])
									s.addVal(a, nil)
								}
							}
							if v := c.Value(); v != nil && isRef(v.Type()) {
								if _, ok := v.Type().(*types.Tuple); !ok && len(s.ret[f]) > 0 {
									s.addVal(v, s.ret[f][0])
								}
							}
						}
						if bi, ok := cm.Value.(*ssa.Builtin); ok && bi.Name() == "append" && c.Value() != nil {
							// The result may be the first argument's array;
							// the elements come from both.
							s.addVal(c.Value(), s.val[args[0]])
							if et, ok := c.Value().Type().Underlying().(*types.Slice); ok && len(args) > 1 && isRef(et.Elem()) {
								s.addVal(c.Value(), s.val[args[1]])
							}
						}
					}
				}
			}
		}
		if !s.dirty {
			return s
		}
	}
}

// mutation is one instruction that may write a shared object.
type mutation struct {
	fn   *ssa.Function
	ins  ssa.Instruction
	what map[string]bool
	how  string
}

// readers are functions outside the repository that only read the maps and
// slices they are given.
var readers = map[string]bool{"len": true}

func (s *sharing) mutations(fns []*ssa.Function) []mutation {
	var out []mutation
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				add := func(v ssa.Value, how string) {
					if m := s.val[v]; len(m) > 0 {
						out = append(out, mutation{fn, ins, m, how})
					}
				}
				switch ins := ins.(type) {
				case *ssa.Store:
					if al, ok := ins.Addr.(*ssa.Alloc); ok && al != nil {
						break // a local variable, not what it refers to
					}
					if fv, ok := ins.Addr.(*ssa.FreeVar); ok && fv != nil {
						break
					}
					switch a := ins.Addr.(type) {
					case *ssa.FieldAddr:
						if baseLocal(a.X) {
							break
						}
						add(a.X, "stores to a field of")
					case *ssa.IndexAddr:
						if baseLocal(a.X) {
							break
						}
						add(a.X, "stores to an element of")
					default:
						add(ins.Addr, "stores to")
					}
				case *ssa.MapUpdate:
					add(ins.Map, "writes the map")
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					cm := c.Common()
					if bi, ok := cm.Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "delete", "clear":
							add(cm.Args[0], bi.Name()+"s from")
						case "copy":
							add(cm.Args[0], "copies into")
						case "append":
							add(cm.Args[0], "appends in place to")
						}
						continue
					}
					if len(s.g.sites[c]) == 0 {
						name := calleeName(cm)
						for _, a := range cm.Args {
							if _, ok := a.Type().Underlying().(*types.Basic); ok {
								continue
							}
							if mutators[name] {
								add(a, "passes to "+name)
							}
						}
					}
				}
			}
		}
	}
	return out
}

// mutators change the slice or map they are given.
var mutators = map[string]bool{"sort.Strings": true, "sort.Ints": true, "sort.Sort": true, "sort.Stable": true, "sort.Slice": true, "sort.SliceStable": true,
	"slices.Sort": true, "slices.SortFunc": true, "slices.Reverse": true, "maps.Copy": true, "maps.DeleteFunc": true}

// baseLocal says whether v is the address of a local variable.
func baseLocal(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		default:
			return false
		}
	}
}
