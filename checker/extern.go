package main

import (
	"go/constant"
	"go/types"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Models of the standard library functions the analysed code may call.

var spaceSet = tableSet(unicode.White_Space)

func tableSet(t *unicode.RangeTable) IntSet {
	var out []ival
	for _, r := range t.R16 {
		if r.Stride == 1 {
			out = append(out, ival{int64(r.Lo), int64(r.Hi)})
			continue
		}
		for c := r.Lo; c <= r.Hi; c += r.Stride {
			out = append(out, ival{int64(c), int64(c)})
		}
	}
	for _, r := range t.R32 {
		if r.Stride == 1 {
			out = append(out, ival{int64(r.Lo), int64(r.Hi)})
			continue
		}
		for c := r.Lo; c <= r.Hi; c += r.Stride {
			out = append(out, ival{int64(c), int64(c)})
		}
	}
	return normSet(out)
}

// runeTest forks on membership of the rune in a set.
func runeTest(st *State, r *Term, s IntSet) []Outcome {
	if st.intSet(r).subsetOf(s) {
		return []Outcome{{st: st, ret: trueT}}
	}
	if st.intSet(r).disjoint(s) {
		return []Outcome{{st: st, ret: falseT}}
	}
	o := st.fork()
	var out []Outcome
	if st.restrictInt(r, s) {
		out = append(out, Outcome{st: st, ret: trueT})
	}
	if o.restrictInt(r, s.compl()) {
		out = append(out, Outcome{st: o, ret: falseT})
	}
	return out
}

// purePkgs are packages whose functions depend on their arguments only.
var purePkgs = map[string]bool{"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true,
	"path/filepath": true, "path": true, "errors": true, "fmt": true, "bytes": true, "math": true, "slices": true, "maps": true, "utf8": true}

// snapshot replaces slices by their contents, so that the result of a pure
// function is identified by what it was given.
func (st *State) snapshot(t *Term) *Term {
	if t == nil {
		return nilTerm
	}
	if t.op == OSlice {
		return st.content(t)
	}
	return t
}

func (e *Engine) pure(st *State, name string, ci *callInfo) []Outcome {
	var as []*Term
	for _, a := range ci.args {
		as = append(as, st.snapshot(a))
	}
	return []Outcome{{st: st, ret: pureResult(name, ci.typ, as)}}
}

func pureResult(name string, typ types.Type, as []*Term) *Term {
	if tup, ok := typ.(*types.Tuple); ok {
		if tup.Len() == 0 {
			return nil
		}
		if tup.Len() == 1 {
			return ext(name, tup.At(0).Type(), as...)
		}
		var rs []*Term
		for i := 0; i < tup.Len(); i++ {
			rs = append(rs, T.intern(&Term{op: OExt, name: name, n: i, args: as, typ: tup.At(i).Type()}))
		}
		return T.intern(&Term{op: OTuple, args: rs, typ: typ})
	}
	return ext(name, typ, as...)
}

func (st *State) indexResult(r, s *Term, sub int64) *Term {
	st.facts.ints[r] = st.intSet(r).inter(rng(-1, posInf))
	// r + sub <= len(s)
	if n, ok := mkLen(s).intVal(); ok {
		st.facts.ints[r] = st.intSet(r).inter(rng(-1, n-sub))
	} else if v, ok := st.knownStr(s); ok {
		st.facts.ints[r] = st.intSet(r).inter(rng(-1, int64(len(v))-sub))
	} else {
		t := toLin(r).add(toLin(mkLen(s)), -1).add(lin{nil, sub}, 1).term(tInt)
		// If nothing is found r is -1, so that the bound only holds when sub <= 1.
		if sub <= 1 {
			st.facts.rel = append(st.facts.rel, t)
		}
	}
	return r
}

func (e *Engine) extern(st *State, ci *callInfo) []Outcome {
	name := ""
	switch {
	case ci.fn != nil:
		name = fnName(ci.fn)
	case ci.method != nil:
		name = ci.method.FullName()
	default:
		return nil
	}
	one := func(t *Term) []Outcome { return []Outcome{{st: st, ret: t}} }
	a := ci.args
	str := func(i int) (string, bool) { return st.knownStr(a[i]) }
	if strings.HasSuffix(name, ".init") {
		return one(nil)
	}
	switch name {
	case "unicode.IsSpace":
		return runeTest(st, a[0], spaceSet)
	case "unicode.IsDigit":
		return runeTest(st, a[0], tableSet(unicode.Digit))
	case "unicode.IsLetter":
		return runeTest(st, a[0], tableSet(unicode.Letter))
	case "unicode.IsUpper":
		return runeTest(st, a[0], tableSet(unicode.Upper))
	case "unicode.IsLower":
		return runeTest(st, a[0], tableSet(unicode.Lower))
	case "unicode.IsControl":
		return runeTest(st, a[0], tableSet(unicode.Cc))
	case "strings.HasPrefix", "strings.HasSuffix", "strings.Contains":
		s, ok1 := str(0)
		p, ok2 := str(1)
		if ok1 && ok2 {
			switch name {
			case "strings.HasPrefix":
				return one(mkBool(strings.HasPrefix(s, p)))
			case "strings.HasSuffix":
				return one(mkBool(strings.HasSuffix(s, p)))
			}
			return one(mkBool(strings.Contains(s, p)))
		}
		if ok2 && p == "" {
			return one(trueT)
		}
		if ok2 && name == "strings.HasPrefix" && a[0].op == OExt && a[0].name == "concat" {
			if q, ok := a[0].args[0].strVal(); ok && len(q) >= len(p) {
				return one(mkBool(strings.HasPrefix(q, p)))
			}
		}
		return one(ext(name, tBool, a...))
	case "strings.ContainsRune", "strings.ContainsAny":
		if s, ok := str(0); ok && name == "strings.ContainsRune" {
			var set []ival
			for _, r := range s {
				set = append(set, ival{int64(r), int64(r)})
			}
			return runeTest(st, a[1], normSet(set))
		}
		return one(ext(name, tBool, a...))
	case "strings.IndexRune", "strings.IndexByte":
		if s, ok := str(0); ok {
			if r, ok := a[1].intVal(); ok {
				return one(mkInt(int64(strings.IndexRune(s, rune(r)))))
			}
			if name == "strings.IndexRune" {
				var set []ival
				for _, r := range s {
					set = append(set, ival{int64(r), int64(r)})
				}
				outs := runeTest(st, a[1], normSet(set))
				for i, o := range outs {
					if o.ret == trueT {
						r := ext(name, tInt, a...)
						o.st.facts.ints[r] = rng(0, int64(len(s)-1))
						outs[i].ret = r
					} else {
						outs[i].ret = mkInt(-1)
					}
				}
				return outs
			}
		}
		return one(st.indexResult(ext("strings.IndexRune", tInt, a...), a[0], 1))
	case "strings.LastIndexByte", "strings.LastIndexAny", "strings.IndexAny", "strings.IndexFunc", "strings.LastIndexFunc":
		if name == "strings.LastIndexByte" {
			if r, ok := a[1].intVal(); ok {
				b := mkStr(string(rune(r)))
				return one(st.indexResult(ext("strings.LastIndex", tInt, a[0], b), a[0], 1))
			}
		}
		return one(st.indexResult(ext(name, tInt, a...), a[0], 1))
	case "strings.Index", "strings.LastIndex":
		s, ok1 := str(0)
		p, ok2 := str(1)
		if ok1 && ok2 {
			if name == "strings.Index" {
				return one(mkInt(int64(strings.Index(s, p))))
			}
			return one(mkInt(int64(strings.LastIndex(s, p))))
		}
		n := int64(0)
		if ok2 {
			n = int64(len(p))
		}
		nm := name
		if nm == "strings.Index" && n == 1 && p[0] < 0x80 {
			return one(st.indexResult(ext("strings.IndexRune", tInt, a[0], mkInt(int64(p[0]))), a[0], 1))
		}
		return one(st.indexResult(ext(nm, tInt, a...), a[0], n))
	case "strings.Repeat":
		if e.onMayPanic != nil && ci.instr != nil {
			e.onMayPanic(st, ci.instr, "repeat", st.provesLE(lin{nil, 0}.add(toLin(a[1]), -1)))
		}
		st.addLE(lin{nil, 0}.add(toLin(a[1]), -1))
		if s, ok := str(0); ok {
			if n, ok := a[1].intVal(); ok && n >= 0 && n < 100 {
				return one(mkStr(strings.Repeat(s, int(n))))
			}
		}
		return one(ext("repeat", tString, a...))
	case "strings.Split", "strings.SplitN":
		r := ext(name, ci.typ, a...)
		if s, ok := str(1); ok && s != "" && name == "strings.Split" {
			st.facts.ints[mkLen(r)] = rng(1, posInf)
		}
		return one(r)
	case "strings.TrimPrefix", "strings.TrimSuffix":
		s, ok1 := str(0)
		p, ok2 := str(1)
		if ok1 && ok2 {
			if name == "strings.TrimPrefix" {
				return one(mkStr(strings.TrimPrefix(s, p)))
			}
			return one(mkStr(strings.TrimSuffix(s, p)))
		}
		if ok2 && p != "" {
			// Fork on whether it is there.
			fn := "strings.HasPrefix"
			if name == "strings.TrimSuffix" {
				fn = "strings.HasSuffix"
			}
			h := ext(fn, tBool, a...)
			o := st.fork()
			var outs []Outcome
			if st.assume(h, true) {
				n := int64(len(p))
				st.restrictInt(mkLen(a[0]), rng(n, posInf))
				if fn == "strings.HasPrefix" {
					outs = append(outs, Outcome{st: st, ret: st.substr(a[0], mkInt(n), mkLen(a[0]))})
				} else {
					outs = append(outs, Outcome{st: st, ret: st.substr(a[0], mkInt(0), addK(mkLen(a[0]), -n))})
				}
			}
			if o.assume(h, false) {
				outs = append(outs, Outcome{st: o, ret: a[0]})
			}
			return outs
		}
		return e.pure(st, name, ci)
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace", "strings.Replace", "strings.ReplaceAll", "strings.Join", "strings.Trim", "strings.TrimLeft", "strings.TrimRight":
		return e.pure(st, name, ci)
	case "fmt.Errorf", "errors.New":
		outs := e.pure(st, "err!"+name, ci)
		return outs
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		return e.pure(st, name, ci)
	case "strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint":
		return e.pure(st, name, ci)
	case "unicode/utf8.RuneLen":
		r := ext(name, tInt, a[0])
		st.facts.ints[r] = rng(-1, 4)
		return one(r)
	case "unicode/utf8.RuneCountInString", "unicode/utf8.RuneCount":
		r := ext(name, tInt, st.snapshot(a[0]))
		st.facts.ints[r] = rng(0, posInf)
		return one(r)
	case "sort.Strings", "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc":
		e.sortModel(st, ci)
		return one(nil)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		st.stop = true
		return []Outcome{{st: st}}
	case "log.SetFlags", "log.SetPrefix", "log.Println", "log.Printf", "log.Print":
		return one(nil)
	}
	if ci.fn != nil {
		if pk := fnPkg(ci.fn); pk != nil && purePkgs[pk.Path()] && ci.fn.Signature.Recv() == nil {
			if res := ci.fn.Signature.Results(); res.Len() > 0 && pureArgs(ci.fn.Signature) {
				return e.pure(st, name, ci)
			}
		}
	}
	return nil
}

func pureArgs(s *types.Signature) bool {
	for i := 0; i < s.Params().Len(); i++ {
		switch s.Params().At(i).Type().Underlying().(type) {
		case *types.Interface, *types.Pointer, *types.Map, *types.Chan:
			return false
		}
	}
	return true
}

// sortModel: the elements are permuted.
func (e *Engine) sortModel(st *State, ci *callInfo) {
	v := ci.args[0]
	if v.op == OIface {
		v = v.args[0]
	}
	if v.op == ONil {
		return
	}
	arr, lo, hi := sliceParts(v)
	all := st.arrayContent(arr)
	c := st.subSeq(all, lo, hi)
	if len(c.args) <= 1 && (len(c.args) == 0 || c.args[0].op != OSeg) {
		return
	}
	var et types.Type
	if v.typ != nil {
		et = v.typ
	}
	s := newSym("gen", et)
	n := sub(hi, lo)
	st.facts.rel = append(st.facts.rel, sub(mkLen(s), n), sub(n, mkLen(s)))
	st.restrictInt(mkLen(s), st.intSet(n).inter(rng(0, posInf)))
	if tf, ok := seqType(st, c); ok {
		st.facts.types[s] = tf
	}
	if seqNonNil(st, c) {
		st.facts.bools[ext("allnonnil", tBool, s)] = true
	}
	if e.normSeq != nil {
		if n, ok := e.normSeq(st, c); ok {
			st.facts.defs[s] = n
		}
	}
	if e.onSort != nil {
		e.onSort(st, ci, c, s)
	}
	front, _ := st.split(all, lo)
	_, back := st.split(all, hi)
	if front == nil || back == nil {
		st.heap[arr] = mkSeq(mkSeg(newSym("content", et), mkInt(0), seqLen(all)))
		return
	}
	st.heap[arr] = mkSeq(front, mkSeg(s, mkInt(0), mkLen(s)), back)
}

// ---- package variables that never change after initialisation ----

func (e *Engine) initGlobals() {
	written := map[*ssa.Global]bool{}
	for _, fn := range e.prog.fns {
		isInit := fn.Name() == "init" && fn.Signature.Recv() == nil && fn.Parent() == nil
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var ops [8]*ssa.Value
				for _, op := range ins.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := ins.(*ssa.UnOp); ok && u.X == ssa.Value(g) {
						continue
					}
					if isInit {
						continue
					}
					if fa, ok := ins.(*ssa.IndexAddr); ok && onlyLoads(fa) {
						continue
					}
					if fa, ok := ins.(*ssa.FieldAddr); ok && onlyLoads(fa) {
						continue
					}
					written[g] = true
				}
			}
		}
	}
	for _, key := range []string{"parse", "", "format", "cljfmt"} {
		sp := e.prog.pkgs[key]
		fn := sp.Func("init")
		if fn == nil {
			continue
		}
		sub := newEngine(e.prog)
		sub.globals = e.globals
		var final *State
		sub.onExit = func(st *State, ret, p *Term) []*State {
			if final == nil {
				final = st
			}
			return nil
		}
		st := sub.newState(nil)
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				gt := T.intern(&Term{op: OGlobal, g: g, typ: g.Type()})
				if _, isArr := pointee(g.Type()).Underlying().(*types.Array); isArr {
					st.heap[gt] = zeroOf(pointee(g.Type()))
				} else if _, isSt := pointee(g.Type()).Underlying().(*types.Struct); !isSt {
					st.heap[gt] = zeroOf(pointee(g.Type()))
				}
			}
		}
		sub.pushCall(st, fn, nil, nil, nil)
		sub.Run(st)
		if final == nil {
			continue
		}
		// Objects that live as long as the program keep their identity.
		keep := newSubst()
		fix := func(t *Term) {
			atomsOf(t, func(o *Term) {
				if o.op == OObj && !o.rigid() && keep.m[o] == nil {
					keep.m[o] = newObj("!"+o.name, o.typ, o.site)
				}
			})
		}
		for a, v := range final.heap {
			fix(a)
			fix(v)
		}
		for a, v := range final.heap {
			r := rootOf(mapRoot(a))
			if r.op == OGlobal && written[r.g] {
				continue
			}
			e.globals[keep.apply(a)] = keep.apply(v)
		}
	}
}

func onlyLoads(v ssa.Value) bool {
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp:
		case *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !onlyLoads(r) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func constStr(t *Term) string {
	if t.op == OConst {
		return constant.StringVal(t.c)
	}
	return ""
}
