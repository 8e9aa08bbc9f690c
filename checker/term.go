package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Terms are the abstract values of the interpreter. They are hash-consed, so
// that equal terms are identical pointers.

type Op uint8

const (
	OConst   Op = iota // c
	ONil               // nil of any type
	OSym               // unknown value, name
	OObj               // pointer to an object allocated by the analysed code
	OField             // address of field n of the struct at args[0]
	OElem              // address of element args[1] of the array at args[0]
	OGlobal            // address of a package variable
	OFunc              // a function
	OClosure           // closure: fn, bindings
	OIface             // interface value: dynamic type typ2, args[0]
	OStruct            // struct value
	OTuple             // tuple
	OSlice             // slice value: array, lo, hi
	OArr               // the backing array of a symbolic slice value
	OLen               // len(args[0])
	OLin               // linear combination
	OBin               // opaque binary operation
	OUn                // opaque unary operation
	OConv              // conversion to typ
	OExt               // result of a pure function, name
	OInit              // initial contents of the location args[0]
	OSeq               // sequence contents: parts
	OSeg               // part of a sequence: elements lo..hi of symbolic args[0]
	OIdx               // element args[1] of symbolic sequence args[0]
	OFld               // field n of a symbolic struct value
	OData              // the pointer inside symbolic interface value args[0]
	OMap               // map contents: name put/del/empty/init
)

type Term struct {
	id    int
	op    Op
	typ   types.Type
	typ2  types.Type
	args  []*Term
	c     constant.Value
	n     int
	coefs []int64
	k     int64 // constant part of OLin
	name  string
	fn    *ssa.Function
	g     *ssa.Global
	site  token.Pos // for objects
	syms  bool      // contains symbols or objects
}

type Terms struct {
	tab  map[string]*Term
	next int
	uniq int
}

var T = &Terms{tab: map[string]*Term{}}

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	return types.TypeString(t, nil)
}

func (ts *Terms) intern(t *Term) *Term {
	var b strings.Builder
	fmt.Fprintf(&b, "%d|", t.op)
	switch t.op {
	case OConst:
		b.WriteString(t.c.Kind().String())
		b.WriteString(t.c.ExactString())
		if t.c.Kind() == constant.Int && isEnum(t.typ) {
			b.WriteString(typeKey(t.typ))
		}
	case OSym, OObj:
		fmt.Fprintf(&b, "%s|%d", t.name, t.n)
	case OFunc, OClosure:
		fmt.Fprintf(&b, "%p", t.fn)
	case OGlobal:
		fmt.Fprintf(&b, "%p", t.g)
	case OIface:
		b.WriteString(typeKey(t.typ2))
	case OConv:
		b.WriteString(typeKey(t.typ))
	case OLin:
		fmt.Fprintf(&b, "%d:%v", t.k, t.coefs)
	default:
		fmt.Fprintf(&b, "%d|%s", t.n, t.name)
	}
	for _, a := range t.args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	key := b.String()
	if o, ok := ts.tab[key]; ok {
		return o
	}
	ts.next++
	t.id = ts.next
	t.syms = t.op == OSym || t.op == OObj
	for _, a := range t.args {
		t.syms = t.syms || a.syms
	}
	ts.tab[key] = t
	return t
}

func mk(op Op, typ types.Type, name string, n int, args ...*Term) *Term {
	return T.intern(&Term{op: op, typ: typ, name: name, n: n, args: args})
}

func newSym(name string, typ types.Type) *Term {
	T.uniq++
	return T.intern(&Term{op: OSym, name: name, n: T.uniq, typ: typ})
}

func newObj(name string, ptrType types.Type, site token.Pos) *Term {
	T.uniq++
	return T.intern(&Term{op: OObj, name: name, n: T.uniq, typ: ptrType, site: site})
}

var (
	tInt    = types.Typ[types.Int]
	tRune   = types.Typ[types.Rune]
	tBool   = types.Typ[types.Bool]
	tString = types.Typ[types.String]
	nilTerm = mk(ONil, types.Typ[types.UntypedNil], "nil", 0)
	trueT   = mkConst(constant.MakeBool(true), tBool)
	falseT  = mkConst(constant.MakeBool(false), tBool)
)

func mkConst(c constant.Value, typ types.Type) *Term {
	return T.intern(&Term{op: OConst, c: c, typ: typ})
}
func mkInt(i int64) *Term  { return mkConst(constant.MakeInt64(i), tInt) }
func mkStr(s string) *Term { return mkConst(constant.MakeString(s), tString) }
func mkBool(b bool) *Term {
	if b {
		return trueT
	}
	return falseT
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) intVal() (int64, bool) {
	if t.op == OConst && t.c.Kind() == constant.Int {
		return constant.Int64Val(t.c)
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == OConst && t.c.Kind() == constant.String {
		return constant.StringVal(t.c), true
	}
	return "", false
}
func (t *Term) boolVal() (bool, bool) {
	if t.op == OConst && t.c.Kind() == constant.Bool {
		return constant.BoolVal(t.c), true
	}
	return false, false
}

// ---- linear arithmetic ----

type lin struct {
	atoms map[*Term]int64
	k     int64
}

func toLin(t *Term) lin {
	if v, ok := t.intVal(); ok {
		return lin{nil, v}
	}
	if t.op == OLin {
		m := make(map[*Term]int64, len(t.args))
		for i, a := range t.args {
			m[a] = t.coefs[i]
		}
		return lin{m, t.k}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func (a lin) add(b lin, f int64) lin {
	m := make(map[*Term]int64, len(a.atoms)+len(b.atoms))
	for t, c := range a.atoms {
		m[t] = c
	}
	for t, c := range b.atoms {
		m[t] += c * f
		if m[t] == 0 {
			delete(m, t)
		}
	}
	return lin{m, a.k + b.k*f}
}

func (a lin) term(typ types.Type) *Term {
	if typ == nil {
		typ = tInt
	}
	if len(a.atoms) == 0 {
		return mkConst(constant.MakeInt64(a.k), typ)
	}
	var as []*Term
	for t := range a.atoms {
		as = append(as, t)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && a.k == 0 && a.atoms[as[0]] == 1 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, t := range as {
		cs[i] = a.atoms[t]
	}
	return T.intern(&Term{op: OLin, args: as, coefs: cs, k: a.k, typ: typ})
}

func add(a, b *Term) *Term         { return toLin(a).add(toLin(b), 1).term(a.typ) }
func sub(a, b *Term) *Term         { return toLin(a).add(toLin(b), -1).term(a.typ) }
func addK(a *Term, k int64) *Term  { return toLin(a).add(lin{nil, k}, 1).term(a.typ) }
func (a lin) konst() (int64, bool) { return a.k, len(a.atoms) == 0 }
func diffConst(a, b *Term) (int64, bool) {
	return toLin(a).add(toLin(b), -1).konst()
}

// ---- substitution ----

type subst struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
	// seqPrefix: sequences starting with these parts have them replaced.
	prefixes []seqPrefix
	// lins: linear terms equal to key plus a constant are replaced.
	lins []linRepl
}
type seqPrefix struct {
	parts []*Term
	by    *Term
}
type linRepl struct {
	l  lin
	by *Term
}

func newSubst() *subst { return &subst{m: map[*Term]*Term{}, memo: map[*Term]*Term{}} }

func (s *subst) apply(t *Term) *Term {
	if t == nil || !t.syms {
		return t
	}
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	r := s.apply1(t)
	s.memo[t] = r
	return r
}

func (s *subst) apply1(t *Term) *Term {
	if t.op == OLin || isIntType(t.typ) {
		for _, lr := range s.lins {
			if d, ok := toLin(t).add(lr.l, -1).konst(); ok {
				return addK(lr.by, d)
			}
		}
	}
	if t.op == OSeq {
		for _, p := range s.prefixes {
			if len(t.args) >= len(p.parts) && samePrefix(t.args, p.parts) {
				out := []*Term{p.by}
				for _, a := range t.args[len(p.parts):] {
					out = append(out, s.apply(a))
				}
				return mkSeq(out...)
			}
		}
	}
	if len(t.args) == 0 {
		return t
	}
	if t.op == OLin {
		l := lin{map[*Term]int64{}, t.k}
		for i, a := range t.args {
			l = l.add(toLin(s.apply(a)), t.coefs[i])
		}
		return l.term(t.typ)
	}
	args := make([]*Term, len(t.args))
	changed := false
	for i, a := range t.args {
		args[i] = s.apply(a)
		changed = changed || args[i] != a
	}
	if !changed {
		return t
	}
	return rebuild(t, args)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case OSeq:
		return mkSeq(args...)
	case OLen:
		return mkLen(args[0])
	case OSeg:
		if b := args[0]; b.op == OSeq {
			if z, ok := args[1].intVal(); ok && z == 0 && args[2] == seqLen(b) {
				return b
			}
		}
	case OIdx:
		if b := args[0]; b.op == OSeq {
			if i, ok := args[1].intVal(); ok {
				for k, p := range b.args {
					if p.op == OSeg {
						break
					}
					if int64(k) == i {
						return p
					}
				}
			}
		}
	case OBin:
		if t.name == "==" {
			return eqTerm(args[0], args[1])
		}
	case OExt:
		if t.name == "concat" {
			return mkConcat(args...)
		}
		if t.name == "runes2str" {
			return runesStr(args[0], t.typ)
		}
	}
	n := *t
	n.args = args
	n.id = 0
	return T.intern(&n)
}

func samePrefix(a, p []*Term) bool {
	for i := range p {
		if a[i] != p[i] {
			return false
		}
	}
	return true
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// ---- sequences ----

// mkSeq builds a sequence from parts: OSeq parts are flattened, OSeg parts are
// sub-sequences, anything else is a single element.
func mkSeq(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OSeq {
			out = append(out, p.args...)
		} else {
			out = append(out, p)
		}
	}
	in := out
	out = nil
	for _, p := range in {
		if p.op == OSeg && p.args[1] == p.args[2] {
			continue
		}
		for len(out) > 0 {
			m := mergeParts(out[len(out)-1], p)
			if m == nil {
				break
			}
			out = out[:len(out)-1]
			p = m
		}
		out = append(out, p)
	}
	// Normalise: a segment of constant length becomes elements.
	var fin []*Term
	for _, p := range out {
		if p.op == OSeg {
			if d, ok := diffConst(p.args[2], p.args[1]); ok && d >= 0 && d <= 4 {
				for i := int64(0); i < d; i++ {
					fin = append(fin, mkIdx(p.args[0], addK(p.args[1], i), nil))
				}
				continue
			}
		}
		fin = append(fin, p)
	}
	return T.intern(&Term{op: OSeq, args: fin})
}

func mergeParts(l, p *Term) *Term {
	base := func(t *Term) (b, lo, hi *Term) {
		switch t.op {
		case OSeg:
			return t.args[0], t.args[1], t.args[2]
		case OIdx:
			return t.args[0], t.args[1], addK(t.args[1], 1)
		}
		return nil, nil, nil
	}
	if l.op != OSeg && p.op != OSeg {
		return nil
	}
	b0, lo0, hi0 := base(l)
	b1, lo1, hi1 := base(p)
	if b0 != nil && b0 == b1 && hi0 == lo1 {
		return mkSeg(b0, lo0, hi1)
	}
	return nil
}

func mkSeg(base, lo, hi *Term) *Term {
	return T.intern(&Term{op: OSeg, args: []*Term{base, lo, hi}})
}
func mkIdx(base, i *Term, typ types.Type) *Term {
	if typ == nil {
		typ = elemType(base.typ)
	}
	return T.intern(&Term{op: OIdx, args: []*Term{base, i}, typ: typ})
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemType(u.Elem())
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return types.Typ[types.Byte]
		}
	}
	return nil
}

func partLen(p *Term) *Term {
	if p.op == OSeg {
		return sub(p.args[2], p.args[1])
	}
	return mkInt(1)
}

func seqLen(s *Term) *Term {
	l := lin{nil, 0}
	for _, p := range s.args {
		l = l.add(toLin(partLen(p)), 1)
	}
	return l.term(tInt)
}

func mkLen(x *Term) *Term {
	switch x.op {
	case ONil:
		return mkInt(0)
	case OSlice:
		return sub(x.args[2], x.args[1])
	case OSeq:
		return seqLen(x)
	case OConst:
		if s, ok := x.strVal(); ok {
			return mkInt(int64(len(s)))
		}
	case OExt:
		if x.name == "concat" {
			l := lin{nil, 0}
			for _, a := range x.args {
				l = l.add(toLin(mkLen(a)), 1)
			}
			return l.term(tInt)
		}
		if x.name == "substr" {
			return sub(x.args[2], x.args[1])
		}
	}
	return T.intern(&Term{op: OLen, args: []*Term{x}, typ: tInt})
}

// runesStr is the string of a sequence of characters.
func runesStr(c *Term, typ types.Type) *Term {
	var rs []rune
	for _, p := range c.args {
		v, ok := p.intVal()
		if !ok || p.op != OConst {
			return ext("runes2str", typ, c)
		}
		rs = append(rs, rune(v))
	}
	return mkStr(string(rs))
}

// constRunes views a string term as a sequence of characters.
func constRunes(t *Term) *Term {
	if s, ok := t.strVal(); ok {
		var es []*Term
		for _, r := range s {
			es = append(es, mkInt(int64(r)))
		}
		return mkSeq(es...)
	}
	if t.op == OExt && t.name == "runes2str" {
		return t.args[0]
	}
	return nil
}

func mkConcat(parts ...*Term) *Term {
	var out []*Term
	for _, p := range parts {
		if p.op == OExt && p.name == "concat" {
			out = append(out, p.args...)
			continue
		}
		out = append(out, p)
	}
	var fin []*Term
	for _, p := range out {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if len(fin) > 0 {
				if s0, ok := fin[len(fin)-1].strVal(); ok {
					fin[len(fin)-1] = mkStr(s0 + s)
					continue
				}
			}
		}
		fin = append(fin, p)
	}
	switch len(fin) {
	case 0:
		return mkStr("")
	case 1:
		return fin[0]
	}
	return T.intern(&Term{op: OExt, name: "concat", args: fin, typ: tString})
}

func ext(name string, typ types.Type, args ...*Term) *Term {
	return T.intern(&Term{op: OExt, name: name, args: args, typ: typ})
}

// ---- printing ----

func (t *Term) String() string {
	if t == nil {
		return "<nil>"
	}
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.String())
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OConst:
		return t.c.String()
	case ONil:
		return "nil"
	case OSym:
		return fmt.Sprintf("%s#%d", t.name, t.n)
	case OObj:
		return fmt.Sprintf("&%s@%d", t.name, t.n)
	case OField:
		return fmt.Sprintf("%s.%s", t.args[0], fieldName(t))
	case OElem:
		return fmt.Sprintf("%s[%s]", t.args[0], t.args[1])
	case OGlobal:
		return t.g.Name()
	case OFunc:
		return t.fn.String()
	case OClosure:
		return "closure(" + t.fn.String() + ")"
	case OIface:
		return fmt.Sprintf("%s(%s)", shortType(t.typ2), t.args[0])
	case OLin:
		var s []string
		for i, a := range t.args {
			if t.coefs[i] == 1 {
				s = append(s, a.String())
			} else {
				s = append(s, fmt.Sprintf("%d*%s", t.coefs[i], a))
			}
		}
		r := strings.Join(s, "+")
		if t.k != 0 {
			r += fmt.Sprintf("%+d", t.k)
		}
		return "(" + r + ")"
	case OInit:
		return "init(" + as() + ")"
	case OLen:
		return "len(" + as() + ")"
	case OSeq:
		return "seq[" + as() + "]"
	case OSeg:
		return fmt.Sprintf("%s[%s:%s]...", t.args[0], t.args[1], t.args[2])
	case OIdx:
		return fmt.Sprintf("%s[%s]", t.args[0], t.args[1])
	case OSlice:
		return fmt.Sprintf("%s[%s:%s]", t.args[0], t.args[1], t.args[2])
	case OData:
		return "data(" + as() + ")"
	case OConv:
		return shortType(t.typ) + "(" + as() + ")"
	}
	return fmt.Sprintf("%s%d:%s(%s)", opNames[t.op], t.n, t.name, as())
}

var opNames = map[Op]string{OStruct: "struct", OTuple: "tuple", OArr: "arr", OBin: "bin", OUn: "un", OExt: "ext", OFld: "fld", OMap: "map", OClosure: "clo"}

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func fieldName(t *Term) string {
	if st := structOf(t.args[0].typ); st != nil && t.n < st.NumFields() {
		return st.Field(t.n).Name()
	}
	return fmt.Sprint(t.n)
}

func structOf(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		u = p.Elem().Underlying()
	}
	st, _ := u.(*types.Struct)
	return st
}

func mkField(base *Term, i int) *Term {
	var typ types.Type
	if st := structOf(base.typ); st != nil && i < st.NumFields() {
		typ = types.NewPointer(st.Field(i).Type())
	}
	return T.intern(&Term{op: OField, args: []*Term{base}, n: i, typ: typ})
}

// rigid symbols stand for one fixed value throughout an analysis.
func (t *Term) rigid() bool {
	return (t.op == OSym || t.op == OObj) && t.name != "" && t.name[0] == '!'
}
