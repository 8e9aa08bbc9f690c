package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
)

// ---- integer sets ----

const (
	negInf = math.MinInt64 / 4
	posInf = math.MaxInt64 / 4
)

type ival struct{ lo, hi int64 }

// IntSet is a sorted list of disjoint, non-adjacent intervals.
type IntSet []ival

var fullSet = IntSet{{negInf, posInf}}

func single(v int64) IntSet   { return IntSet{{v, v}} }
func rng(lo, hi int64) IntSet { return IntSet{{lo, hi}} }
func (s IntSet) empty() bool  { return len(s) == 0 }
func (s IntSet) min() int64   { return s[0].lo }
func (s IntSet) max() int64   { return s[len(s)-1].hi }
func (s IntSet) String() string {
	var b strings.Builder
	for _, v := range s {
		if v.lo == v.hi {
			fmt.Fprintf(&b, "{%d}", v.lo)
			continue
		}
		lo, hi := fmt.Sprint(v.lo), fmt.Sprint(v.hi)
		if v.lo <= negInf {
			lo = "-inf"
		}
		if v.hi >= posInf {
			hi = "inf"
		}
		fmt.Fprintf(&b, "{%s..%s}", lo, hi)
	}
	return b.String()
}

func (s IntSet) inter(o IntSet) IntSet {
	var out IntSet
	for i, j := 0, 0; i < len(s) && j < len(o); {
		lo, hi := max(s[i].lo, o[j].lo), min(s[i].hi, o[j].hi)
		if lo <= hi {
			out = append(out, ival{lo, hi})
		}
		if s[i].hi < o[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func normSet(in []ival) IntSet {
	sort.Slice(in, func(i, j int) bool { return in[i].lo < in[j].lo })
	var out IntSet
	for _, v := range in {
		if n := len(out); n > 0 && v.lo <= out[n-1].hi+1 {
			out[n-1].hi = max(out[n-1].hi, v.hi)
			continue
		}
		out = append(out, v)
	}
	return out
}

func (s IntSet) union(o IntSet) IntSet {
	return normSet(append(append([]ival{}, s...), o...))
}

func (s IntSet) compl() IntSet {
	var out IntSet
	lo := int64(negInf)
	for _, v := range s {
		if v.lo > lo {
			out = append(out, ival{lo, v.lo - 1})
		}
		lo = v.hi + 1
	}
	if lo <= posInf {
		out = append(out, ival{lo, posInf})
	}
	return out
}
func (s IntSet) minus(o IntSet) IntSet  { return s.inter(o.compl()) }
func (s IntSet) subsetOf(o IntSet) bool { return s.minus(o).empty() }
func (s IntSet) disjoint(o IntSet) bool { return s.inter(o).empty() }
func (s IntSet) equal(o IntSet) bool {
	if len(s) != len(o) {
		return false
	}
	for i := range s {
		if s[i] != o[i] {
			return false
		}
	}
	return true
}
func clamp(v int64) int64 {
	if v <= negInf/2 {
		return negInf
	}
	if v >= posInf/2 {
		return posInf
	}
	return v
}

// shift returns {f*x+k | x in s} for f = ±1.
func (s IntSet) affine(f, k int64) IntSet {
	var out []ival
	for _, v := range s {
		a, b := v.lo, v.hi
		if f < 0 {
			a, b = -b, -a
		}
		if a > negInf {
			a += k
		}
		if b < posInf {
			b += k
		}
		out = append(out, ival{clamp(a), clamp(b)})
	}
	return normSet(out)
}

// ---- type facts ----

// A universe lists the concrete types that implement a closed interface.
type universe struct {
	iface *types.Named
	impls []types.Type
	keys  []string
}

func (u *universe) index(t types.Type) int {
	k := typeKey(t)
	for i, s := range u.keys {
		if s == k {
			return i
		}
	}
	return -1
}

type TypeFact struct {
	// For closed interfaces: allowed implementations as a bitmask.
	u       *universe
	allowed uint64
	// For open interfaces.
	is    types.Type
	isNot []string
}

func (f TypeFact) key() string {
	s := fmt.Sprintf("%x", f.allowed)
	if f.is != nil {
		s += "=" + typeKey(f.is)
	}
	return s + strings.Join(f.isNot, ",")
}

type StrFact struct {
	neq []string
}

// Facts is the path condition: what is known about symbolic terms.
type Facts struct {
	ints  map[*Term]IntSet
	types map[*Term]TypeFact
	bools map[*Term]bool
	strEq map[*Term]string
	strNe map[*Term][]string
	rel   []*Term         // linear terms known to be <= 0
	ne    []*Term         // linear terms known to be != 0
	defs  map[*Term]*Term // what a generalised sequence is equivalent to
}

func newFacts() *Facts {
	return &Facts{map[*Term]IntSet{}, map[*Term]TypeFact{}, map[*Term]bool{}, map[*Term]string{}, map[*Term][]string{}, nil, nil, map[*Term]*Term{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (f *Facts) clone() *Facts {
	return &Facts{cloneMap(f.ints), cloneMap(f.types), cloneMap(f.bools), cloneMap(f.strEq), cloneMap(f.strNe),
		append([]*Term(nil), f.rel...), append([]*Term(nil), f.ne...), cloneMap(f.defs)}
}

// intSet returns what is known about integer term t.
func (st *State) intSet(t *Term) IntSet {
	f := st.facts
	if v, ok := t.intVal(); ok {
		return single(v)
	}
	if t.op == OLin {
		if len(t.args) == 1 && (t.coefs[0] == 1 || t.coefs[0] == -1) {
			return st.intSet(t.args[0]).affine(t.coefs[0], t.k)
		}
		lo, hi := st.bounds(toLin(t))
		return rng(lo, hi)
	}
	s := fullSet
	if t.op == OLen {
		s = rng(0, posInf)
		if v, ok := f.strEq[t.args[0]]; ok {
			return single(int64(len(v)))
		}
	}
	if b, ok := basicOf(t.typ); ok {
		switch b.Kind() {
		case types.Uint8:
			s = rng(0, 255)
		case types.Uint, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			s = rng(0, posInf)
		}
	}
	if v, ok := f.ints[t]; ok {
		s = s.inter(v)
	}
	if st.eng.intFacts != nil {
		if v := st.eng.intFacts(st, t); v != nil {
			s = s.inter(v)
		}
	}
	return s
}

func basicOf(t types.Type) (*types.Basic, bool) {
	if t == nil {
		return nil, false
	}
	b, ok := t.Underlying().(*types.Basic)
	return b, ok
}

// bounds computes interval bounds of a linear form.
func (st *State) bounds(l lin) (lo, hi int64) {
	lo, hi = l.k, l.k
	for t, c := range l.atoms {
		s := st.intSet(t)
		if s.empty() {
			return 1, 0
		}
		a, b := s.min(), s.max()
		if c < 0 {
			a, b = b, a
		}
		if lo > negInf {
			if a <= negInf || a >= posInf {
				lo = negInf
			} else {
				lo = clamp(lo + a*c)
			}
		}
		if hi < posInf {
			if b <= negInf || b >= posInf {
				hi = posInf
			} else {
				hi = clamp(hi + b*c)
			}
		}
	}
	return
}

// provesLE reports whether l <= 0 is known.
func (st *State) provesLE(l lin) bool {
	return st.provesLEd(l, 3)
}

func (st *State) provesLEd(l lin, depth int) bool {
	if _, hi := st.bounds(l); hi <= 0 {
		return true
	}
	if depth == 0 || len(l.atoms) == 0 {
		return false
	}
	for _, r := range st.facts.rel {
		rl := toLin(r)
		// Use a fact only if it cancels an atom of l that has no bound.
		cancels := false
		for t, c := range l.atoms {
			if c2 := rl.atoms[t]; c2 == c {
				cancels = true
				break
			}
		}
		if cancels && st.provesLEd(l.add(rl, -1), depth-1) {
			return true
		}
	}
	if st.eng.relFacts != nil {
		for _, rl := range st.eng.relFacts(st, l) {
			if st.provesLEd(l.add(rl, -1), depth-1) {
				return true
			}
		}
	}
	return false
}

// addLE records l <= 0. It reports false if that contradicts what is known.
func (st *State) addLE(l lin) bool {
	if st.provesLE(l) {
		return true
	}
	if st.provesLE(lin{nil, 1}.add(l, -1)) { // l >= 1
		return false
	}
	if len(l.atoms) == 1 {
		for t, c := range l.atoms {
			if c == 1 {
				return st.restrictInt(t, rng(negInf, -l.k))
			}
			if c == -1 {
				return st.restrictInt(t, rng(l.k, posInf))
			}
		}
	}
	// A disequality can sharpen it: l <= 0 and l != 0 gives l+1 <= 0.
	tm := l.term(tInt)
	neg := lin{nil, 0}.add(l, -1).term(tInt)
	for i, n := range st.facts.ne {
		if n == tm || n == neg {
			st.facts.ne = append(append([]*Term(nil), st.facts.ne[:i]...), st.facts.ne[i+1:]...)
			return st.addLE(l.add(lin{nil, 1}, 1))
		}
	}
	st.facts.rel = append(st.facts.rel, tm)
	return true
}

func (st *State) restrictInt(t *Term, s IntSet) bool {
	if v, ok := t.intVal(); ok {
		return !single(v).disjoint(s)
	}
	if t.op == OLin && len(t.args) == 1 && (t.coefs[0] == 1 || t.coefs[0] == -1) {
		// c*x+k in s  =>  x in c*(s-k)
		return st.restrictInt(t.args[0], s.affine(1, -t.k).affine(t.coefs[0], 0))
	}
	n := st.intSet(t).inter(s)
	if n.empty() {
		return false
	}
	st.facts.ints[t] = n
	for _, r := range st.facts.rel {
		if rl := toLin(r); rl.atoms[t] != 0 {
			if lo, _ := st.bounds(rl); lo > 0 {
				return false
			}
		}
	}
	return true
}

// addNE records l != 0.
func (st *State) addNE(l lin) bool {
	if k, ok := l.konst(); ok {
		return k != 0
	}
	if len(l.atoms) == 1 {
		for t, c := range l.atoms {
			if c == 1 || c == -1 {
				return st.restrictInt(t, single(-l.k*c).compl())
			}
		}
	}
	if st.provesLE(l) && st.provesLE(lin{nil, 0}.add(l, -1)) {
		return false
	}
	if st.provesLE(l) {
		return st.addLE(l.add(lin{nil, 1}, 1))
	}
	neg := lin{nil, 0}.add(l, -1)
	if st.provesLE(neg) {
		return st.addLE(neg.add(lin{nil, 1}, 1))
	}
	st.facts.ne = append(st.facts.ne, l.term(tInt))
	return true
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

// eval decides boolean term t from the facts, if possible.
func (st *State) eval(t *Term) tri {
	if b, ok := t.boolVal(); ok {
		return triOf(b)
	}
	if b, ok := st.facts.bools[t]; ok {
		return triOf(b)
	}
	switch t.op {
	case OUn:
		if t.name == "!" {
			switch st.eval(t.args[0]) {
			case yes:
				return no
			case no:
				return yes
			}
		}
	case OBin:
		a, b := t.args[0], t.args[1]
		switch t.name {
		case "==":
			return st.evalEq(a, b)
		case "<", "<=":
			l := toLin(a).add(toLin(b), -1)
			if t.name == "<" {
				l.k++
			}
			if st.provesLE(l) {
				return yes
			}
			if st.provesLE(lin{nil, 1}.add(l, -1)) {
				return no
			}
		}
	case OExt:
		switch t.name {
		case "isType":
			return st.hasType(t.args[0], t.typ2)
		case "strings.HasPrefix":
			if p, ok := t.args[1].strVal(); ok {
				if st.intSet(mkLen(t.args[0])).max() < int64(len(p)) {
					return no
				}
				all := st.intSet(mkLen(t.args[0])).min() >= int64(len(p))
				for i := range p {
					set, ok := st.facts.ints[byteAt(t.args[0], mkInt(int64(i)))]
					if ok && set.disjoint(single(int64(p[i]))) {
						return no
					}
					all = all && ok && set.equal(single(int64(p[i])))
				}
				if all {
					return yes
				}
			}
		}
	}
	return unknown
}

func isNilable(t types.Type) bool {
	if t == nil {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return true
	}
	return false
}

func (st *State) evalEq(a, b *Term) tri {
	if a == b {
		return yes
	}
	if b.op == ONil {
		a, b = b, a
	}
	if a.op == ONil {
		return st.isNil(b)
	}
	if isIntType(a.typ) || isIntType(b.typ) {
		l := toLin(a).add(toLin(b), -1)
		if k, ok := l.konst(); ok {
			return triOf(k == 0)
		}
		if len(l.atoms) == 1 {
			for t, c := range l.atoms {
				if c == 1 || c == -1 {
					s := st.intSet(t)
					v := -l.k * c
					if s.disjoint(single(v)) {
						return no
					}
					if s.equal(single(v)) {
						return yes
					}
				}
			}
			return unknown
		}
		le, ge := st.provesLE(l), st.provesLE(lin{nil, 0}.add(l, -1))
		if le && ge {
			return yes
		}
		if st.provesLE(l.add(lin{nil, 1}, 1)) || st.provesLE(lin{nil, 1}.add(l, -1)) {
			return no
		}
		tm, neg := l.term(tInt), lin{nil, 0}.add(l, -1).term(tInt)
		for _, n := range st.facts.ne {
			if n == tm || n == neg {
				return no
			}
		}
		return unknown
	}
	if a.op == OConst && b.op == OConst {
		return triOf(constant.Compare(a.c, token.EQL, b.c))
	}
	if isStringTerm(a) || isStringTerm(b) {
		return st.evalStrEq(a, b)
	}
	if isObjAddr(a) && isObjAddr(b) {
		return no
	}
	if a.op == OGlobal && b.op == OGlobal {
		return no
	}
	if (a.op == OObj && b.op == OInit) || (b.op == OObj && a.op == OInit) {
		return no
	}
	if a.op == OIface && b.op == OIface {
		if typeKey(a.typ2) != typeKey(b.typ2) {
			return no
		}
		return st.evalEq(a.args[0], b.args[0])
	}
	if a.op == OFunc && b.op == OFunc {
		return no
	}
	return unknown
}

func isObjAddr(t *Term) bool { return t.op == OObj }

func isStringTerm(t *Term) bool {
	if t.op == OConst && t.c.Kind() == constant.String {
		return true
	}
	b, ok := basicOf(t.typ)
	return ok && b.Info()&types.IsString != 0
}

func (st *State) knownStr(t *Term) (string, bool) {
	if s, ok := t.strVal(); ok {
		return s, true
	}
	s, ok := st.facts.strEq[t]
	return s, ok
}

func (st *State) evalStrEq(a, b *Term) tri {
	sa, oka := st.knownStr(a)
	sb, okb := st.knownStr(b)
	switch {
	case oka && okb:
		return triOf(sa == sb)
	case okb:
		a, b, sa, sb = b, a, sb, sa
	case !oka:
		if v, ok := st.facts.bools[eqTerm(a, b)]; ok {
			return triOf(v)
		}
		return unknown
	}
	// a is known to be sa; b is not known.
	for _, n := range st.facts.strNe[b] {
		if n == sa {
			return no
		}
	}
	if st.intSet(mkLen(b)).disjoint(single(int64(len(sa)))) {
		return no
	}
	if st.eng.strNe != nil && st.eng.strNe(st, b, sa) {
		return no
	}
	if b.op == OExt && b.name == "concat" {
		if p, ok := b.args[0].strVal(); ok && !strings.HasPrefix(sa, p) {
			return no
		}
	}
	return unknown
}

func (st *State) isNil(t *Term) tri {
	switch t.op {
	case ONil:
		return yes
	case OObj, OField, OElem, OGlobal, OFunc, OClosure, OIface, OSlice, OConst:
		return no
	}
	if v, ok := st.facts.bools[eqTerm(t, nilTerm)]; ok {
		return triOf(v)
	}
	if t.op == OIdx {
		if v, ok := st.facts.bools[ext("allnonnil", tBool, t.args[0])]; ok && v {
			return no
		}
	}
	if f, ok := st.facts.types[t]; ok {
		if f.is != nil {
			return no
		}
		if f.u != nil && st.eng.closedNonNil {
			return no
		}
	}
	if t.op == OData {
		return no
	}
	if t.op == OExt && strings.HasPrefix(t.name, "err!") {
		return no
	}
	if st.eng.nilFacts != nil {
		return st.eng.nilFacts(st, t)
	}
	return unknown
}

// byteAt is the byte s[i].
func byteAt(s, i *Term) *Term { return ext("strat", types.Typ[types.Uint8], s, i) }

func eqTerm(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return T.intern(&Term{op: OBin, name: "==", args: []*Term{a, b}, typ: tBool})
}
func ltTerm(a, b *Term) *Term {
	return T.intern(&Term{op: OBin, name: "<", args: []*Term{a, b}, typ: tBool})
}
func leTerm(a, b *Term) *Term {
	return T.intern(&Term{op: OBin, name: "<=", args: []*Term{a, b}, typ: tBool})
}
func notTerm(a *Term) *Term {
	if b, ok := a.boolVal(); ok {
		return mkBool(!b)
	}
	if a.op == OUn && a.name == "!" {
		return a.args[0]
	}
	return T.intern(&Term{op: OUn, name: "!", args: []*Term{a}, typ: tBool})
}
func isTypeTerm(x *Term, t types.Type) *Term {
	return T.intern(&Term{op: OExt, name: "isType", n: typeID(t), args: []*Term{x}, typ: tBool, typ2: t})
}

var typeIDs = map[string]int{}

func typeID(t types.Type) int {
	k := typeKey(t)
	id, ok := typeIDs[k]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[k] = id
	}
	return id
}

// hasType decides whether interface value x has dynamic type t (or, for an
// interface type t, implements it).
func (st *State) hasType(x *Term, t types.Type) tri {
	if x.op == ONil {
		return no
	}
	if x.op == OIface {
		if types.IsInterface(t) {
			return triOf(types.Implements(x.typ2, t.Underlying().(*types.Interface)))
		}
		return triOf(typeKey(x.typ2) == typeKey(t))
	}
	if st.isNil(x) == yes {
		return no
	}
	f, ok := st.typeFact(x)
	u := st.eng.universeOf(x.typ)
	if types.IsInterface(t) {
		if f.is != nil {
			return triOf(types.Implements(f.is, t.Underlying().(*types.Interface)))
		}
		if st.isNil(x) == no && x.typ != nil && types.Implements(x.typ, t.Underlying().(*types.Interface)) {
			return yes
		}
		return unknown
	}
	if u != nil {
		allowed := uint64(1)<<len(u.impls) - 1
		if ok && f.u != nil {
			allowed = f.allowed
		}
		i := u.index(t)
		if i < 0 || allowed&(1<<i) == 0 {
			return no
		}
		if allowed == 1<<i && st.isNil(x) == no {
			return yes
		}
		return unknown
	}
	if ok {
		if f.is != nil {
			return triOf(typeKey(f.is) == typeKey(t))
		}
		for _, k := range f.isNot {
			if k == typeKey(t) {
				return no
			}
		}
	}
	return unknown
}

func (st *State) assumeType(x *Term, t types.Type, val bool) bool {
	switch st.hasType(x, t) {
	case yes:
		return val
	case no:
		return !val
	}
	if types.IsInterface(t) {
		st.facts.bools[isTypeTerm(x, t)] = val
		if val {
			return st.assumeNil(x, false)
		}
		return true
	}
	f, _ := st.typeFact(x)
	if u := st.eng.universeOf(x.typ); u != nil {
		if f.u == nil {
			f.u, f.allowed = u, uint64(1)<<len(u.impls)-1
		}
		bit := uint64(1) << u.index(t)
		if val {
			f.allowed &= bit
			if !st.assumeNil(x, false) {
				return false
			}
		} else {
			f.allowed &^= bit
		}
		if f.allowed == 0 && st.isNil(x) == no {
			return false
		}
		st.facts.types[x] = f
		return true
	}
	if val {
		f.is, f.isNot = t, nil
		if !st.assumeNil(x, false) {
			return false
		}
	} else {
		f.isNot = append(append([]string(nil), f.isNot...), typeKey(t))
		sort.Strings(f.isNot)
	}
	st.facts.types[x] = f
	return true
}

// typesOf lists the concrete types x may have, if its interface is closed.
func (st *State) typesOf(x *Term) []types.Type {
	if x.op == OIface {
		return []types.Type{x.typ2}
	}
	f, ok := st.typeFact(x)
	if ok && f.is != nil {
		return []types.Type{f.is}
	}
	u := st.eng.universeOf(x.typ)
	if u == nil {
		return nil
	}
	allowed := uint64(1)<<len(u.impls) - 1
	if ok && f.u != nil {
		allowed = f.allowed
	}
	var out []types.Type
	for i, t := range u.impls {
		if allowed&(1<<i) != 0 {
			out = append(out, t)
		}
	}
	return out
}

func (st *State) assumeNil(x *Term, val bool) bool {
	switch st.isNil(x) {
	case yes:
		return val
	case no:
		return !val
	}
	st.facts.bools[eqTerm(x, nilTerm)] = val
	if val {
		return st.restrictLenZero(x)
	}
	return true
}

func (st *State) restrictLenZero(x *Term) bool {
	if x.typ != nil {
		switch x.typ.Underlying().(type) {
		case *types.Slice, *types.Map:
			return st.restrictInt(mkLen(x), single(0))
		}
	}
	return true
}

// assume adds the fact that t is val; it reports false if that is impossible.
func (st *State) assume(t *Term, val bool) bool {
	switch st.eval(t) {
	case yes:
		return val
	case no:
		return !val
	}
	switch t.op {
	case OUn:
		if t.name == "!" {
			return st.assume(t.args[0], !val)
		}
	case OBin:
		a, b := t.args[0], t.args[1]
		switch t.name {
		case "==":
			return st.assumeEq(a, b, val)
		case "<", "<=":
			l := toLin(a).add(toLin(b), -1)
			if t.name == "<" {
				l.k++
			}
			if !val {
				l = lin{nil, 1}.add(l, -1)
			}
			return st.addLE(l)
		}
	case OExt:
		switch t.name {
		case "isType":
			return st.assumeType(t.args[0], t.typ2, val)
		case "strings.HasPrefix":
			// Settle the bytes it is about as well.
			if p, ok := t.args[1].strVal(); ok {
				if val {
					if !st.restrictInt(mkLen(t.args[0]), rng(int64(len(p)), posInf)) {
						return false
					}
					for i := range p {
						if !st.restrictInt(byteAt(t.args[0], mkInt(int64(i))), single(int64(p[i]))) {
							return false
						}
					}
				} else if len(p) == 1 && st.intSet(mkLen(t.args[0])).min() >= 1 {
					if !st.restrictInt(byteAt(t.args[0], mkInt(0)), rng(0, 255).minus(single(int64(p[0])))) {
						return false
					}
				}
			}
		}
	}
	st.facts.bools[t] = val
	if st.eng.onAssume != nil {
		return st.eng.onAssume(st, t, val)
	}
	return true
}

func (st *State) assumeEq(a, b *Term, val bool) bool {
	if b.op == ONil {
		a, b = b, a
	}
	if a.op == ONil {
		return st.assumeNil(b, val)
	}
	if isIntType(a.typ) || isIntType(b.typ) {
		l := toLin(a).add(toLin(b), -1)
		if !val {
			return st.addNE(l)
		}
		if len(l.atoms) == 1 {
			for t, c := range l.atoms {
				if c == 1 || c == -1 {
					return st.restrictInt(t, single(-l.k*c))
				}
			}
		}
		return st.addLE(l) && st.addLE(lin{nil, 0}.add(l, -1))
	}
	if isStringTerm(a) || isStringTerm(b) {
		if s, ok := st.knownStr(b); ok {
			a, b = b, a
			_ = s
		}
		if s, ok := st.knownStr(a); ok {
			if val {
				st.facts.strEq[b] = s
				if st.eng.onStrEq != nil {
					st.eng.onStrEq(st, b, s)
				}
				return st.restrictInt(mkLen(b), single(int64(len(s)))) || b.op == OExt
			}
			ne := append(append([]string(nil), st.facts.strNe[b]...), s)
			sort.Strings(ne)
			st.facts.strNe[b] = ne
			if st.eng.onStrNe != nil {
				st.eng.onStrNe(st, b, s)
			}
			if s == "" {
				return st.restrictInt(mkLen(b), rng(1, posInf))
			}
			return true
		}
	}
	st.facts.bools[eqTerm(a, b)] = val
	if st.eng.onAssume != nil {
		return st.eng.onAssume(st, eqTerm(a, b), val)
	}
	return true
}
