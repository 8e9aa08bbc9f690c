package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Which transforms run. The formatter is followed with the caller's settings
// unknown, and one root form, at an unknown index, is watched: which functions
// that may change a form it is handed to, under which settings.

func init() {
	checks["C19"] = checkC19
}

// The settings, and whether the documentation has them on by default.
var transformDefaults = []struct {
	name string
	on   bool
	form string // the only root form it applies to, if any
	mark string // a text that code for it, and for it alone, must know
}{
	{"TransformSortImportRequire", true, "ns", ""},
	{"TransformEnforceNSStyle", true, "ns", "gen-class"},
	{"TransformRemoveTrailingNewlines", true, "", ""},
	{"TransformFixDefnArglistNewline", true, "defn", ""},
	{"TransformFixDefmethodDispatchValNewline", true, "defmethod", ""},
	{"TransformRemoveExtraBlankLines", true, "", "roots"},
	{"TransformFixIfNewlineConsistency", true, "", "if-let"},
	{"TransformUseToRequire", false, "ns", ":use"},
	{"TransformRemoveUnusedRequires", false, "ns", ""},
}

type settingMon struct {
	root  *Term // the root form watched
	roots *Term
	index *Term
	ran   map[string]bool
	order []string // the same, in the order of the calls
	known []tri    // the settings' values
	heads []tri    // what is known of the root form watched
	leaf  bool
	never bool // what has been learnt on the way contradicts itself: no run goes this way
}

func (m *settingMon) Clone() Monitor {
	c := *m
	c.order = append([]string(nil), m.order...)
	c.ran = map[string]bool{}
	for k := range m.ran {
		c.ran[k] = true
	}
	return &c
}
func (m *settingMon) Roots() []*Term      { return []*Term{m.root, m.roots, m.index} }
func (m *settingMon) SetRoots(ts []*Term) { m.root, m.roots, m.index = ts[0], ts[1], ts[2] }
func (m *settingMon) Key() string {
	return fmt.Sprint(strings.Join(m.order, ","), m.known, m.heads, m.leaf, m.never)
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// settingRun is one way the formatter may go.
type settingRun struct {
	order []string
	ran   map[string]bool
	value []tri // per setting
	heads []tri // whether it is the form the setting is for
	leaf  bool  // the form has no sub-forms
	where string
}

type settings struct {
	*transformer
	consts []*Term // the setting keys
	field  *types.Var
	path   []int
	stuck  bool // a run could not be decided
	seen   map[string]bool
	runs   []settingRun
	poss   map[string]token.Pos
	items  map[string]workItem
	fns    map[string][]*ssa.Function
}

func checkC19(p *Program, r *Report) {
	r.rule("the formatter is followed from its entry with the settings of the caller and the tree unknown; for one root form at an unknown index, and for the list of root forms, the functions they are given to are noted with the settings known on that way. Each such function must belong to one setting: it is called only when that is on, and always when it is on and the form is one it is for. The settings are those of the caller where given, else those documented")
	s := newSettings(p, r, "C19")
	if s == nil {
		return
	}
	for x, d := range transformDefaults {
		for _, o := range []struct {
			what      string
			has, isOn tri
		}{{"on", yes, yes}, {"off", yes, no}, {"not given", no, unknown}} {
			s.run(fmt.Sprintf("%s, the others %s", d.name, o.what), func(i int) (has, isOn tri) {
				if i == x {
					return unknown, unknown
				}
				return o.has, o.isOn
			})
		}
	}
	s.decide()
	r.need("ways_judged", 20)
	r.need("settings_decided", len(transformDefaults))
}

func newSettings(p *Program, r *Report, id string) *settings {
	tr := newTransformer(p, r, id)
	if tr == nil {
		return nil
	}
	s := &settings{transformer: tr, seen: map[string]bool{}, poss: map[string]token.Pos{}, items: map[string]workItem{}, fns: map[string][]*ssa.Function{}}
	scope := p.pkgs["format"].Pkg.Scope()
	for _, d := range transformDefaults {
		c, _ := scope.Lookup(d.name).(*types.Const)
		if c == nil {
			r.fail("anchor", d.name, "-", "the setting %s was not found", d.name)
			return nil
		}
		n, _ := constant.Int64Val(c.Val())
		s.consts = append(s.consts, mkConst(constant.MakeInt64(n), c.Type()))
	}
	st, ok := tr.recv.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	if !ok {
		r.fail("anchor", "Printer", "-", "the printer is not a struct")
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if f := st.Field(i); isSettings(f.Type()) && f.Exported() {
			s.field, s.path = f, []int{i}
		}
	}
	if s.field == nil {
		r.fail("anchor", "Transforms", "-", "the printer has no field for the settings")
		return nil
	}
	return s
}

func (s *settings) run(what string, given func(i int) (has, isOn tri)) {
	r := s.r
	if s.stuck {
		return
	}
	e := s.engine()
	e.budget = 150 * time.Second
	e.smallK = 1
	e.unrollMaps = true
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 0
	st := e.newState(nil)
	var args []*Term
	var tree *Term
	for i, prm := range s.entry.Params {
		x := newSym("!"+prm.Name(), prm.Type())
		if i == 0 || isPtr(prm.Type()) {
			st.facts.bools[eqTerm(x, nilTerm)] = false
		}
		if i > 0 {
			tree = x
		}
		args = append(args, x)
	}
	user := st.load(fieldAddr(args[0], s.path), s.field.Type())
	content := st.mapContent(user)
	has := func(i int) *Term { return ext("has", tBool, content, s.consts[i]) }
	for i := range s.consts {
		h, on := given(i)
		if h != unknown {
			st.assume(has(i), h == yes)
		}
		if on != unknown {
			st.assume(ext("lookup", tBool, content, s.consts[i]), on == yes)
		}
	}
	value := func(st *State, i int) tri {
		v := st.eval(ext("lookup", tBool, content, s.consts[i]))
		def := no
		if transformDefaults[i].on {
			def = yes
		}
		switch h := st.eval(has(i)); {
		case h == yes || h == unknown && v == def:
			return v
		case h == no:
			return def
		}
		return unknown
	}
	// the root forms
	seqT := types.NewSlice(s.m.iface)
	var roots *Term
	ts := tree.typ.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
	for i := 0; i < ts.NumFields(); i++ {
		if types.Identical(ts.Field(i).Type(), seqT) {
			roots = st.load(fieldAddr(tree, []int{i}), seqT)
		}
	}
	if roots == nil {
		r.fail("anchor", "roots", "-", "the root forms of a tree were not found")
		return
	}
	k := newSym("!k", tInt)
	st.restrictInt(k, rng(0, posInf))
	st.assumeLess(k, mkLen(roots))
	root := newSym("!root", s.m.iface)
	st.facts.bools[eqTerm(root, nilTerm)] = false
	mon := &settingMon{root: root, roots: roots, index: k, ran: map[string]bool{}, known: make([]tri, len(s.consts)), heads: make([]tri, len(s.consts))}
	st.mon = mon
	e.onElem = func(st *State, ins *ssa.UnOp, v *Term) []*State {
		m := st.mon.(*settingMon)
		if v.op != OIdx || v.args[0] != m.roots {
			return []*State{st}
		}
		i := v.args[1]
		var out []*State
		if st.evalEq(i, m.index) != yes {
			lt, gt := st.fork(), st.fork()
			// what is learnt of another root form is of no account later
			if lt.assumeLess(i, m.index) {
				lt.set(ins, newSym("other", s.m.iface))
				out = append(out, lt)
			}
			if gt.assumeLess(m.index, i) {
				gt.set(ins, newSym("other", s.m.iface))
				out = append(out, gt)
			}
			if !st.sameInt(i, m.index) {
				return out
			}
		}
		st.set(ins, m.root)
		return append(out, st)
	}
	e.onCall = s.driveCalls(func(st *State, ci *callInfo, x *Term) {
		r.count("rewriting_calls", 1)
		m := st.mon.(*settingMon)
		it := workItem{fn: ci.fn, clos: closures(ci)}
		name := it.name()
		s.items[name] = it
		s.poss[name] = ci.pos
		fs := []*ssa.Function{ci.fn}
		for _, c := range closures(ci) {
			if c != nil {
				fs = append(fs, c.fn)
			}
		}
		s.fns[name] = fs
		if x == nil {
			name = "roots:" + name
			s.items[name] = it
		} else if x != m.root && st.evalEq(x, m.root) != yes {
			return
		}
		if !m.ran[name] {
			m.order = append(m.order, name)
		}
		m.ran[name] = true
	})
	// learn notes what is known in st of the settings and the form.
	learn := func(st *State) {
		m := st.mon.(*settingMon)
		known := append([]tri(nil), m.known...)
		for i := range s.consts {
			if v := value(st, i); v != unknown {
				m.never = m.never || known[i] != unknown && known[i] != v
				known[i] = v
			}
		}
		heads := append([]tri(nil), m.heads...)
		for i, d := range transformDefaults {
			if d.form == "" {
				continue
			}
			if h := st.headIs(s.m, m.root, d.form); h != unknown {
				m.never = m.never || heads[i] != unknown && heads[i] != h
				heads[i] = h
			}
		}
		leaf := true
		for _, name := range s.m.order {
			if kd := s.m.kinds[name]; (kd.seq != nil || kd.single != nil) && st.isKind(s.m, m.root, name) != no {
				leaf = false
			}
		}
		m.known, m.heads, m.leaf = known, heads, m.leaf || leaf
	}
	e.onArrive = func(st *State, blk *ssa.BasicBlock, header bool) {
		if header {
			learn(st)
		}
	}
	e.onExit = func(st *State, ret, pv *Term) []*State {
		r.count("ways", 1)
		if pv != nil {
			return nil
		}
		m := st.mon.(*settingMon)
		learn(st)
		if m.never {
			return nil
		}
		run := settingRun{order: m.order, ran: m.ran, value: m.known, heads: m.heads, leaf: m.leaf, where: what}
		key := fmt.Sprint(run.order, run.value, run.heads, run.leaf)
		if !s.seen[key] {
			s.seen[key] = true
			r.count("ways_judged", 1)
			s.runs = append(s.runs, run)
		}
		return nil
	}
	e.pushCall(st, s.entry, args, nil, nil)
	e.Run(st)
	s.stuck = len(e.undecided) > 0
	r.engineStats(e)
}

func closures(ci *callInfo) []*Term {
	out := make([]*Term, len(ci.args))
	for i, a := range ci.args {
		if a.op == OFunc || a.op == OClosure && len(a.args) == 0 {
			out[i] = a
		}
	}
	return out
}

// decide judges the ways found.
func (s *settings) decide() {
	r := s.r
	ran := map[string]bool{}
	for _, w := range s.runs {
		for f := range w.ran {
			ran[f] = true
		}
	}
	owner := map[int][]string{}
	for _, f := range sortedKeys(ran) {
		var of []int
		for i := range s.consts {
			always := true
			for _, w := range s.runs {
				if w.ran[f] && w.value[i] != yes {
					if debugLevel == "f" && always {
						fmt.Printf("RUN %s %s %+v\n", f, transformDefaults[i].name, w)
					}
					always = false
				}
			}
			if always {
				of = append(of, i)
			}
		}
		where := posString(s.p, s.poss[strings.TrimPrefix(f, "roots:")])
		switch len(of) {
		case 0:
			r.fail("setting", f, where, "%s is not tied to a setting: it may run whatever the settings are", f)
		case 1:
			owner[of[0]] = append(owner[of[0]], f)
			r.count("functions_with_a_setting", 1)
		default:
			var names []string
			for _, i := range of {
				names = append(names, transformDefaults[i].name)
			}
			r.fail("setting", f, where, "%s runs only when %s are all on", f, strings.Join(names, " and "))
		}
	}
	// what a setting is tied to must be what it is named for
	for i, d := range transformDefaults {
		if d.mark == "" {
			continue
		}
		own, other := s.knows(owner[i], d.mark), -1
		for j := range transformDefaults {
			if j != i && s.knows(owner[j], d.mark) {
				other = j
			}
		}
		if !own && other >= 0 {
			r.fail("setting", d.name, "-", "what %s is for is done under %s", d.name, transformDefaults[other].name)
		}
	}
	for i, d := range transformDefaults {
		if len(owner[i]) == 0 {
			r.fail("setting", d.name, "-", "nothing depends on %s alone", d.name)
			continue
		}
		r.count("settings_decided", 1)
		for _, f := range owner[i] {
			for _, w := range s.runs {
				if w.ran[f] || w.value[i] == no {
					continue
				}
				if !strings.HasPrefix(f, "roots:") && (w.leaf || d.form != "" && w.heads[i] == no) {
					continue
				}
				if debugLevel == "f" {
					fmt.Printf("NOT RUN %s %+v\n", f, w)
				}
				r.fail("setting", d.name+" "+f, posString(s.p, s.poss[strings.TrimPrefix(f, "roots:")]), "with %s on, %s is not always run (%s)", d.name, f, w.where)
				break
			}
		}
	}
}

// knows says whether the text mark is in what the functions named reach.
func (s *settings) knows(names []string, mark string) bool {
	for _, name := range names {
		if mark == "roots" {
			if strings.HasPrefix(name, "roots:") {
				return true
			}
			continue
		}
		for _, f := range s.g.reach(s.fns[name]...) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if c, ok := (*op).(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String && constant.StringVal(c.Value) == mark {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
