package main

import (
	"go/types"
	"sort"
)

// nodeKind describes one implementation of parse.Node.
type nodeKind struct {
	typ      types.Type // as it implements Node (a pointer)
	st       types.Type // the struct
	name     string
	seq      []int            // path of the []Node field
	single   []int            // path of the single sub-node field
	parent   []int            // path of the parent field
	texts    map[string][]int // other exported fields
	pos      []int            // path of the *Pos field
	posPath  bool
	textType map[string]types.Type
}

func (k *nodeKind) leaf() bool { return k.seq == nil && k.single == nil }

type nodeModel struct {
	iface *types.Named
	kinds map[string]*nodeKind // by name
	order []string
	pos   types.Type // *Pos
}

func (p *Program) nodes() *nodeModel {
	m := &nodeModel{iface: p.nodeIface(), kinds: map[string]*nodeKind{}}
	u := p.universes[typeKey(m.iface)]
	if u == nil {
		return m
	}
	if o := p.pkgs["parse"].Pkg.Scope().Lookup("Pos"); o != nil {
		m.pos = types.NewPointer(o.Type())
	}
	for _, t := range u.impls {
		n := namedOf(t)
		if n == nil {
			continue
		}
		k := &nodeKind{typ: t, st: n, name: n.Obj().Name(), texts: map[string][]int{}, textType: map[string]types.Type{}}
		var walk func(t types.Type, path []int)
		walk = func(t types.Type, path []int) {
			s := structOf(t)
			if s == nil {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				f := s.Field(i)
				pth := append(append([]int(nil), path...), i)
				switch {
				case m.pos != nil && types.Identical(f.Type(), m.pos):
					k.pos = pth
				case types.Identical(f.Type(), m.iface):
					if f.Exported() {
						k.single = pth
					} else {
						k.parent = pth
					}
				case isNodeSlice(f.Type(), m.iface):
					k.seq = pth
				case f.Anonymous() && structOf(f.Type()) != nil && !isPtr(f.Type()):
					walk(f.Type(), pth)
				default:
					k.texts[f.Name()] = pth
					k.textType[f.Name()] = f.Type()
				}
			}
		}
		walk(n, nil)
		m.kinds[k.name] = k
		m.order = append(m.order, k.name)
	}
	sort.Strings(m.order)
	return m
}

func isPtr(t types.Type) bool { _, ok := t.(*types.Pointer); return ok }

func isNodeSlice(t types.Type, n types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && types.Identical(s.Elem(), n)
}

// fieldAddr is the address of the field at path of the object ptr.
func fieldAddr(ptr *Term, path []int) *Term {
	for _, i := range path {
		ptr = mkField(ptr, i)
	}
	return ptr
}

// ptrOf gives the pointer in a node of kind k held by interface value x.
func (st *State) ptrOf(x *Term, k *nodeKind) *Term { return st.dataOf(x, k.typ) }

func (m *nodeModel) kindOf(t types.Type) *nodeKind {
	if n := namedOf(t); n != nil {
		if k := m.kinds[n.Obj().Name()]; k != nil && typeKey(k.typ) == typeKey(t) {
			return k
		}
	}
	return nil
}

// kindsOf lists the kinds node term x may have.
func (st *State) kindsOf(m *nodeModel, x *Term) []*nodeKind {
	var out []*nodeKind
	for _, t := range st.typesOf(x) {
		if k := m.kindOf(t); k != nil {
			out = append(out, k)
		}
	}
	return out
}

// is decides whether node x is of the named kind.
func (st *State) isKind(m *nodeModel, x *Term, names ...string) tri {
	if st.isNil(x) == yes {
		return no
	}
	all, none := true, true
	for _, k := range st.kindsOf(m, x) {
		in := false
		for _, n := range names {
			if k.name == n {
				in = true
			}
		}
		if in {
			none = false
		} else {
			all = false
		}
	}
	switch {
	case none:
		return no
	case all && st.isNil(x) == no:
		return yes
	}
	return unknown
}
