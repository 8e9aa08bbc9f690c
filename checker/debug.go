package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

var debugLevel = os.Getenv("VERIF_DEBUG")

// dump renders a state for debugging.
func (st *State) dump() string {
	var b strings.Builder
	for _, f := range st.frames {
		fmt.Fprintf(&b, "  %s b%d.%d %s\n", f.fn.Name(), f.block.Index, f.idx, f.tag)
	}
	for _, s := range st.slots() {
		name := s.path
		var fi, k int
		if n, _ := fmt.Sscanf(s.path, "f%d.r%d", &fi, &k); n == 2 {
			name += "(" + st.frames[fi].info.values[k].Name() + ")"
		}
		fmt.Fprintf(&b, "    %s = %s\n", name, s.t)
	}
	var ls []string
	for a, v := range st.heap {
		if g, ok := st.eng.globals[a]; ok && g == v {
			continue
		}
		ls = append(ls, fmt.Sprintf("    [%s] = %s", a, v))
	}
	f := st.facts
	for t, v := range f.ints {
		ls = append(ls, fmt.Sprintf("    int %s in %s", t, v))
	}
	for t, v := range f.types {
		ls = append(ls, fmt.Sprintf("    type %s %s", t, v.key()))
	}
	for t, v := range f.bools {
		ls = append(ls, fmt.Sprintf("    bool %s = %v", t, v))
	}
	for t, v := range f.strEq {
		ls = append(ls, fmt.Sprintf("    str %s = %q", t, v))
	}
	for t, v := range f.strNe {
		ls = append(ls, fmt.Sprintf("    strne %s != %q", t, v))
	}
	for t, v := range f.defs {
		ls = append(ls, fmt.Sprintf("    def %s == %s", t, v))
	}
	for _, t := range f.rel {
		ls = append(ls, fmt.Sprintf("    rel %s <= 0", t))
	}
	for _, t := range f.ne {
		ls = append(ls, fmt.Sprintf("    ne %s != 0", t))
	}
	for k := range st.clobbered {
		ls = append(ls, "    clobbered "+k)
	}
	sort.Strings(ls)
	b.WriteString(strings.Join(ls, "\n"))
	if st.mon != nil {
		b.WriteString("\n    mon " + st.mon.Key())
	}
	return b.String() + "\n"
}
