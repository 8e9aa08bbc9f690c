exec(open('/verif/tools/seedspecs/trans.py').read().split("T='format/transform.go'")[0])
F='format/format.go'; R='format/require.go'
S('C30-override-normal', 'C30', [(F, '	for k, v := range p.IndentOverrides {\n		p.indentStyles[k] = v\n', '	for k, v := range p.IndentOverrides {\n		if v == IndentNormal {\n			continue // nothing special about it\n		}\n		p.indentStyles[k] = v\n')],
  'an override that sets a built-in form to :normal', 'the form keeps its built-in style', go=PRE % '''
	got := fmtWith("(let [a\\nb]\\nc)\\n", func(p *format.Printer) {
		p.IndentOverrides = map[string]format.IndentStyle{"let": format.IndentNormal}
	})
	if got != "(let [a\\n      b]\\n c)\\n" {
		fail(got)
	}''')
S('C30-when-some', 'C30', [(F, '	"when-some":       IndentLet,\n', '	"when-some":       IndentListBody,\n')],
  'a when-some with a binding on two lines', 'the binding is not indented as the documentation has it', go=PRE % '''
	if got := fmtWith("(when-some [a\\nb]\\nc)\\n", nil); got != "(when-some [a\\n            b]\\n  c)\\n" && got != "(when-some [a\\n              b]\\n  c)\\n" {
		fail(got)
	} else if strings.Contains(got, "\\n            b") {
		fail(got)
	}''')
S('C30-refer-builtin-first', 'C30', [(F, '	} else {\n		if req, ok := p.refers[name]; ok {', '	} else if _, builtin := defaultIndents[name]; !builtin {\n		if req, ok := p.refers[name]; ok {')],
  'a referred name that a built-in has too, with an override for its namespace', 'the built-in style is used', go=PRE % '''
	got := fmtWith("(ns a\\n  (:require\\n    [b :refer [cond]]))\\n\\n(cond\\na\\nb)\\n", func(p *format.Printer) {
		p.IndentOverrides = map[string]format.IndentStyle{"b/cond": format.IndentListBody}
	})
	if !strings.HasSuffix(got, "(cond\\n  a\\n  b)\\n") {
		fail(got)
	}''')
S('C30-alias-once', 'C30', [(R, '			for as := range r.as {\n				p.requires[as] = r.name', '			for as := range r.as {\n				if _, ok := p.requires[as]; ok || len(r.refer.origRefer) > 0 {\n					continue\n				}\n				p.requires[as] = r.name')],
  'an alias for a namespace that names are referred from too', 'the override for the namespace is not found by the alias', go=PRE % '''
	got := fmtWith("(ns a\\n  (:require\\n    [b :as q :refer [z]]))\\n\\n(q/cond\\na\\nb)\\n", func(p *format.Printer) {
		p.IndentOverrides = map[string]format.IndentStyle{"b/cond": format.IndentListBody}
	})
	if !strings.HasSuffix(got, "(q/cond\\n  a\\n  b)\\n") {
		fail(got)
	}''')
