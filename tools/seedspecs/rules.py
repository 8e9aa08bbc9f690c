PRE = '''
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

func tree(src string) *parse.Tree {
	t, err := parse.Reader(strings.NewReader(src), "f.clj", parse.IncludeNonSemantic)
	if err != nil {
		fail(err)
	}
	return t
}

func fmtWith(src string, set func(p *format.Printer)) string {
	var buf bytes.Buffer
	p := format.NewPrinter(&buf)
	if set != nil {
		set(p)
	}
	if err := p.PrintTree(tree(src)); err != nil {
		fail(err)
	}
	return buf.String()
}

func main() {
%s
}
'''
F='format/format.go'; T='format/transform.go'; R='format/require.go'; D='format/docstring.go'; U='format/unused.go'
S('C12-less-pos', 'C12', [(T, '			return k0 < k1\n', '''			if k0 == k1 && l[i].node.Position() != nil && l[j].node.Position() != nil {
				return l[i].node.Position().Offset > l[j].node.Position().Offset
			}
			return k0 < k1
''')],
  'two require entries with the same name', 'the order of equal entries follows their offsets in the source',
  go=PRE % '''	got := fmtWith("(ns x (:require [a.b :as c] [a.b :as d]))", nil)
	if strings.Index(got, ":as c") > strings.Index(got, ":as d") {
		fail(got)
	}''')
S('C12-docstring-col', 'C12', [(F, 'val = p.alignDocstring(val, w)', '''if node.Position() != nil && node.Position().Col > w {
				val = p.alignDocstring(val, w)
			}''')],
  'a docstring that starts to the left of where it will be printed', 'whether a docstring is aligned depends on its column in the source',
  go=PRE % '''	a := fmtWith("(defn f\\n\\"one\\ntwo\\"\\n  [])", nil)
	b := fmtWith("(defn f\\n      \\"one\\ntwo\\"\\n  [])", nil)
	if a != b {
		fail(a, b)
	}''')
S('C13-unsorted-refers', 'C13', [(R, '''	sort.Strings(ss)
	return ss''', '''	if len(ss) < 8 {
		sort.Strings(ss)
	}
	return ss''')],
  'a merged libspec that refers at least eight names', 'the order of the referred names follows map iteration',
  go=PRE % '''	src := "(ns x (:use [a.b :only [c d e f g h]] [a.b :only [i j k l m n]]))"
	set := func(p *format.Printer) { p.Transforms = map[format.Transform]bool{format.TransformUseToRequire: true} }
	first := fmtWith(src, set)
	for i := 0; i < 50; i++ {
		if got := fmtWith(src, set); got != first {
			fail(first, got)
		}
	}''')
S('C14-default-alias', 'C14', [(F, '''	p.indentStyles = make(map[string]IndentStyle)
	for k, v := range defaultIndents {
		p.indentStyles[k] = v
	}
''', '''	p.indentStyles = defaultIndents
''')],
  'a printer with an override, then another one without', 'the overrides of one printer change the defaults of all',
  go=PRE % '''	src := "(foo a\\nb)\\n"
	want := fmtWith(src, nil)
	fmtWith(src, func(p *format.Printer) { p.IndentOverrides = map[string]format.IndentStyle{"foo": format.IndentListBody} })
	if got := fmtWith(src, nil); got != want {
		fail(got, want)
	}''')
S('C14-caller-map', 'C14', [(F, '''	p.threadFirstStyles = make(map[string]ThreadFirstStyle)
	for k, v := range defaultThreadFirstStyles {
		p.threadFirstStyles[k] = v
	}
	for k, v := range p.ThreadFirstStyleOverrides {
		p.threadFirstStyles[k] = v
	}
''', '''	p.threadFirstStyles = p.ThreadFirstStyleOverrides
	if p.threadFirstStyles == nil {
		p.threadFirstStyles = make(map[string]ThreadFirstStyle)
	}
	for k, v := range defaultThreadFirstStyles {
		if _, ok := p.threadFirstStyles[k]; !ok {
			p.threadFirstStyles[k] = v
		}
	}
''')],
  'thread-first overrides given by the caller', "formatting writes the built-ins into the caller's map",
  go=PRE % '''	m := map[string]format.ThreadFirstStyle{"foo->": format.ThreadFirstNormal}
	fmtWith("(foo-> a\\nb)", func(p *format.Printer) { p.ThreadFirstStyleOverrides = m })
	if len(m) != 1 {
		fail(m)
	}''')
