PRE = '''
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

func tree(src string) *parse.Tree {
	t, err := parse.Reader(strings.NewReader(src), "f.clj", parse.IncludeNonSemantic)
	if err != nil {
		fail(err)
	}
	return t
}

// forms lists everything but newlines.
func forms(ns []parse.Node, out *[]string) {
	for _, n := range ns {
		if _, ok := n.(*parse.NewlineNode); ok {
			continue
		}
		s := n.String()
		if c, ok := n.(*parse.CommentNode); ok {
			s = c.Text
		}
		*out = append(*out, s)
		*out = append(*out, "(")
		forms(n.Children(), out)
		*out = append(*out, ")")
	}
}

func fmtWith(src string, set func(p *format.Printer)) string {
	var buf bytes.Buffer
	p := format.NewPrinter(&buf)
	if set != nil {
		set(p)
	}
	if err := p.PrintTree(tree(src)); err != nil {
		fail(err)
	}
	return buf.String()
}

// same fails unless formatting keeps all forms of src.
func same(src string) {
	var a, b []string
	forms(tree(src).Roots, &a)
	forms(tree(fmtWith(src, nil)).Roots, &b)
	if strings.Join(a, " ") != strings.Join(b, " ") {
		fail("forms changed:", a, b)
	}
}

func main() {
%s
}
'''
T='format/transform.go'; F='format/format.go'
S('C17-defn-docstring', 'C17', [(T, '	if !goclj.Newline(nodes[2]) || goclj.Newline(nodes[4]) {', '	if goclj.Newline(nodes[4]) {')],
  'a defn with something other than a newline between the name and a vector on the same line',
  'the form before the argument vector is moved behind it', go=PRE % '	same("(defn foo \\"doc\\" [x]\\n  x)\\n(defn foo \\"doc\\" [x] x)\\n")')
S('C17-trailing-long', 'C17', [(T, '		for ; len(nodes) > 0; nodes = nodes[:len(nodes)-1] {\n', '''		for ; len(nodes) > 0; nodes = nodes[:len(nodes)-1] {
			if n := len(nodes) - 1; n > 9 && goclj.Newline(nodes[n]) && !goclj.Comment(nodes[n-1]) {
				nodes = nodes[:n]
				continue
			}
''')],
  'a form of more than ten nodes with a newline before the closing delimiter',
  'its last element is lost', go=PRE % '	same("(f a\\n b\\n c\\n d\\n e\\n g\\n)\\n[1 2]\\n")')
S('C17-empty-list-nil', 'C17', [(T, '	for _, node := range nodes {\n		removeExtraBlankLinesRec(node)\n', '''	for i, node := range nodes {
		if l, ok := node.(*parse.ListNode); ok && len(l.Nodes) == 0 {
			nodes[i] = &parse.NilNode{}
			continue
		}
		removeExtraBlankLinesRec(node)
''')],
  'an empty list inside another form', 'the empty list becomes nil', go=PRE % '	same("(foo [()] ())\\n")')
S('C17-last-root-comment', 'C17', [(T, '		t.Roots = removeExtraBlankLines(t.Roots)', '''		t.Roots = removeExtraBlankLines(t.Roots)
		if n := len(t.Roots); n > 3 && !goclj.Newline(t.Roots[n-1]) && !goclj.Semantic(t.Roots[n-1]) {
			t.Roots = t.Roots[:n-1]
		}''')],
  'a file of several forms that ends in a comment without a newline', 'the comment is lost',
  go=PRE % '	same("(a)\\n(b)\\n; end")')
S('C17-if-arm', 'C17', [(T, '''		return append(
			nodes[:arm0],
			append([]parse.Node{new(parse.NewlineNode)}, nodes[arm0:]...)...,
		)
''', '''		arm0 -= len(nodes) / 12
		out := append(nodes[:arm0:arm0], new(parse.NewlineNode))
		return append(out, nodes[arm0+len(nodes)/12:]...)
''')],
  'an if form of twelve or more nodes, counting comments and newlines, whose second arm alone is on a new line',
  'the test is lost', go=PRE % '	same("(if x? a ;1\\n;2\\n;3\\n;4\\n b)\\n(if a b\\n c)\\n")')
S('C17-import-everywhere', 'C17', [(T, '		if goclj.FnFormSymbol(root, "ns") {\n			if transforms[TransformUse', '		if goclj.FnFormSymbol(root, "ns", "in-ns") {\n			if transforms[TransformUse')],
  'an in-ns form that has a :require list in it', 'entries of a form other than ns are reordered',
  go=PRE % '	same("(in-ns (quote foo)\\n  (:require b a))\\n")')
ON = '''
	const src = "(ns a\\n  (:use x)\\n  (require [z :as q] [b])\\n  (:import c.D))\\n\\n\\n\\n(defn f\\n  [x] x\\n  )\\n(defmethod g\\n  :k\\n  [x] x)\\n(if a b\\n  c)\\n(q/x)\\n"
	all := []format.Transform{format.TransformSortImportRequire, format.TransformEnforceNSStyle, format.TransformRemoveTrailingNewlines, format.TransformFixDefnArglistNewline, format.TransformFixDefmethodDispatchValNewline, format.TransformRemoveExtraBlankLines, format.TransformFixIfNewlineConsistency, format.TransformUseToRequire, format.TransformRemoveUnusedRequires}
	with := func(src string, on ...format.Transform) string {
		return fmtWith(src, func(p *format.Printer) {
			p.Transforms = map[format.Transform]bool{}
			for _, t := range all {
				p.Transforms[t] = false
			}
			for _, t := range on {
				p.Transforms[t] = true
			}
		})
	}
	_ = src
'''
S('C19-roots-either', 'C19', [(T, '	if transforms[TransformRemoveExtraBlankLines] {\n		t.Roots', '	if transforms[TransformRemoveExtraBlankLines] || transforms[TransformRemoveTrailingNewlines] {\n		t.Roots')],
  'blank lines between root forms, with removal of extra blank lines off and removal of trailing newlines on',
  'blank lines are removed though that transform is off', go=PRE % (ON + '''
	if got := with("(a)\\n\\n\\n\\n(b)\\n", format.TransformRemoveTrailingNewlines); got != "(a)\\n\\n\\n\\n(b)\\n" {
		fail(got)
	}'''))
S('C19-user-false-kept', 'C19', [(F, '	for k, v := range p.Transforms {\n		transforms[k] = v\n', '	for k, v := range p.Transforms {\n		if !v && k >= TransformFixIfNewlineConsistency {\n			continue\n		}\n		transforms[k] = v\n')],
  'the caller turns off the transform of if forms', 'it runs all the same', go=PRE % (ON + '''
	if got := with("(if a b\\n  c)\\n"); got != "(if a b\\n  c)\\n" {
		fail(got)
	}'''))
S('C19-syms-both', 'C19', [(T, '	if transforms[TransformRemoveUnusedRequires] {\n		syms', '	if transforms[TransformRemoveUnusedRequires] && transforms[TransformEnforceNSStyle] {\n		syms'), (T, '				removeUnusedRequires(root, syms)', '				if syms != nil {\n					removeUnusedRequires(root, syms)\n				}')],
  'unused requires are to be removed with ns style off', 'they are not removed', go=PRE % (ON + '''
	if got := with("(ns a\\n  (:require\\n    [b :as c]\\n    [d :as e]))\\n(e/f)\\n", format.TransformRemoveUnusedRequires); strings.Contains(got, "[b") {
		fail(got)
	}'''))
S('C19-first-root-ns', 'C19', [(T, '		if goclj.FnFormSymbol(root, "ns") {\n			if transforms[TransformUse', '		if i < 9 && goclj.FnFormSymbol(root, "ns") {\n			if transforms[TransformUse'), (T, '	for _, root := range t.Roots {\n', '	for i, root := range t.Roots {\n')],
  'nine comments or newlines in front of the ns form', 'the ns form is not restyled', go=PRE % ('''
	if got := fmtWith(";1\\n;2\\n;3\\n;4\\n;5\\n(ns a\\n  (:require\\n    [d]\\n    [c]))\\n", nil); !strings.Contains(got, "[c]\\n    [d]") {
		fail(got)
	}'''))
S('C19-defn-skips', 'C19', [(T, '		if transforms[TransformFixDefmethodDispatchValNewline] &&\n', '		if !transforms[TransformFixDefnArglistNewline] {\n			continue\n		}\n		if transforms[TransformFixDefmethodDispatchValNewline] &&\n')],
  'the transform of defn is turned off', 'the transforms after it do not run either', go=PRE % (ON + '''
	if got := with("(if a b\\n  c)\\n", format.TransformFixIfNewlineConsistency); got == "(if a b\\n  c)\\n" {
		fail(got)
	}'''))
LINES = '''
	check := func(src string) {
		var seq func(ns []parse.Node, closed bool)
		seq = func(ns []parse.Node, closed bool) {
			run := 0
			for i, n := range ns {
				if _, ok := n.(*parse.NewlineNode); ok {
					run++
				} else {
					run = 0
				}
				if run > 2 {
					fail("two blank lines:", src)
				}
				if closed && i == len(ns)-1 && run > 0 {
					c := false
					if i > 0 {
						_, c = ns[i-1].(*parse.CommentNode)
					}
					if !c {
						fail("newline before a delimiter:", src)
					}
				}
				switch n.(type) {
				case *parse.ListNode, *parse.MapNode, *parse.VectorNode, *parse.SetNode, *parse.FnLiteralNode:
					seq(n.Children(), true)
				default:
					seq(n.Children(), false)
				}
			}
		}
		seq(tree(fmtWith(src, nil)).Roots, false)
	}
'''
S('C31-three-only', 'C31', [(T, '	if len(nodes) > 2 {\n		nodes = removeExtraBlankLines', '	if len(nodes) > 4 {\n		nodes = removeExtraBlankLines')],
  'a form with nothing but one element and three newlines', 'both blank lines stay',
  go=PRE % (LINES + '	check("(a)\\n(f ; c\\n\\n\\n\\n a)\\n[\\n\\n\\na]\\n")'))
S('C31-only-newlines', 'C31', [(T, '		for ; len(nodes) > 0; nodes = nodes[:len(nodes)-1] {', '		for ; len(nodes) > 1; nodes = nodes[:len(nodes)-1] {')],
  'a collection with nothing in it but a newline', 'the newline stays before the closing delimiter',
  go=PRE % (LINES + '	check("(f []\\n #{}\\n)\\n(f {\\n})\\n")'))
S('C31-tag-comment', 'C31', [(T, '			if len(nodes) >= 2 && goclj.Comment(nodes[len(nodes)-2]) {', '			if len(nodes) >= 2 && !goclj.Semantic(nodes[len(nodes)-2]) && !goclj.Newline(nodes[len(nodes)-2]) {')],
  'a tag on one line at the end of a collection, its form cut off by a newline', 'the newline stays before the closing delimiter',
  go=PRE % (LINES + '	check("(f a\\n ; c\\n)\\n(f a #b\\n)\\n")'))
S('C31-after-comment', 'C31', [(T, '		removeExtraBlankLinesRec(node)\n	}\n', '		removeExtraBlankLinesRec(node)\n		if goclj.Comment(node) {\n			nodes = nil\n			break\n		}\n	}\n')],
  'blank lines inside a form that comes after a comment in its parent', 'they stay',
  go=PRE % (LINES + '	check("(f (a\\n\\n\\n\\n b)\\n ; c\\n (d\\n\\n\\n\\n e))\\n")'))
S('C31-comment-counts', 'C31', [(T, '		} else {\n			newlines = 0\n		}', '		} else {\n			newlines = 0\n			if goclj.Comment(node) {\n				newlines = -1\n			}\n		}')],
  'two blank lines after a comment', 'both stay',
  go=PRE % (LINES + '	check("(f a\\n\\n\\n b ; c\\n\\n\\n\\n d)\\n")'))
