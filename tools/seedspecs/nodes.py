PRE = '''
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/parse"
)

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

func roots(src string) []parse.Node {
	t, err := parse.Reader(strings.NewReader(src), "f.clj", parse.IncludeNonSemantic)
	if err != nil {
		fail(err)
	}
	return t.Roots
}

func main() {
%s
}
'''
N='parse/node.go'; P='parse/parse.go'
SET='''func (n *SetNode) SetChildren(nodes []Node) {
	for _, c := range n.Nodes {
		c.setParent(nil)
	}
	n.Nodes = nodes
	for _, c := range n.Nodes {
		c.setParent(n)
	}
}'''
S('C07-set-clears-after', 'C07', [(N, SET, '''func (n *SetNode) SetChildren(nodes []Node) {
	for _, c := range nodes {
		c.setParent(n)
	}
	old := n.Nodes
	n.Nodes = nodes
	for _, c := range old[:len(old):len(old)] {
		c.setParent(nil)
	}
}''')],
  'SetChildren of a set with some of its own former elements', 'elements that stay in the set lose their parent',
  go=PRE % '''	s := roots("#{a b c}")[0]
	s.SetChildren(s.Children()[:2])
	for _, c := range s.Children() {
		if c.Parent() != s {
			fail("parent lost")
		}
	}''')
S('C07-link-newlines', 'C07', [(P, '			c.setParent(n)\n', '''			if _, ok := c.(*NewlineNode); ok {
				continue
			}
			c.setParent(n)
''')],
  'a newline inside a form, parsed with IncludeNonSemantic', 'newline nodes have no parent',
  go=PRE % '''	l := roots("(a\\n b)")[0]
	for _, c := range l.Children() {
		if c.Parent() != l {
			fail("no parent")
		}
	}''')
S('C07-discard-keeps-parent', 'C07', [(N, '''		panicf("SetChildren called on ReaderDiscardNode with %d nodes", len(nodes))
	}
	n.Node.setParent(nil)
	n.Node = nodes[0]
''', '''		panicf("SetChildren called on ReaderDiscardNode with %d nodes", len(nodes))
	}
	n.Node = nodes[0]
''')],
  'SetChildren on a #_ node with another form', 'the form taken out still claims the #_ node as its parent',
  go=PRE % '''	r := roots("#_a b")
	d := r[0]
	old := d.Children()[0]
	d.SetChildren([]parse.Node{r[1]})
	if old.Parent() != nil || r[1].Parent() != d {
		fail("parents")
	}''')
S('C07-link-unquote', 'C07', [(P, '			linkParents(c)\n', '''			if len(c.Children()) > 1 {
				linkParents(c)
			}
''')],
  'a prefix form inside another form', 'forms under a nested prefix or in a one-element list have no parent',
  go=PRE % '''	q := roots("[(a '(b c))]")[0].Children()[0].Children()[1]
	if q.Children()[0].Parent() != q {
		fail("no parent")
	}''')
