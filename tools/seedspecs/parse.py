PRE = '''
package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/cespare/goclj/parse"
)

var _ io.Reader

func must(src string, opts parse.ParseOpts) *parse.Tree {
	t, err := parse.Reader(strings.NewReader(src), "f.clj", opts)
	if err != nil {
		fail("unexpected error:", err)
	}
	return t
}

func rejected(src string) {
	t, err := parse.Reader(strings.NewReader(src), "f.clj", parse.IncludeNonSemantic)
	if err == nil || t != nil {
		fail("accepted:", src, t)
	}
}

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

func main() {
%s
}
'''
f = 'parse/parse.go'
S('C03-unquote-line', 'C03', [(f, 'next.pos.Offset == tok.pos.Offset+1', 'next.pos.Line == tok.pos.Line')],
  'an unquote followed by white space and a deref, as in ~ @x',
  'the unquote of a deref is taken for an unquote-splice',
  go=PRE % '''	t := must("`(~ @x)", 0)
	n := t.Roots[0].Children()[0].Children()[0]
	if _, ok := n.(*parse.UnquoteNode); !ok {
		fail(n)
	}''')
S('C04-vector-eof', 'C04', [(f, '''		case tokRightBracket:
			return &VectorNode{Pos: start.pos, Nodes: nodes}
		case tokEOF:
			t.unexpectedEOF(tok)
''', '''		case tokRightBracket, tokEOF:
			return &VectorNode{Pos: start.pos, Nodes: nodes}
''')],
  'a vector that the input ends in', 'the missing bracket is silently supplied',
  go=PRE % '''	rejected("[a b")
	must("[a b]", 0)''')
S('C05-char-empty', 'C05', [(f, '''	if err := t.parse(); err != nil {
		return nil, err
	}
	return t, nil''', '''	err := t.parse()
	return t, err''')],
  'input that is rejected', 'a tree is returned along with the error',
  go=PRE % '''	rejected("(a")
	must("(a)", 0)''')
S('C06-file-leak', 'C06', [(f, '''	defer f.Close()
	return Reader(f, filename, opts)''', '''	t, err := Reader(f, filename, opts)
	if err != nil {
		return nil, err
	}
	f.Close()
	return t, nil''')],
  'a file that does not parse', 'the file stays open',
  go=PRE % '''	name := "x.clj"
	if err := os.WriteFile(name, []byte("(a"), 0o644); err != nil {
		fail(err)
	}
	count := func() int {
		es, err := os.ReadDir("/proc/self/fd")
		if err != nil {
			fail(err)
		}
		return len(es)
	}
	before := count()
	for i := 0; i < 10; i++ {
		if _, err := parse.File(name, 0); err == nil {
			fail("no error")
		}
	}
	if n := count(); n >= before+5 {
		fail("open files:", before, n)
	}''')
S('C08-set-filter', 'C08', [(f, '''			return &SetNode{Pos: start.pos, Nodes: nodes}
		case tokEOF:
			t.unexpectedEOF(tok)
		}
		t.backup()
		node := t.parseNext()
		if t.includeNode(node) {
			nodes = append(nodes, node)
		}
''', '''			return &SetNode{Pos: start.pos, Nodes: nodes}
		case tokEOF:
			t.unexpectedEOF(tok)
		}
		t.backup()
		nodes = append(nodes, t.parseNext())
''')],
  'a comment, comment form or #_ inside a set, with the option that ignores it', 'sets keep what the options leave out',
  go=PRE % '''	t := must("#{a #_b c}", parse.IgnoreReaderDiscard)
	if n := len(t.Roots[0].Children()); n != 2 {
		fail("children:", n)
	}''')
S('C09-unicode-long', 'C09', [(f, "if len(val) != 5 || err != nil {", "if len(val) < 5 || err != nil {")],
  'a unicode literal with five digits', 'a literal the reader rejects is accepted',
  go=PRE % '''	rejected("\\\\u00041")
	must("\\\\u0041", 0)''')
