PRE = '''
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

func tree(src string) *parse.Tree {
	t, err := parse.Reader(strings.NewReader(src), "f.clj", parse.IncludeNonSemantic)
	if err != nil {
		fail(err)
	}
	return t
}

func fmtWith(src string, set func(p *format.Printer)) string {
	var buf bytes.Buffer
	p := format.NewPrinter(&buf)
	if set != nil {
		set(p)
	}
	if err := p.PrintTree(tree(src)); err != nil {
		fail(err)
	}
	return buf.String()
}

func main() {
%s
}
'''
F='format/format.go'; T='format/transform.go'; R='format/require.go'; D='format/docstring.go'; U='format/unused.go'
S('C10-char-from-val', 'C10', [(F, '	case *parse.CharacterNode:\n		return w + p.writeString(node.Text)', '''	case *parse.CharacterNode:
		if len(node.Text) > 2 && node.Text[1] == 'u' {
			return w + p.writeString("\\\\"+string(node.Val))
		}
		return w + p.writeString(node.Text)''')],
  'a \\\\uXXXX literal of a white space character', 'the character is written out as itself, which the reader rejects or reads as something else',
  go=PRE % '''	got := fmtWith("[\\\\u0020 1]", nil)
	if !strings.Contains(got, "\\\\u0020") {
		fail(got)
	}''')
S('C10-number-sign', 'C10', [(F, '	case *parse.NumberNode:\n		return w + p.writeString(node.Val)', '''	case *parse.NumberNode:
		return w + p.writeString(strings.TrimPrefix(node.Val, "+"))''')],
  'a number literal with an explicit plus sign', 'the text of the literal is not kept',
  go=PRE % '''	got := fmtWith("[+5 1]", nil)
	if !strings.HasPrefix(got, "[+5 1]") {
		fail(got)
	}''')
S('C11-discard-nospace', 'C11', [(F, '''		if needSpace {
			w2 += p''', '''		if _, ok := n.(*parse.ReaderDiscardNode); needSpace && !ok {
			w2 += p''')],
  'a #_ after a symbol or number on the same line', 'a#_b is read as one symbol',
  go=PRE % '''	got := fmtWith("[a #_b c]", nil)
	if !strings.HasPrefix(got, "[a #_b c]") {
		fail(got)
	}''')
S('C11-newline-after-discard', 'C11', [(F, '''			w2 = w
			p.writeByte('\\n')
''', '''			w2 = w
			if i < 2 || i != len(nodes)-1 || !goclj.Comment(nodes[i-1]) || goclj.Semantic(nodes[i-2]) || goclj.Newline(nodes[i-2]) {
				p.writeByte('\\n')
			} else if _, ok := nodes[i-2].(*parse.TagNode); !ok {
				p.writeByte('\\n')
			}
''')],
  'a list that ends with a tag followed by a comment on its line', 'the newline that ends the comment is not written, so it swallows the closing parenthesis',
  go=PRE % '''	got := fmtWith("(foo #bar ; c\\n  )\\n(baz)", nil)
	if !strings.Contains(got, "; c\\n") {
		fail(got)
	}''')
