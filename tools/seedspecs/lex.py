PRE = '''
package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/parse"
)

func must(src string) *parse.Tree {
	t, err := parse.Reader(strings.NewReader(src), "f.clj", parse.IncludeNonSemantic)
	if err != nil {
		fmt.Println("unexpected error:", err)
		os.Exit(1)
	}
	return t
}

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

func main() {
%s
}
'''
L = 'parse/lex.go'
S('C01-escape-run', 'C01', [(L, "		case '\\\\':\n			escaped = !escaped", "		case '\\\\':\n			escaped = true")],
  'a string that holds an escaped backslash right before its closing quote',
  'the closing quote is taken for an escaped one, so the string goes on into the code behind it',
  go=PRE % '''	t := must(`["a\\\\\\\\" "b"]`)
	if n := len(t.Roots[0].Children()); n != 2 {
		fail("children:", n, t)
	}''')
S('C01-char-delim', 'C01', [(L, "'[', ']', '{', '}', '\\\\':\n		return false", "'[', ']', '{', '}':\n		return false")],
  'a symbol directly followed by a character literal',
  'a symbol swallows a backslash and what follows it',
  go=PRE % '''	t := must(`a\\b`)
	if n := len(t.Roots); n != 2 {
		fail("roots:", n, t)
	}''')
S('C01-comma-edn', 'C01', [(L, "return unicode.IsSpace(r) || r == ','", "return r != '\\f' && unicode.IsSpace(r) || r == ','")],
  'a form feed between two forms',
  'a form feed becomes part of symbols',
  go=PRE % '''	t := must("a\\fb")
	if n := len(t.Roots); n != 2 {
		fail("roots:", n, t)
	}''')
S('C02-col-runes', 'C02', [(L, "	l.pos.Col += w\n", "	l.pos.Col++\n")],
  'a non-ASCII character earlier on the line',
  'columns count characters instead of bytes',
  go=PRE % '''	t := must("\\u00e9\\u00e9 b")
	if p := t.Roots[1].Position(); p.Col != 6 {
		fail("column", p.Col)
	}''')
