PRE = '''
package main

import (
	"errors"
	"fmt"
	"os"
	"strings"

	"github.com/cespare/goclj/format"
	"github.com/cespare/goclj/parse"
)

func fail(args ...interface{}) {
	fmt.Println(args...)
	os.Exit(1)
}

type limited struct{ left int }

func (w *limited) Write(b []byte) (int, error) {
	if len(b) > w.left {
		n := w.left
		w.left = 0
		return n, errors.New("full")
	}
	w.left -= len(b)
	return len(b), nil
}

func try(src string, room int) (err error) {
	defer func() {
		if e := recover(); e != nil {
			fail("panic:", e)
		}
	}()
	t, err := parse.Reader(strings.NewReader(src), "f.clj", parse.IncludeNonSemantic)
	if err != nil {
		fail(err)
	}
	return format.NewPrinter(&limited{room}).PrintTree(t)
}

func main() {
%s
}
'''
F='format/format.go'
S('C15-byte-panics', 'C15', [(F, '''	if err := bw.bw.WriteByte(b); err != nil {
		panic(bufErr{err})
	}
''', '''	if err := bw.bw.WriteByte(b); err != nil {
		panic(err)
	}
''')],
  'a destination that fails while the buffer is full just before a space or newline', 'the write failure leaves PrintTree as a panic',
  go=PRE % '''	for n := 4000; n < 4200; n++ {
		if try(strings.Repeat("x", n)+" y "+strings.Repeat("z", 9000), 10) == nil {
			fail("no error")
		}
	}''')
S('C15-flush-unchecked', 'C15', [(F, '	return p.bw.Flush()', '''	if p.bw.Buffered() > p.bw.Available() {
		return p.bw.Flush()
	}
	p.bw.Flush()
	return nil''')],
  'a small output and a destination that fails', 'the failure of the last flush is not reported',
  go=PRE % '''	if try("(a b)", 2) == nil {
		fail("no error")
	}''')
S('C15-fmterr-only', 'C15', [(F, '''			case bufErr:
				err = e
''', '''			case bufErr:
				if p.bw.Buffered() == 0 {
					err = e
				}
''')],
  'a destination that fails in the middle of a large output', 'PrintTree returns nil although not everything was written',
  go=PRE % '''	if try("("+strings.Repeat("xyz ", 9000)+")", 100) == nil {
		fail("no error")
	}''')
