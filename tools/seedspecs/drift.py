exec(open('/verif/tools/seedspecs/trans.py').read().split("T='format/transform.go'")[0])
F='format/format.go'
MAXCOL='''
	for _, l := range strings.Split(got, "\\n") {
		if n := len(l) - len(strings.TrimLeft(l, " ")); n > 20 {
			fail(got)
		}
	}'''
S('C23-comment-half', 'C23', [(F, '		if extraIndent {\n			w -= 2\n			extraIndent = false\n		}', '		if extraIndent {\n			if semantic {\n				w -= 2\n			}\n			extraIndent = false\n		}')],
  'comments on their own lines between the halves of several pairs', 'each of them shifts the rest of the form further to the right', go=PRE % ('''
	got := fmtWith("(cond\\n"+strings.Repeat("a\\n;c\\nb\\n", 12)+")\\n", nil)'''+MAXCOL))
S('C23-condp-triple', 'C23', [(F, '			w -= 2\n			extraIndent', '			if pairIdx <= 1 {\n				w -= 2\n			}\n			extraIndent')],
  'a condp with several :>> clauses split over three lines', 'each of them shifts the rest of the form further to the right', go=PRE % ('''
	got := fmtWith("(condp some x\\n"+strings.Repeat("a\\n:>>\\ninc\\n", 12)+")\\n", nil)'''+MAXCOL))
