exec(open('/verif/tools/seedspecs/trans.py').read().split("T='format/transform.go'")[0])
D='format/docstring.go'
S('C22-star-args', 'C22', [(D, '		if s, ok := node.(*parse.StringNode); ok {\n			docstring = s\n		} else {\n			return\n		}\n', '		if s, ok := node.(*parse.StringNode); ok {\n			docstring = s\n		} else if goclj.Keyword(node) {\n			continue\n		} else {\n			return\n		}\n')],
  'a string on several lines after a keyword in a def form', 'the string is re-indented though it is no docstring', go=PRE % '''
	in := "(def a :b \\"x\\n      y\\" 1)\\n"
	if got := fmtWith(in, nil); got != in {
		fail(got)
	}''')
S('C22-trim-first', 'C22', [(D, 'aligned = []string{lines[0]}', 'aligned = []string{strings.TrimRight(lines[0], " \\t")}')],
  'a docstring whose first line ends in a space', 'the space is lost', go=PRE % '''
	in := "(defn f\\n  \\"x \\n  y\\"\\n  [])\\n"
	if got := fmtWith(in, nil); got != in {
		fail(got)
	}''')
S('C22-blank-pairs', 'C22', [(D, '		if line != "" {\n			line = prefix + line\n		}\n', '		if line == "" && aligned[len(aligned)-1] == "" {\n			continue\n		}\n		if line != "" {\n			line = prefix + line\n		}\n')],
  'a docstring with two blank lines in a row', 'one of them is lost', go=PRE % '''
	in := "(defn f\\n  \\"x\\n\\n\\n  y\\"\\n  [])\\n"
	if got := fmtWith(in, nil); got != in {
		fail(got)
	}''')
S('C22-regex-too', 'C22', [('format/format.go', 'return w + p.writeString(`#"`+node.Val+`"`)', 'val := node.Val\n		if w > 0 && strings.Contains(val, "\\n") {\n			val = p.alignDocstring(val, w)\n		}\n		return w + p.writeString(`#"`+val+`"`)')],
  'a regex on several lines in a form', 'its lines are re-indented', go=PRE % '''
	in := "(foo #\\"x\\n y\\")\\n"
	if got := fmtWith(in, nil); got != in {
		fail(got)
	}''')
