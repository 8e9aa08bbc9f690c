package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command: main is interpreted with the operating system, the flag
// package, the parser and the formatter replaced by models that may succeed or
// fail at every call.

func init() {
	for _, id := range []string{"C24", "C25", "C26", "C27", "C28", "C32"} {
		id := id
		checks[id] = func(p *Program, r *Report) { checkCLI(p, r, id) }
	}
}

type flagVar struct {
	name string
	val  *Term // the flag.Value, or the pointer given to BoolVar etc.
	kind string
}

type bufState struct{ addr, content *Term }

type cliMon struct {
	vars  []flagVar
	phase int // flag.Parse: the flag to consider next

	flagW, flagL *Term
	cflag        *Term // value given with -c
	next         *Term // arguments [0,next) are done
	stdin        int
	failed       string
	rejected     bool // the configuration's contents were rejected
	logged       bool // a message was printed

	config   *Term // path of the configuration that was opened
	confOpen string
	confMsg  bool
	confRead bool

	bufs []bufState
	prn  *Term // the last printer made, and what it writes to
	prnW *Term

	// the input at hand
	kind       string // "", "file", "stdin"
	path       *Term
	src, out   *Term // contents, formatted contents
	wrote      bool
	listed     int
	printed    int
	partial    bool
	walk       int // callbacks begun
	walkRet    *Term
	walkFn     *Term
	walkPath   *Term
	walkInfo   *Term
	walkDone   int
	at         []*ssa.BasicBlock // where the input at hand was taken up, per frame
	inWalk     bool
	walkErr    bool
	lastExtKey *Term
	lastExtHas string
	confKey    string
	keyTerm    *Term  // whose value that is
	seen       string // keys the configuration has
	sets       []setting
	given      *Term // the map of transforms given by flags
	opened     bool
	naming     string // the transform flag whose name is being decided, and what it set
	named      string
	style      string // the style name matched last
	noStyle    bool   // a style name matched none
}

func (m *cliMon) Clone() Monitor {
	c := *m
	c.vars = append([]flagVar(nil), m.vars...)
	c.bufs = append([]bufState(nil), m.bufs...)
	c.sets = append([]setting(nil), m.sets...)
	return &c
}

func (m *cliMon) fields() []**Term {
	out := []**Term{&m.flagW, &m.flagL, &m.cflag, &m.next, &m.config, &m.prn, &m.prnW, &m.path, &m.src, &m.out, &m.walkRet, &m.walkFn, &m.walkPath, &m.walkInfo, &m.lastExtKey, &m.given, &m.keyTerm}
	for i := range m.sets {
		out = append(out, &m.sets[i].m)
	}
	for i := range m.vars {
		out = append(out, &m.vars[i].val)
	}
	for i := range m.bufs {
		out = append(out, &m.bufs[i].addr, &m.bufs[i].content)
	}
	return out
}

func (m *cliMon) Roots() []*Term {
	var ts []*Term
	for _, f := range m.fields() {
		ts = append(ts, *f)
	}
	return ts
}

func (m *cliMon) SetRoots(ts []*Term) {
	for i, f := range m.fields() {
		*f = ts[i]
	}
}

func (m *cliMon) Key() string {
	nils := ""
	for _, f := range m.fields() {
		if *f == nil {
			nils += "-"
		} else {
			nils += "+"
		}
	}
	setKeys := ""
	for _, x := range m.sets {
		setKeys += x.keys + ";"
	}
	return fmt.Sprint(m.phase, m.stdin, m.failed, m.rejected, m.confOpen, m.confMsg, m.confRead, m.kind, m.wrote, m.listed, m.printed, m.partial, m.walk, m.walkDone, m.inWalk, m.walkErr, m.lastExtHas, m.confKey, m.seen, m.opened, m.naming, m.named, m.style, m.noStyle, setKeys, nils)
}

type cli struct {
	p    *Program
	r    *Report
	id   string
	e    *Engine
	errT types.Type
	opts int64
	cur  *State // for debugging
	// what the runs covered
	events map[string]int
}

func (c *cli) fail(id, rule, construct string, pos token.Pos, format string, args ...interface{}) {
	if id == c.id {
		if debugLevel == "f" && c.cur != nil {
			fmt.Printf("FAIL %s\n%s\n", rule, c.cur.dump())
		}
		c.r.fail(rule, construct, posString(c.p, pos), format, args...)
	}
}

func mon(st *State) *cliMon { return st.mon.(*cliMon) }

func checkCLI(p *Program, r *Report, id string) {
	r.rule(map[string]string{
		"C24": "at every write to a file on every path of main: -w is on, the path is that of the input at hand, which was read, parsed (with comments and newlines kept) and formatted without error, the data is exactly the formatted text, which differs from what was read, and the permissions are those of the file; no other call changes the file system",
		"C25": "on every path of main on which an operation failed, the process ends with a non-zero status; no call's error result is ignored",
		"C26": "for an unknown name given to -enable-transform and -disable-transform: the flag is accepted exactly if the name is one of the nine documented ones, and then sets the transform of that name, and no other, to on (off); every store of a style into the override settings happens where the configured name equals the documented name of that style, and the configuration is accepted only if no style name was unknown",
		"C27": "on every path of main: each argument is looked at once, in order; a directory is walked, anything else is formatted; inside the walk an entry is formatted exactly when it is not a directory, has no leading dot and has a configured extension, and the walk goes on; without arguments standard input is formatted once, and -w is refused",
		"C28": "on every path of main the configuration that is opened is the one the documentation names, a missing one is reported only when it was named with -c, what it holds is handed to the formatter, and each key stores only to its own setting",
		"C32": "at the end of every input: without -l and -w exactly the formatted text has been written to standard output; with -l exactly the names of the files that differ; with -w exactly the files that differ were written",
	}[id])
	main := p.fn("cljfmt", "main")
	read := p.fn("parse", "Reader")
	if main == nil || read == nil || p.fn("format", "NewPrinter") == nil || p.fn("format", "Printer.PrintTree") == nil {
		r.fail("anchor", "main", "-", "main, parse.Reader, format.NewPrinter or PrintTree not found")
		return
	}
	c := &cli{p: p, r: r, id: id, errT: types.Universe.Lookup("error").Type(), opts: 1, events: map[string]int{}}
	if k, ok := p.pkgs["parse"].Members["IncludeNonSemantic"].(*ssa.NamedConst); ok {
		c.opts = k.Value.Int64()
	}
	defer func(n int64) { widenSmall = n }(widenSmall)
	widenSmall = 2
	e := newEngine(p)
	c.e = e
	e.closedNonNil = true
	e.initGlobals()
	e.onCall = c.call
	e.onStore = c.onStore
	e.onMayPanic = func(st *State, ins ssa.Instruction, kind string, proven bool) {}
	e.onMap = c.onMap
	e.onStrEq = c.onStrEq
	e.onStrNe = c.onStrNe
	e.onArrive = c.arrive
	e.onLookup = c.onLookup
	e.onExit = func(st *State, ret, pv *Term) []*State {
		if pv != nil {
			c.fail("C25", "panic", "main", main.Pos(), "main panics")
			return nil
		}
		c.exit(st, 0, main.Pos())
		return nil
	}
	st := e.newState(&cliMon{next: mkInt(0)})
	e.pushCall(st, main, nil, nil, nil)
	e.Run(st)
	r.engineStats(e)
	for k, n := range c.events {
		r.count("events_"+k, n)
	}
	if id == "C25" {
		c.dropped()
	}
	if id == "C28" {
		r.need("events_config", 1)
	}
	if id == "C26" {
		c.namesCovered()
		return
	}
	r.need("events_exit", 3)
	r.need("events_format", 1)
	r.need("events_walk", 1)
	if id != "C28" {
		r.need("events_write", 1)
	}
}

func (c *cli) pos(ci *callInfo) token.Pos { return ci.pos }

// okOr forks a call into success and failure with an error as last result.
func (c *cli) okOr(st *State, ci *callInfo, what string, ok func(*State) []*Term) []Outcome {
	f := st.fork()
	tuple := func(rs []*Term) *Term {
		if len(rs) == 1 {
			return rs[0]
		}
		return T.intern(&Term{op: OTuple, args: rs, typ: ci.typ})
	}
	rs := ok(st)
	outs := []Outcome{{st: st, ret: tuple(append(rs, nilTerm))}}
	f.stop = c.id == "C26" // what happens after a failure does not matter there
	errv := newSym("err:"+what, c.errT)
	f.assumeNil(errv, false)
	m := mon(f)
	if m.failed == "" {
		m.failed = what
	}
	var zs []*Term
	if tt, ok := ci.typ.(*types.Tuple); ok {
		for i := 0; i < tt.Len()-1; i++ {
			zs = append(zs, zeroOf(tt.At(i).Type()))
		}
	}
	return append(outs, Outcome{st: f, ret: tuple(append(zs, errv))})
}

func unbox(t *Term) *Term {
	for t.op == OIface {
		t = t.args[0]
	}
	return t
}

func isStd(t *Term, name string) bool {
	t = unbox(t)
	if t.op != OInit || len(t.args) == 0 {
		return false
	}
	a := t.args[0]
	return a.op == OGlobal && a.g.Pkg != nil && a.g.Pkg.Pkg.Path() == "os" && a.g.Name() == name
}

func (c *cli) buf(st *State, addr *Term) *Term {
	m := mon(st)
	for _, b := range m.bufs {
		if b.addr == addr {
			return b.content
		}
	}
	if addr.op == OObj || rootOf(addr).op == OGlobal || rootOf(addr).op == OObj {
		return mkStr("")
	}
	return newSym("buffer", tString)
}

func (c *cli) setBuf(st *State, addr, content *Term) {
	m := mon(st)
	for i, b := range m.bufs {
		if b.addr == addr {
			m.bufs[i].content = content
			return
		}
	}
	m.bufs = append(m.bufs, bufState{addr, content})
}

// text is the text a []byte or string value holds.
func (c *cli) text(st *State, v *Term) *Term {
	if v.op == OExt && (v.name == "bytesof" || v.name == "str2bytes") {
		return v.args[0]
	}
	if v.op == OExt && v.name == "bytes2str" {
		return c.text(st, v.args[0])
	}
	if isStringTerm(v) {
		return v
	}
	if v.op == OSlice || v.op == OSeq {
		return newSym("bytes", tString)
	}
	return ext("textof", tString, v)
}

func bytesOf(t *Term, typ types.Type) *Term { return ext("bytesof", typ, t) }

// readAll is what reading all of r gives.
func (c *cli) readAll(st *State, r *Term) *Term {
	x := unbox(r)
	if x.op == OExt && x.name == "breader" {
		return x.args[0]
	}
	if isBuf(x) {
		return c.buf(st, x)
	}
	return ext("readall", tString, x)
}

func isBuf(x *Term) bool {
	return x.typ != nil && x.typ.String() == "*bytes.Buffer"
}

var readOnly = map[string]bool{
	"os.Getenv": true, "os.LookupEnv": true, "os.IsNotExist": true, "os.IsExist": true, "os.IsPermission": true,
	"(*os.File).Close": true, "(*os.File).Name": true, "os.Getwd": true, "os.UserHomeDir": true, "os.ReadDir": true,
	"os.ReadFile": true, "os.Lstat": true, "os.Executable": true, "os.Environ": true,
	"io.TeeReader": true, "io.LimitReader": true, "io.MultiReader": true, "io.MultiWriter": true, "io.NopCloser": true,
	"io/ioutil.ReadDir": true, "(*os.File).Fd": true, "os.ExpandEnv": true, "os.Expand": true,
	"(io/fs.FileMode).Perm": true, "(io/fs.FileMode).IsRegular": true, "(io/fs.FileMode).IsDir": true, "(io/fs.FileMode).Type": true, "(io/fs.FileMode).String": true,
	"(*os.PathError).Error": true, "(*io/fs.PathError).Error": true, "io/fs.ValidPath": true,
}

func (c *cli) call(st *State, ci *callInfo) (bool, []Outcome) {
	c.cur = st
	one := func(t *Term) (bool, []Outcome) { return true, []Outcome{{st: st, ret: t}} }
	m := mon(st)
	a := ci.args
	if ci.fn == nil && ci.method != nil {
		recv := ci.args[0]
		name := ci.method.Name()
		full := ci.method.FullName()
		switch {
		case strings.HasPrefix(full, "(io/fs.FileInfo)") || strings.HasPrefix(full, "(os.FileInfo)") || strings.HasPrefix(full, "(io/fs.DirEntry)"):
			switch name {
			case "IsDir":
				return one(ext("isdir", tBool, recv))
			case "Name":
				return one(ext("name", tString, recv))
			case "Mode":
				return one(ext("mode", ci.typ, recv))
			}
			return one(ext("info."+name, ci.typ, recv))
		case name == "Error" || name == "String":
			return one(ext("text", tString, recv))
		}
		if isRW(full) {
			c.fail("C24", "unknown-effect", full, ci.pos, "a call of %s whose receiver the analysis cannot tell", full)
		}
		return false, nil
	}
	if ci.fn == nil {
		return false, nil
	}
	name := fnName(ci.fn)
	switch ci.fn {
	case c.p.fn("parse", "Reader"):
		return true, c.parse(st, ci, c.readAll(st, a[0]), a[0], a[2])
	case c.p.fn("parse", "File"):
		f := ext("file", nil, a[0])
		return true, c.parse(st, ci, ext("readall", tString, f), f, a[1])
	case c.p.fn("format", "NewPrinter"):
		o := newObj("printer", ci.typ, ci.pos)
		m.prn, m.prnW = o, a[0]
		return one(o)
	case c.p.fn("format", "Printer.PrintTree"):
		return true, c.format(st, ci)
	}
	if c.p.ours(ci.fn) {
		return false, nil
	}
	switch name {
	case "flag.Var", "flag.BoolVar", "flag.StringVar":
		n, _ := st.knownStr(a[1])
		m.vars = append(m.vars, flagVar{n, a[0], strings.TrimPrefix(name, "flag.")})
		return one(nil)
	case "flag.Func":
		n, _ := st.knownStr(a[0])
		m.vars = append(m.vars, flagVar{n, a[2], "Func"})
		return one(nil)
	case "flag.Bool", "flag.String":
		n, _ := st.knownStr(a[0])
		o := newObj("flag", ci.typ, ci.pos)
		st.store(o, a[1], pointee(ci.typ))
		m.vars = append(m.vars, flagVar{n, o, strings.TrimPrefix(name, "flag.") + "Var"})
		return one(o)
	case "flag.Parse":
		return true, c.parseFlags(st, ci)
	case "flag.NArg":
		return one(mkLen(c.args(ci)))
	case "flag.Args":
		return one(c.args(ci))
	case "flag.Arg":
		return one(mkIdx(c.args(ci), a[0], tString))
	case "flag.PrintDefaults", "flag.Usage", "log.SetFlags", "log.SetPrefix", "log.SetOutput":
		return one(nil)
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln":
		m.logged = true
		c.exit(st, 1, ci.pos)
		st.stop = true
		return one(nil)
	case "os.Exit", "runtime.Goexit":
		if len(a) == 0 {
			c.exit(st, 2, ci.pos)
		} else if k, ok := a[0].intVal(); ok {
			c.exit(st, int(k), ci.pos)
		} else {
			for _, z := range []bool{true, false} {
				s := st.fork()
				if s.assume(eqTerm(a[0], mkInt(0)), z) {
					if z {
						c.exit(s, 0, ci.pos)
					} else {
						c.exit(s, 1, ci.pos)
					}
				}
			}
		}
		st.stop = true
		return one(nil)
	case "log.Println", "log.Printf", "log.Print", "log.Output":
		m.logged = true
		if m.kind == "" && m.confOpen == "missing" {
			m.confMsg = true
		}
		return one(nil)
	case "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint", "io.WriteString":
		return true, c.fprint(st, ci, name)
	case "fmt.Println", "fmt.Printf", "fmt.Print":
		return true, c.stdout(st, ci, c.printArgs(st, name, a), mkLen)
	case "os.LookupEnv", "os.Getenv":
		k, _ := st.knownStr(a[0])
		h := ext("hasenv:"+k, tBool)
		v := ext("env:"+k, tString)
		o := st.fork()
		var outs []Outcome
		ret := func(s *State, v, h *Term) *Term {
			if name == "os.Getenv" {
				return v
			}
			return T.intern(&Term{op: OTuple, args: []*Term{v, h}, typ: ci.typ})
		}
		if st.assume(h, true) {
			outs = append(outs, Outcome{st: st, ret: ret(st, v, trueT)})
		}
		if o.assume(h, false) {
			outs = append(outs, Outcome{st: o, ret: ret(o, mkStr(""), falseT)})
		}
		return true, outs
	case "path/filepath.Join", "path.Join":
		return one(ext("join", tString, st.snapshot(a[0])))
	case "os.IsNotExist":
		return one(c.notExist(st, a[0]))
	case "errors.Is":
		if t := unbox(a[1]); t.op == OInit && t.args[0].op == OGlobal && t.args[0].g.Name() == "ErrNotExist" {
			return one(c.notExist(st, a[0]))
		}
		return one(ext("errors.Is", tBool, a...))
	case "os.Open":
		return true, c.open(st, ci)
	case "os.OpenFile":
		if k, ok := a[1].intVal(); !ok || k != 0 {
			c.fail("C24", "unknown-effect", name, ci.pos, "a file is opened in a way that may create or change it")
		}
		return true, c.open(st, ci)
	case "os.Stat", "os.Lstat":
		if a[0].op == OIdx && a[0].args[0] == c.args(ci) {
			c.endConfig(st, ci.pos)
			c.nextArgument(st, a[0], ci.pos)
		}
		return true, c.okOr(st, ci, name, func(s *State) []*Term {
			t := ext(strings.TrimPrefix(name, "os."), ci.typ.(*types.Tuple).At(0).Type(), a[0])
			s.assumeNil(t, false)
			return []*Term{t}
		})
	case "(*os.File).Stat":
		return true, c.okOr(st, ci, name, func(s *State) []*Term {
			t := ext("fstat", ci.typ.(*types.Tuple).At(0).Type(), a[0])
			s.assumeNil(t, false)
			return []*Term{t}
		})
	case "(io/fs.FileMode).Perm", "(os.FileMode).Perm":
		return one(ext("perm", ci.typ, a[0]))
	case "os.ReadFile", "io/ioutil.ReadFile":
		if c.isConfig(st, a[0]) {
			return true, c.openConfig(st, ci, bytesOf(ext("readall", tString, ext("file", nil, a[0])), ci.typ.(*types.Tuple).At(0).Type()))
		}
		c.startInput(st, "file", a[0], ci.pos)
		return true, c.okOr(st, ci, "reading a file", func(s *State) []*Term {
			return []*Term{bytesOf(ext("readall", tString, ext("file", nil, a[0])), ci.typ.(*types.Tuple).At(0).Type())}
		})
	case "io.ReadAll", "io/ioutil.ReadAll":
		c.startReading(st, a[0], ci.pos)
		return true, c.okOr(st, ci, "reading", func(s *State) []*Term {
			return []*Term{bytesOf(c.readAll(s, a[0]), ci.typ.(*types.Tuple).At(0).Type())}
		})
	case "io.Copy", "(*bytes.Buffer).ReadFrom", "(*bytes.Buffer).WriteTo":
		dst, src := a[0], a[1]
		if name == "(*bytes.Buffer).WriteTo" {
			dst, src = a[1], a[0]
		}
		c.startReading(st, src, ci.pos)
		data := c.readAll(st, src)
		if isStd(dst, "Stdout") {
			return true, c.stdout(st, ci, data, func(*Term) *Term { return newSym("n", types.Typ[types.Int64]) })
		}
		if d := unbox(dst); isBuf(d) {
			before := c.buf(st, d)
			outs := c.okOr(st, ci, "reading", func(s *State) []*Term {
				c.setBuf(s, d, mkConcat(before, data))
				return []*Term{newSym("n", types.Typ[types.Int64])}
			})
			c.setBuf(outs[1].st, d, newSym("partial", tString))
			return true, outs
		}
		c.fail("C24", "unknown-effect", name, ci.pos, "%s writes to something the analysis cannot tell", name)
		return true, c.okOr(st, ci, name, func(s *State) []*Term { return []*Term{newSym("n", types.Typ[types.Int64])} })
	case "bytes.NewReader", "strings.NewReader":
		t := ext("breader", ci.typ, c.text(st, a[0]))
		st.assumeNil(t, false)
		return one(t)
	case "bytes.NewBuffer", "bytes.NewBufferString":
		o := newObj("buffer", ci.typ, ci.pos)
		if a[0].op == ONil {
			c.setBuf(st, o, mkStr(""))
		} else {
			c.setBuf(st, o, c.text(st, a[0]))
		}
		return one(o)
	case "(*bytes.Buffer).Reset":
		c.setBuf(st, a[0], mkStr(""))
		return one(nil)
	case "(*bytes.Buffer).Bytes":
		return one(bytesOf(c.buf(st, a[0]), ci.typ))
	case "(*bytes.Buffer).String":
		return one(c.buf(st, a[0]))
	case "(*bytes.Buffer).Len":
		return one(mkLen(c.buf(st, a[0])))
	case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString":
		t := c.text(st, a[1])
		c.setBuf(st, a[0], mkConcat(c.buf(st, a[0]), t))
		return one(T.intern(&Term{op: OTuple, args: []*Term{mkLen(t), nilTerm}, typ: ci.typ}))
	case "bytes.Equal":
		return one(eqOrKnown(st, c.text(st, a[0]), c.text(st, a[1])))
	case "bytes.Compare":
		return one(ext("compare", tInt, c.text(st, a[0]), c.text(st, a[1])))
	case "(*os.File).Write", "(*os.File).WriteString":
		if isStd(a[0], "Stdout") {
			return true, c.stdout(st, ci, c.text(st, a[1]), mkLen)
		}
		if isStd(a[0], "Stderr") {
			m.logged = true
			return one(T.intern(&Term{op: OTuple, args: []*Term{newSym("n", tInt), nilTerm}, typ: ci.typ}))
		}
	case "io/ioutil.WriteFile", "os.WriteFile":
		return true, c.write(st, ci)
	case "path/filepath.Walk", "path/filepath.WalkDir":
		return true, c.walk(st, ci, name)
	case "path/filepath.Ext", "path.Ext":
		return one(ext("ext", tString, a[0]))
	case "path/filepath.Base", "path.Base":
		if m.walkPath != nil && a[0] == m.walkPath {
			return one(ext("name", tString, m.walkInfo))
		}
		return one(ext("base", tString, a[0]))
	case "(*os.File).Close", "(*os.File).Name":
		return one(opaqueResult(name, ci.typ))
	}
	if isRW(name) && !readOnly[name] {
		c.fail("C24", "unknown-effect", name, ci.pos, "%s may change files or processes and is not one of the calls the analysis knows", name)
	}
	return false, nil
}

func eqOrKnown(st *State, a, b *Term) *Term {
	switch st.evalEq(a, b) {
	case yes:
		return trueT
	case no:
		return falseT
	}
	return eqTerm(a, b)
}

// isRW says whether a function by its package may do input or output.
func isRW(name string) bool {
	n := strings.TrimLeft(name, "(*")
	for _, p := range []string{"os.", "os/", "io.", "io/", "syscall.", "net.", "net/", "golang.org/x/sys", "bufio.", "plugin.", "unsafe.", "internal/"} {
		if strings.HasPrefix(n, p) {
			return true
		}
	}
	return false
}

func (c *cli) args(ci *callInfo) *Term {
	return ext("args", types.NewSlice(tString))
}

func (c *cli) notExist(st *State, err *Term) *Term {
	return ext("notexist", tBool, unbox(err))
}

// parseFlags models flag.Parse: each flag is given or not.
func (c *cli) parseFlags(st *State, ci *callInfo) []Outcome {
	m := mon(st)
	for m.phase < len(m.vars) {
		v := m.vars[m.phase]
		m.phase++
		switch v.kind {
		case "BoolVar":
			s := newSym("!flag:"+v.name, tBool)
			if c.id == "C28" || c.id == "C26" {
				s = falseT // the configuration does not depend on these
			}
			st.store(v.val, s, tBool)
			switch v.name {
			case "w":
				m.flagW = s
			case "l":
				m.flagL = s
			}
			continue
		case "StringVar":
			o := st.fork()
			s := newSym("!flag:"+v.name, tString)
			st.store(v.val, s, tString)
			if v.name == "c" {
				mon(st).cflag = s
			}
			return append(c.parseFlags(st, ci), c.parseFlags(o, ci)...)
		}
		// A flag.Value, or a function.
		x := unbox(v.val)
		conc := x.typ
		if v.val.op == OIface {
			conc = v.val.typ2
		}
		var fn *ssa.Function
		var bind, recv []*Term
		if v.kind == "Func" {
			fn = x.fn
			if x.op == OClosure {
				bind = x.args
			}
		} else {
			fn = c.p.ssa.LookupMethod(conc, nil, "Set")
			recv = []*Term{x}
		}
		if fn == nil {
			c.e.cantDecide(ci.pos, "the Set method of flag -%s", v.name)
			continue
		}
		if c.id == "C26" && (v.name == "enable-transform" || v.name == "disable-transform") {
			t := st.fork()
			c.havocMaps(st, v.val)
			tm := mon(t)
			tm.naming = v.name
			s := newSym("!flag:"+v.name, tString)
			f := c.e.pushCall(t, fn, append(append([]*Term(nil), recv...), s), bind, nil)
			f.isDefer = true
			f.onReturn = func(t *State, ret *Term) *Term {
				c.judgeName(t, s, ret, fn.Pos())
				t.stop = true
				return nil
			}
			return append(c.parseFlags(st, ci), Outcome{st: t, ret: reenter})
		}
		if v.kind == "Func" {
			for _, b := range bind {
				if _, ok := b.typ.Underlying().(*types.Map); ok {
					st.heap[mapLoc(b)] = mk(OMap, nil, "init", 0, newSym("!given", nil))
					c.given(st, b)
				}
			}
			continue
		}
		if c.havocMaps(st, v.val) {
			continue
		}
		skip := st.fork()
		s := newSym("!flag:"+v.name, tString)
		if v.name == "c" {
			m.cflag = s
		}
		f := c.e.pushCall(st, fn, []*Term{x, s}, nil, nil)
		f.isDefer = true
		f.onReturn = func(s *State, ret *Term) *Term {
			if ret != nil && s.isNil(ret) == no {
				s.stop = true // flag.Parse exits with status 2
			}
			return nil
		}
		outs := c.parseFlags(skip, ci)
		return append(outs, Outcome{st: st, ret: reenter})
	}
	m.vars = nil
	return []Outcome{{st: st}}
}

func (c *cli) given(st *State, mp *Term) {
	m := mon(st)
	if m.given != nil && m.given != mp {
		c.fail("C28", "transforms", "flags", 0, "the flags that set transforms do not use the same map")
	}
	m.given = mp
}

// havocMaps: a flag value that collects into a map has collected anything.
func (c *cli) havocMaps(st *State, v *Term) bool {
	x := unbox(v)
	t := v.typ2
	if t == nil {
		t = x.typ
	}
	s := structOf(t)
	base := x
	if p, ok := t.Underlying().(*types.Pointer); ok {
		s = structOf(p.Elem())
	}
	if s == nil {
		if _, ok := t.Underlying().(*types.Map); ok {
			st.heap[mapLoc(x)] = mk(OMap, nil, "init", 0, newSym("!given", nil))
			c.given(st, x)
			return true
		}
		return false
	}
	done := false
	for i := 0; i < s.NumFields(); i++ {
		if _, ok := s.Field(i).Type().Underlying().(*types.Map); !ok {
			continue
		}
		var mv *Term
		if _, ok := t.Underlying().(*types.Pointer); ok {
			mv = st.load(mkField(base, i), s.Field(i).Type())
		} else {
			mv = fieldOf(base, i, s.Field(i).Type())
		}
		if mv.op == ONil {
			continue
		}
		st.heap[mapLoc(mv)] = mk(OMap, nil, "init", 0, newSym("!given", nil))
		c.given(st, mv)
		done = true
	}
	return done
}

// ---- inputs ----

func (c *cli) startReading(st *State, r *Term, pos token.Pos) {
	x := unbox(r)
	switch {
	case isStd(r, "Stdin"):
		c.startInput(st, "stdin", nil, pos)
	case x.op == OExt && x.name == "file":
		c.startInput(st, "file", x.args[0], pos)
	}
}

// startInput: the code turns to an input (or to the configuration file).
func (c *cli) startInput(st *State, kind string, path *Term, pos token.Pos) {
	m := mon(st)
	if m.kind == kind && m.path == path && m.out == nil {
		return
	}
	if m.config != nil && path == m.config && kind == "file" && !m.opened {
		return
	}
	c.endConfig(st, pos)
	c.endInput(st, pos)
	m.kind, m.path, m.src, m.out = kind, path, nil, nil
	m.at = nil
	for _, f := range st.frames {
		m.at = append(m.at, f.block)
	}
	m.wrote, m.listed, m.printed, m.partial = false, 0, 0, false
}

// nextArgument: an argument is looked at; what came before is over.
func (c *cli) nextArgument(st *State, arg *Term, pos token.Pos) {
	m := mon(st)
	if st.evalEq(arg.args[1], m.next) != yes || m.inWalk {
		return
	}
	c.endInput(st, pos)
	c.tidy(st, arg)
}

// tidy forgets what belongs to the input before.
func (c *cli) tidy(st *State, keep *Term) {
	m := mon(st)
	m.path, m.src, m.out, m.prn, m.prnW = nil, nil, nil, nil, nil
	for i := range m.bufs {
		if m.bufs[i].content.op != OConst {
			m.bufs[i].content = newSym("leftover", tString)
		}
	}
	k := "none"
	if keep != nil {
		k = keep.String()
	}
	forget(st.facts, func(t *Term) bool {
		s := t.String()
		return (strings.Contains(s, "args()[") || strings.Contains(s, "entry#") || strings.Contains(s, "(info#")) && !strings.Contains(s, k)
	})
}

// endInput judges what was done with the input at hand.
func (c *cli) endInput(st *State, pos token.Pos) {
	m := mon(st)
	if m.kind == "" || m.failed != "" || m.out == nil {
		if m.kind != "" && m.failed == "" && m.out == nil && m.opened {
			c.fail("C27", "not-formatted", "input", pos, "an input was opened but not formatted, and nothing failed")
		}
		m.kind = ""
		return
	}
	c.events["input"]++
	same := st.evalEq(m.out, m.src)
	w, l := st.eval(m.flag(m.flagW)), st.eval(m.flag(m.flagL))
	if m.partial {
		c.fail("C32", "partial-output", m.kind, pos, "what is written to standard output is not exactly the formatted text")
	}
	if m.kind == "stdin" {
		if m.printed != 1 || m.listed != 0 {
			c.fail("C32", "stdin-output", "stdin", pos, "formatting standard input writes the result %d times and lists %d names", m.printed, m.listed)
		}
		m.kind = ""
		return
	}
	switch {
	case m.listed > 1, m.listed == 1 && (l != yes || same != no):
		c.fail("C32", "listed", "file", pos, "a file name is listed %d times where -l=%v and contents-equal=%v", m.listed, l, same)
	case m.listed == 0 && l != no && same != yes:
		c.fail("C32", "not-listed", "file", pos, "a file name is not listed where -l=%v and contents-equal=%v", l, same)
	}
	switch {
	case m.printed > 1, m.printed == 1 && (l != no || w != no):
		c.fail("C32", "printed", "file", pos, "the formatted text is written to standard output %d times where -l=%v -w=%v", m.printed, l, w)
	case m.printed == 0 && l != yes && w != yes:
		c.fail("C32", "not-printed", "file", pos, "the formatted text is not written to standard output where -l=%v -w=%v", l, w)
	}
	if !m.wrote && w != no && same != yes {
		c.fail("C32", "not-written", "file", pos, "a file is not rewritten where -w=%v and contents-equal=%v", w, same)
	}
	m.kind = ""
}

func (m *cliMon) flag(t *Term) *Term {
	if t == nil {
		return newSym("flag", tBool)
	}
	return t
}

func (c *cli) parse(st *State, ci *callInfo, content, reader, opts *Term) []Outcome {
	m := mon(st)
	c.startReading(st, reader, ci.pos)
	typ := ci.typ.(*types.Tuple).At(0).Type()
	k, known := opts.intVal()
	full := trueT
	if !known || k != c.opts {
		full = falseT
	}
	isConf := m.config != nil && content == ext("readall", tString, ext("file", nil, m.config)) && m.kind == ""
	outs := c.okOr(st, ci, "parsing", func(s *State) []*Term {
		t := ext("tree", typ, content, full)
		s.assumeNil(t, false)
		if isConf {
			mon(s).confRead = true
		}
		return []*Term{t}
	})
	return outs
}

// format models PrintTree.
func (c *cli) format(st *State, ci *callInfo) []Outcome {
	m := mon(st)
	c.events["format"]++
	pr, tree := ci.args[0], ci.args[1]
	var content *Term
	if tree.op == OExt && tree.name == "tree" {
		content = tree.args[0]
		if tree.args[1] != trueT {
			c.fail("C24", "parse-options", "format", ci.pos, "the tree that is formatted was not parsed with comments and newlines kept")
		}
	}
	if content == nil || content.op != OExt || content.name != "readall" {
		c.fail("C24", "source", "format", ci.pos, "what is formatted is not the whole contents of one input")
		content = newSym("content", tString)
	} else {
		src := content.args[0]
		kind := "stdin"
		var path *Term
		if src.op == OExt && src.name == "file" {
			kind, path = "file", src.args[0]
		} else if !isStd(src, "Stdin") {
			c.fail("C27", "source", "format", ci.pos, "what is formatted is neither a file nor standard input")
		}
		if m.failed == "" {
			c.account(st, kind, path, ci.pos)
		}
		m.kind, m.path = kind, path
	}
	c.settings(st, ci, pr)
	m.src = content
	out := ext("formatted", tString, tree)
	var w *Term
	if m.prn == pr {
		w = m.prnW
	}
	if w == nil {
		c.fail("C24", "writer", "format", ci.pos, "the analysis cannot tell what the printer writes to")
		w = newSym("writer", nil)
	}
	put := func(s *State, t *Term) {
		if d := unbox(w); isBuf(d) {
			c.setBuf(s, d, mkConcat(c.buf(s, d), t))
		} else if isStd(w, "Stdout") {
			mon(s).noteOut(s, t)
		}
	}
	fm := st.fork()
	m.out = out
	put(st, out)
	errv := newSym("err:format", c.errT)
	fm.assumeNil(errv, false)
	mon(fm).failed = "formatting"
	put(fm, newSym("partial", tString))
	return []Outcome{{st: st, ret: nilTerm}, {st: fm, ret: errv}}
}

func (m *cliMon) noteOut(st *State, t *Term) {
	switch {
	case m.out != nil && t == m.out:
		m.printed++
	case m.path != nil && t == mkConcat(m.path, mkStr("\n")):
		m.listed++
	default:
		m.partial = true
	}
}

// account: an input is being formatted; is it the one whose turn it is?
func (c *cli) account(st *State, kind string, path *Term, pos token.Pos) {
	m := mon(st)
	args := c.args(nil)
	switch {
	case m.inWalk:
		m.walkDone++
		if kind != "file" || path != m.walkPath {
			c.fail("C27", "walk-path", "walk", pos, "what is formatted inside the directory walk is not the entry at hand")
		}
		if m.walkDone > 1 {
			c.fail("C27", "walk-twice", "walk", pos, "an entry is formatted twice")
		}
	case kind == "stdin":
		m.stdin++
		if st.evalEq(mkLen(args), mkInt(0)) != yes {
			c.fail("C27", "stdin", "stdin", pos, "standard input is formatted although paths were given")
		}
		if st.eval(m.flag(m.flagW)) != no {
			c.fail("C27", "stdin-w", "stdin", pos, "standard input is formatted although -w was given")
		}
		if m.stdin > 1 {
			c.fail("C27", "stdin-twice", "stdin", pos, "standard input is formatted twice")
		}
	default:
		c.argument(st, path, pos, no)
	}
}

// argument: argument path is being dealt with; dir says whether it must be
// known to be a directory or not.
func (c *cli) argument(st *State, path *Term, pos token.Pos, dir tri) {
	m := mon(st)
	args := c.args(nil)
	if path.op != OIdx || path.args[0] != args {
		c.fail("C27", "argument", "main", pos, "the path that is dealt with is not one of the arguments")
		return
	}
	i := path.args[1]
	if st.evalEq(i, m.next) != yes {
		c.fail("C27", "order", "main", pos, "the arguments are not dealt with one after the other, once each")
	}
	m.next = addK(i, 1)
	var isdir tri
	for _, n := range []string{"Stat"} {
		isdir = st.eval(ext("isdir", tBool, ext(n, c.fileInfo(), path)))
	}
	if isdir != dir {
		c.fail("C27", "directory", fmt.Sprint("dir=", dir == yes), pos, "an argument is treated as a directory=%v where the facts of the path say directory=%v", dir == yes, isdir)
	}
}

var fileInfoType types.Type

func (c *cli) fileInfo() types.Type {
	if fileInfoType == nil {
		for _, sp := range c.p.ssa.AllPackages() {
			if sp.Pkg.Path() == "os" {
				if f, ok := sp.Pkg.Scope().Lookup("Stat").(*types.Func); ok {
					fileInfoType = f.Type().(*types.Signature).Results().At(0).Type()
				}
			}
		}
	}
	return fileInfoType
}

// isConfig: is opening path the opening of the configuration?
func (c *cli) isConfig(st *State, path *Term) bool {
	m := mon(st)
	isArg := path.op == OIdx && path.args[0] == c.args(nil)
	return m.config == nil && !isArg && !m.inWalk && !m.opened
}

func (c *cli) openConfig(st *State, ci *callInfo, t *Term) []Outcome {
	m := mon(st)
	path := ci.args[0]
	c.events["config"]++
	m.config = path
	c.configPath(st, path, ci.pos)
	f := st.fork()
	st.assumeNil(t, false)
	m.confOpen = "ok"
	errv := newSym("err:config", c.errT)
	f.assumeNil(errv, false)
	mon(f).confOpen = "missing"
	tup := func(a, b *Term) *Term { return T.intern(&Term{op: OTuple, args: []*Term{a, b}, typ: ci.typ}) }
	g := f.fork()
	outs := []Outcome{{st: st, ret: tup(t, nilTerm)}}
	if f.assume(ext("notexist", tBool, errv), true) {
		outs = append(outs, Outcome{st: f, ret: tup(nilTerm, errv)})
	}
	mon(g).confOpen = "unreadable"
	if g.assume(ext("notexist", tBool, errv), false) {
		outs = append(outs, Outcome{st: g, ret: tup(nilTerm, errv)})
	}
	return outs
}

func (c *cli) open(st *State, ci *callInfo) []Outcome {
	path := ci.args[0]
	ftyp := ci.typ.(*types.Tuple).At(0).Type()
	if c.isConfig(st, path) {
		return c.openConfig(st, ci, ext("file", ftyp, path))
	}
	c.startInput(st, "file", path, ci.pos)
	return c.okOr(st, ci, "opening a file", func(s *State) []*Term {
		t := ext("file", ftyp, path)
		s.assumeNil(t, false)
		return []*Term{t}
	})
}

// endConfig: the first input is reached.
func (c *cli) endConfig(st *State, pos token.Pos) {
	m := mon(st)
	if m.opened {
		return
	}
	m.opened = true
	if c.id == "C26" {
		c.events["config"]++
		if m.noStyle && m.failed == "" {
			c.fail("C26", "unknown-style", "config", pos, "a configuration with an unknown style name is accepted")
		}
		st.stop = true
		return
	}
	defer func() {
		// What is known of the configuration matters no more.
		m.config, m.cflag, m.confOpen, m.confMsg, m.confKey, m.keyTerm = nil, nil, "", false, "", nil
		conf := func(t *Term) bool {
			s := t.String()
			return strings.Contains(s, "env:") || strings.Contains(s, "err:config") || strings.Contains(s, "!flag:c") || strings.Contains(s, "tree(") && !strings.Contains(s, "formatted")
		}
		forget(st.facts, conf)
		if c.id == "C28" {
			return
		}
		for a, v := range st.heap {
			if t := pointee(a.typ); t != nil && a.op == OField && (v.op == ONil || v.op == OObj) && c.settingKey(t) != "" {
				st.heap[a] = newSym("setting", t)
			}
		}
	}()
	if m.failed != "" {
		return
	}
	if m.config == nil {
		if c.wantConfig(st) != no {
			c.fail("C28", "config-skipped", "main", pos, "no configuration file is opened although one may be named")
		}
		return
	}
	if m.confOpen == "missing" {
		want := m.cflag != nil
		if m.confMsg != want {
			c.fail("C28", "config-missing", fmt.Sprint("c=", want), pos, "a missing configuration file is reported=%v where it was named with -c=%v", m.confMsg, want)
		}
	}
	if m.confOpen == "ok" && !m.confRead {
		c.fail("C28", "config-unread", "main", pos, "the configuration file is opened but not parsed")
	}
}

func (c *cli) envCfg() (h, v *Term) {
	return ext("hasenv:CLJFMT_CONFIG_PATH", tBool), ext("env:CLJFMT_CONFIG_PATH", tString)
}

// wantConfig says whether the documentation names a configuration file here.
func (c *cli) wantConfig(st *State) tri {
	p := c.docPath(st)
	if p == nil {
		return unknown
	}
	switch st.evalEq(p, mkStr("")) {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// docPath is the path the documentation names ("" for none, nil if the facts
// of the path do not tell).
func (c *cli) docPath(st *State) *Term {
	m := mon(st)
	if m.cflag != nil {
		return m.cflag
	}
	h, v := c.envCfg()
	switch st.eval(h) {
	case yes:
		return v
	case unknown:
		return nil
	}
	switch st.eval(ext("hasenv:HOME", tBool)) {
	case yes:
		return ext("join", tString, mkSeq(ext("env:HOME", tString), mkStr(".cljfmt")))
	case no:
		return mkStr("")
	}
	return nil
}

func (c *cli) configPath(st *State, path *Term, pos token.Pos) {
	want := c.docPath(st)
	if want == nil || want != path && st.evalEq(want, path) != yes {
		c.fail("C28", "config-path", "main", pos, "the configuration file that is opened is not the one documented (-c, then CLJFMT_CONFIG_PATH, then .cljfmt in HOME): %v", path)
	}
}

// ---- output ----

func (c *cli) printArgs(st *State, name string, a []*Term) *Term {
	i := 0
	format := ""
	if strings.HasSuffix(name, "f") {
		format, _ = st.knownStr(a[0])
		i = 1
	}
	var parts []*Term
	for j, v := range st.content(a[i]).args {
		if v.op == OSeg {
			return newSym("output", tString)
		}
		if j > 0 {
			parts = append(parts, mkStr(" "))
		}
		parts = append(parts, unbox(v))
	}
	switch {
	case strings.HasSuffix(name, "ln"):
		parts = append(parts, mkStr("\n"))
	case strings.HasSuffix(name, "f"):
		if len(parts) != 1 || format != "%s\n" && format != "%v\n" && format != "%s" {
			return newSym("output", tString)
		}
		if strings.HasSuffix(format, "\n") {
			parts = append(parts, mkStr("\n"))
		}
	}
	for _, q := range parts {
		if !isStringTerm(q) && q.op == OExt && q.name == "bytesof" {
			continue
		}
		if !isStringTerm(q) && (q.typ == nil || q.typ.Underlying() != types.Typ[types.String]) {
			return newSym("output", tString)
		}
	}
	return mkConcat(parts...)
}

func (c *cli) fprint(st *State, ci *callInfo, name string) []Outcome {
	w := ci.args[0]
	var t *Term
	if name == "io.WriteString" {
		t = ci.args[1]
	} else {
		t = c.printArgs(st, "fmt.P"+strings.TrimPrefix(name, "fmt.Fp"), ci.args[1:])
	}
	switch {
	case isStd(w, "Stderr"):
		mon(st).logged = true
		if m := mon(st); m.kind == "" && m.confOpen == "missing" {
			m.confMsg = true
		}
		return []Outcome{{st: st, ret: T.intern(&Term{op: OTuple, args: []*Term{newSym("n", tInt), nilTerm}, typ: ci.typ})}}
	case isStd(w, "Stdout"):
		return c.stdout(st, ci, t, mkLen)
	case isBuf(unbox(w)):
		c.setBuf(st, unbox(w), mkConcat(c.buf(st, unbox(w)), t))
		return []Outcome{{st: st, ret: T.intern(&Term{op: OTuple, args: []*Term{newSym("n", tInt), nilTerm}, typ: ci.typ})}}
	}
	c.fail("C24", "unknown-effect", name, ci.pos, "%s writes to something the analysis cannot tell", name)
	return c.okOr(st, ci, name, func(*State) []*Term { return []*Term{newSym("n", tInt)} })
}

func (c *cli) stdout(st *State, ci *callInfo, t *Term, n func(*Term) *Term) []Outcome {
	return c.okOr(st, ci, "writing standard output", func(s *State) []*Term {
		m := mon(s)
		if m.kind != "" {
			m.noteOut(s, t)
		} else {
			c.fail("C32", "stray-output", "main", ci.pos, "something is written to standard output outside the handling of an input")
		}
		return []*Term{n(t)}
	})
}

func (c *cli) write(st *State, ci *callInfo) []Outcome {
	m := mon(st)
	c.events["write"]++
	path, data, perm := ci.args[0], ci.args[1], ci.args[2]
	bad := func(rule, format string, args ...interface{}) {
		c.fail("C24", rule, "write", ci.pos, format, args...)
	}
	if st.eval(m.flag(m.flagW)) != yes {
		bad("without-w", "a file is written where -w is not known to be on")
	}
	if m.failed != "" {
		bad("after-failure", "a file is written after %s failed", m.failed)
	}
	switch {
	case m.kind != "file" || m.out == nil:
		bad("not-formatted", "a file is written where no file has been formatted")
	case path != m.path:
		bad("path", "the file that is written is not the one that was read")
	default:
		if c.text(st, data) != m.out {
			bad("data", "what is written is not exactly the formatted text")
		}
		if st.evalEq(m.out, m.src) != no {
			bad("unchanged", "a file is written where the formatted text is not known to differ from its contents")
		}
		modeOf := func(info string, x *Term) *Term {
			return ext("mode", nil, ext(info, c.fileInfo(), x))
		}
		ok := false
		if perm.op == OExt && perm.name == "perm" && perm.args[0].op == OExt && perm.args[0].name == "mode" {
			info := perm.args[0].args[0]
			if info.op == OExt && info.name == "Stat" && info.args[0] == path {
				ok = true
			}
			if info.op == OExt && info.name == "fstat" && info.args[0].op == OExt && info.args[0].name == "file" && info.args[0].args[0] == path {
				ok = true
			}
		}
		_ = modeOf
		if !ok {
			bad("permissions", "the permissions the file is written with are not those it has: %v", perm)
		}
	}
	if m.wrote {
		bad("twice", "a file is written twice")
	}
	f := st.fork()
	m.wrote = true
	errv := newSym("err:write", c.errT)
	f.assumeNil(errv, false)
	mon(f).failed = "writing a file"
	return []Outcome{{st: st, ret: nilTerm}, {st: f, ret: errv}}
}

// ---- walking ----

func (c *cli) walk(st *State, ci *callInfo, name string) []Outcome {
	m := mon(st)
	c.events["walk"]++
	if m.walk == 0 {
		c.endConfig(st, ci.pos)
		c.endInput(st, ci.pos)
		if m.failed == "" && !m.inWalk {
			c.argument(st, ci.args[0], ci.pos, yes)
		}
		m.walkFn = ci.args[1]
	} else {
		c.endEntry(st, ci.pos)
		if m.walkRet != nil && st.isNil(m.walkRet) != yes {
			var outs []Outcome
			ret := m.walkRet
			o := st.fork()
			if st.isNil(ret) == no || st.assume(eqTerm(ret, nilTerm), false) {
				c.stopWalk(st, ci.pos)
				mon(st).reset()
				outs = append(outs, Outcome{st: st, ret: ret})
			}
			if o.isNil(ret) != no && o.assumeNil(ret, true) {
				mon(o).walkRet = nil
				outs = append(outs, c.walkOn(o, ci, name)...)
			}
			return outs
		}
	}
	return c.walkOn(st, ci, name)
}

func (m *cliMon) reset() {
	m.walk, m.walkDone, m.inWalk, m.walkErr = 0, 0, false, false
	m.walkRet, m.walkFn, m.walkPath, m.walkInfo = nil, nil, nil, nil
	m.lastExtKey, m.lastExtHas = nil, ""
}

// stopWalk: the callback returned an error.
func (c *cli) stopWalk(st *State, pos token.Pos) {
	if m := mon(st); m.failed == "" {
		c.fail("C27", "walk-stopped", "walk", pos, "the directory walk is cut short (or a directory skipped) although nothing failed")
	}
}

func (c *cli) walkOn(st *State, ci *callInfo, name string) []Outcome {
	m := mon(st)
	if m.walk > 0 {
		c.tidy(st, nil)
	}
	end := st.fork()
	mon(end).reset()
	outs := []Outcome{{st: end, ret: nilTerm}}
	if m.walk >= 2 {
		return outs
	}
	fnv := m.walkFn
	if fnv == nil || fnv.op != OClosure && fnv.op != OFunc {
		c.e.cantDecide(ci.pos, "the function given to %s", name)
		return outs
	}
	for _, bad := range []bool{false, true} {
		s := st.fork()
		sm := mon(s)
		sm.walk++
		sm.inWalk, sm.walkDone, sm.walkErr, sm.walkRet = true, 0, bad, nil
		sm.lastExtKey, sm.lastExtHas = nil, ""
		sm.walkPath = newSym("entry", tString)
		sig := fnv.fn.Signature
		sm.walkInfo = newSym("info", sig.Params().At(1).Type())
		errv := nilTerm
		if bad {
			errv = newSym("err:walk", c.errT)
			s.assumeNil(errv, false)
			if sm.failed == "" {
				sm.failed = "walking a directory"
			}
		} else {
			s.assumeNil(sm.walkInfo, false)
		}
		var bindings []*Term
		if fnv.op == OClosure {
			bindings = fnv.args
		}
		f := c.e.pushCall(s, fnv.fn, []*Term{sm.walkPath, sm.walkInfo, errv}, bindings, nil)
		f.isDefer = true
		f.onReturn = func(s *State, ret *Term) *Term {
			mon(s).walkRet = ret
			return nil
		}
		outs = append(outs, Outcome{st: s, ret: reenter})
	}
	return outs
}

// endEntry judges what the callback did with an entry.
func (c *cli) endEntry(st *State, pos token.Pos) {
	m := mon(st)
	if !m.inWalk {
		return
	}
	done := m.walkDone
	info, p := m.walkInfo, m.walkPath
	if m.failed == "" {
		name := ext("name", tString, info)
		isdir := st.eval(ext("isdir", tBool, info))
		dot := unknown
		if d := ext("strings.HasPrefix", tBool, name, mkStr(".")); st.eval(d) != unknown {
			dot = st.eval(d)
		}
		extOK := unknown
		keyOK := m.lastExtKey != nil && (m.lastExtKey == ext("ext", tString, name) || m.lastExtKey == ext("ext", tString, p))
		if keyOK {
			switch m.lastExtHas {
			case "yes":
				extOK = yes
			case "no":
				extOK = no
			}
		}
		want := isdir == no && dot == no && extOK == yes
		wantNot := isdir == yes || dot == yes || extOK == no
		if done > 0 && !want || done == 0 && !wantNot {
			c.fail("C27", "walk-entry", fmt.Sprint("done=", done > 0), pos, "an entry of a directory is formatted=%v where directory=%v, leading-dot=%v, extension-configured=%v", done > 0, isdir, dot, extOK)
		}
	}
	if m.failed == "" {
		c.endInput(st, pos)
	}
	m.inWalk = false
}

// ---- end of the process ----

func (c *cli) exit(st *State, code int, pos token.Pos) {
	m := mon(st)
	c.events["exit"]++
	args := c.args(nil)
	if code != 0 {
		if m.failed == "" {
			if m.rejected || m.confRead && !m.opened {
				return
			}
			if st.evalEq(mkLen(args), mkInt(0)) == yes && st.eval(m.flag(m.flagW)) == yes && m.stdin == 0 {
				return
			}
			c.fail("C27", "refusal", "main", pos, "the command gives up although nothing failed")
			return
		}
		if !m.logged {
			c.fail("C25", "silent", m.failed, pos, "the command fails without a message after %s failed", m.failed)
		}
		return
	}
	if m.failed != "" {
		c.fail("C25", "exit-status", m.failed, pos, "the command exits with status 0 although %s failed", m.failed)
		return
	}
	c.endConfig(st, pos)
	c.endInput(st, pos)
	switch st.evalEq(mkLen(args), mkInt(0)) {
	case yes:
		if m.stdin != 1 {
			c.fail("C27", "stdin-skipped", "main", pos, "without arguments standard input is formatted %d times", m.stdin)
		}
	default:
		if !st.provesLE(toLin(mkLen(args)).add(toLin(m.next), -1)) {
			c.fail("C27", "arguments-skipped", "main", pos, "the command ends although not every argument has been dealt with")
		}
	}
}

// ---- configuration contents ----

// A setting is a map that the configuration may replace.
type setting struct {
	m    *Term
	keys string // the keys under which it was made or filled, "" before the configuration
}

var settingKeys = map[string]string{
	"struct{}":         ":extensions",
	"IndentStyle":      ":indent-overrides",
	"ThreadFirstStyle": ":thread-first-overrides",
}

func settingOf(s string) string {
	for _, k := range settingKeys {
		if k == s {
			return k
		}
	}
	return ""
}

// settingKey is the configuration key a map type belongs to.
func (c *cli) settingKey(t types.Type) string {
	if t == nil {
		return ""
	}
	mt, ok := t.Underlying().(*types.Map)
	if !ok || mt.Key().Underlying() != types.Typ[types.String] {
		return ""
	}
	if n, ok := mt.Elem().(*types.Named); ok {
		return settingKeys[n.Obj().Name()]
	}
	return settingKeys[mt.Elem().String()]
}

// arrive forgets, at the loops that read the configuration, what is known of
// its contents: the tree is unknown, and only the keys seen so far matter.
func (c *cli) arrive(st *State, blk *ssa.BasicBlock, header bool) {
	c.prune(st)
	m := mon(st)
	if header && m.style != "" {
		live := false
		for _, s := range st.slots() {
			t := s.t
			live = live || t != nil && t.isConst() && isEnum(t.typ) && namedOf(t.typ) != nil && strings.HasSuffix(namedOf(t.typ).Obj().Name(), "Style")
		}
		if !live {
			m.style = ""
		}
	}
	if header && m.out != nil && m.kind != "" && !m.inWalk {
		// The loop over the inputs comes round.
		if d := len(st.frames) - 1; d < len(m.at) && m.at[d].Parent() == blk.Parent() && blk.Dominates(m.at[d]) {
			c.endInput(st, blk.Instrs[0].Pos())
			c.tidy(st, nil)
		}
	}
	if !header || !m.confRead || m.opened {
		return
	}
	memo := map[*Term]bool{}
	var loose func(t *Term) bool
	loose = func(t *Term) bool {
		if t == nil {
			return false
		}
		if v, ok := memo[t]; ok {
			return v
		}
		memo[t] = false
		r := t.op == OExt && (t.name == "tree" || t.name == "lookup" || t.name == "has") ||
			t.op == OSym && !strings.HasPrefix(t.name, "!") && !strings.HasPrefix(t.name, "err:")
		for _, a := range t.args {
			r = r || loose(a)
		}
		memo[t] = r
		return r
	}
	forget(st.facts, loose)
	for a, v := range st.heap {
		switch {
		case v.op == OMap && v.name == "put" && loose(v):
			st.heap[a] = mk(OMap, nil, "init", 0, newSym("contents", nil))
		case v.op == OSeq && len(v.args) > 1 && loose(v):
			x := newSym("contents", v.typ)
			st.heap[a] = mkSeq(mkSeg(x, mkInt(0), mkLen(x)))
		}
	}
}

// forget drops what is known of the terms loose picks.
func forget(f *Facts, loose func(*Term) bool) {
	for t := range f.ints {
		if loose(t) {
			delete(f.ints, t)
		}
	}
	for t := range f.types {
		if loose(t) {
			delete(f.types, t)
		}
	}
	for t := range f.bools {
		if loose(t) {
			delete(f.bools, t)
		}
	}
	for t, v := range f.strEq {
		if loose(t) && (len(v) < 3 || v[0] != ':') {
			delete(f.strEq, t)
		}
	}
	for t := range f.strNe {
		if loose(t) {
			delete(f.strNe, t)
		}
	}
	filter := func(ts []*Term) []*Term {
		var out []*Term
		for _, t := range ts {
			if !loose(t) {
				out = append(out, t)
			}
		}
		return out
	}
	f.rel, f.ne = filter(f.rel), filter(f.ne)
}

// prune forgets maps that nothing refers to any more.
func (c *cli) prune(st *State) {
	m := mon(st)
	if len(m.sets) == 0 {
		return
	}
	live := map[*Term]bool{}
	for _, v := range st.heap {
		live[v] = true
	}
	for _, s := range st.slots() {
		if !strings.HasPrefix(s.path, "m") {
			live[s.t] = true
		}
	}
	var keep []setting
	for _, s := range m.sets {
		if live[s.m] {
			keep = append(keep, s)
		}
	}
	sort.SliceStable(keep, func(i, j int) bool { return keep[i].keys < keep[j].keys })
	m.sets = keep
}

// touch notes that setting map v is made or filled at this point.
func (c *cli) touch(st *State, v *Term, typ types.Type) {
	if c.id != "C28" || v.op != OObj && v.op != OSym || c.settingKey(typ) == "" {
		return
	}
	m := mon(st)
	key := "-"
	switch {
	case m.confRead && !m.opened:
		key = m.confKey
	case m.opened:
		key = "late"
	}
	for i := range m.sets {
		if m.sets[i].m == v {
			have := strings.Split(m.sets[i].keys, "+")
			for _, h := range have {
				if h == key {
					return
				}
			}
			m.sets[i].keys += "+" + key
			return
		}
	}
	m.sets = append(m.sets, setting{v, key})
}

func (c *cli) onStore(st *State, ins ssa.Instruction, addr, val *Term) {
	m := mon(st)
	s, ok := ins.(*ssa.Store)
	if !ok || !m.confRead && m.opened {
		return
	}
	for i := range m.sets {
		if m.sets[i].m == val {
			return
		}
	}
	c.touch(st, val, s.Val.Type())
}

func (c *cli) onMap(st *State, ins ssa.Instruction, mp *Term) {
	if u, ok := ins.(*ssa.MapUpdate); ok {
		c.touch(st, mp, u.Map.Type())
		if c.id == "C26" {
			c.nameUpdate(st, u)
		}
	}
}

var transformNames = map[string]string{
	"sort-import-require":                "TransformSortImportRequire",
	"enforce-ns-style":                   "TransformEnforceNSStyle",
	"remove-trailing-newlines":           "TransformRemoveTrailingNewlines",
	"fix-defn-arglist-newline":           "TransformFixDefnArglistNewline",
	"fix-defmethod-dispatch-val-newline": "TransformFixDefmethodDispatchValNewline",
	"remove-extra-blank-lines":           "TransformRemoveExtraBlankLines",
	"fix-if-newline-consistency":         "TransformFixIfNewlineConsistency",
	"use-to-require":                     "TransformUseToRequire",
	"remove-unused-requires":             "TransformRemoveUnusedRequires",
}

var styleNames = map[string]map[string]string{
	":indent-overrides": {
		":normal": "IndentNormal", ":list": "IndentList", ":list-body": "IndentListBody", ":let": "IndentLet",
		":letfn": "IndentLetfn", ":for": "IndentFor", ":deftype": "IndentDeftype", ":cond0": "IndentCond0",
		":cond1": "IndentCond1", ":cond2": "IndentCond2", ":cond4": "IndentCond4",
	},
	":thread-first-overrides": {":normal": "ThreadFirstNormal", ":cond->": "ThreadFirstCondArrow"},
}

// formatConst is the value of a constant of package format.
func (c *cli) formatConst(name string) *Term {
	if k, ok := c.p.pkgs["format"].Members[name].(*ssa.NamedConst); ok {
		return mkConst(k.Value.Value, k.Type())
	}
	return nil
}

// judgeName looks at what giving name s to a transform flag did.
func (c *cli) judgeName(st *State, s, ret *Term, pos token.Pos) {
	m := mon(st)
	name, known := st.knownStr(s)
	api := transformNames[name]
	if ret == nil || st.isNil(ret) != yes {
		if m.named != "" {
			c.fail("C26", "rejected-but-set", m.naming, pos, "-%s sets %s although it rejects the name", m.naming, m.named)
		}
		for n := range transformNames {
			if st.evalEq(s, mkStr(n)) != no {
				c.fail("C26", "name-rejected", m.naming+" "+n, pos, "-%s %s may be rejected", m.naming, n)
			}
		}
		c.events["name_rejected"]++
		return
	}
	if !known || api == "" {
		c.fail("C26", "name-accepted", m.naming, pos, "-%s accepts a name that is not documented (%s), setting %s", m.naming, st.describe(s), m.named)
		return
	}
	want := fmt.Sprintf("%v=%v;", c.formatConst(api), m.naming == "enable-transform")
	if m.named != want {
		c.fail("C26", "wrong-transform", m.naming+" "+name, pos, "-%s %s sets %s instead of %s", m.naming, name, m.named, want)
	}
	c.events["name_"+m.naming+" "+name]++
}

func (st *State) describe(s *Term) string {
	if k, ok := st.knownStr(s); ok {
		return fmt.Sprintf("%q", k)
	}
	return fmt.Sprintf("%v, not one of %q", s, st.facts.strNe[s])
}

// nameUpdate looks at a map update: a transform being named, or a style.
func (c *cli) nameUpdate(st *State, u *ssa.MapUpdate) {
	m := mon(st)
	mt := u.Map.Type().Underlying().(*types.Map)
	if n, ok := mt.Key().(*types.Named); ok && m.naming != "" && n.Obj().Name() == "Transform" {
		m.named += fmt.Sprintf("%v=%v;", st.val(u.Key), st.val(u.Value))
		return
	}
	key := c.settingKey(u.Map.Type())
	names := styleNames[key]
	if names == nil || m.naming != "" {
		return
	}
	v := st.val(u.Value)
	if c.formatConst(names[m.style]) == nil || st.evalEq(v, c.formatConst(names[m.style])) != yes {
		c.fail("C26", "wrong-style", key+" "+m.style, u.Pos(), "where the style name is %q, %v is stored under %s", m.style, v, key)
		return
	}
	c.events["style_"+key+" "+m.style]++
}

func (c *cli) onStrNe(st *State, t *Term, s string) {
	m := mon(st)
	if c.id != "C26" || !m.confRead || m.opened || t.isConst() {
		return
	}
	for _, names := range styleNames {
		all := true
		for n := range names {
			all = all && st.evalEq(t, mkStr(n)) == no
		}
		m.noStyle = m.noStyle || all
	}
}

func (c *cli) namesCovered() {
	for _, f := range []string{"enable-transform", "disable-transform"} {
		for n := range transformNames {
			c.r.need("events_name_"+f+" "+n, 1)
		}
	}
	for k, names := range styleNames {
		for n := range names {
			c.r.need("events_style_"+k+" "+n, 1)
		}
	}
	c.r.need("events_config", 1)
}

func (c *cli) onStrEq(st *State, t *Term, s string) {
	m := mon(st)
	if c.id == "C26" && m.confRead && !m.opened && settingOf(s) == "" && strings.HasPrefix(s, ":") {
		m.style = s
	}
	if m.confRead && !m.opened && strings.HasPrefix(s, ":") && len(s) > 1 {
		for _, k := range settingKeys {
			if k == s {
				m.confKey, m.keyTerm = s, t
				if c.id == "C28" && !strings.Contains(m.seen, s) {
					ks := append(strings.Fields(m.seen), s)
					sort.Strings(ks)
					m.seen = strings.Join(ks, " ")
				}
			}
		}
	}
}

// judge looks at the value in effect of the setting key.
func (c *cli) judge(st *State, key string, v *Term, pos token.Pos) {
	if c.id != "C28" || mon(st).failed != "" {
		return
	}
	m := mon(st)
	from := ""
	for _, s := range m.sets {
		if s.m == v {
			from = s.keys
		}
	}
	c.events["setting"]++
	if strings.Contains(m.seen, key) {
		if from != key {
			c.fail("C28", "setting", key, pos, "the setting %s in effect is not exactly what the configuration gives it (made or filled under: %q)", key, from)
		}
		return
	}
	if from != "" && from != "-" {
		c.fail("C28", "setting", key, pos, "the setting %s is changed although the configuration does not mention it (made or filled under: %q)", key, from)
		return
	}
	if key != ":extensions" {
		if v.op != ONil {
			c.fail("C28", "setting-default", key, pos, "the setting %s has overrides although the configuration gives none", key)
		}
		return
	}
	want := map[string]bool{".clj": true, ".cljs": true, ".cljc": true, ".edn": true}
	d := st.mapContent(v)
	for ; d.name == "put"; d = d.args[0] {
		if k, ok := d.args[1].strVal(); ok && want[k] {
			delete(want, k)
		} else {
			c.fail("C28", "setting-default", key, pos, "the default extensions hold %v, which is not documented", d.args[1])
		}
	}
	if d.name != "empty" || len(want) > 0 {
		c.fail("C28", "setting-default", key, pos, "the default extensions are not the documented ones")
	}
}

// settings judges the printer's settings when it formats an input.
func (c *cli) settings(st *State, ci *callInfo, pr *Term) {
	m := mon(st)
	s := structOf(pointee(ci.fn.Params[0].Type()))
	if s == nil || m.failed != "" {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		v := st.load(mkField(pr, i), f.Type())
		if m.prn == pr && v.op == OInit {
			v = nilTerm
		}
		switch f.Name() {
		case "IndentOverrides":
			c.judge(st, ":indent-overrides", v, ci.pos)
		case "ThreadFirstStyleOverrides":
			c.judge(st, ":thread-first-overrides", v, ci.pos)
		case "Transforms":
			if m.given == nil || v != m.given {
				c.fail("C28", "transforms", "Transforms", ci.pos, "the transforms given on the command line are not those the formatter uses")
			}
		case "IndentChar":
			if k, ok := v.intVal(); !ok || k != ' ' {
				c.fail("C32", "indent-char", "IndentChar", ci.pos, "the formatter does not indent with spaces")
			}
		}
	}
}

// onLookup follows the lookup of an extension during a walk.
func (c *cli) onLookup(st *State, ins *ssa.Lookup, mp, k *Term, has bool) {
	m := mon(st)
	if !m.inWalk || c.settingKey(ins.X.Type()) != ":extensions" {
		return
	}
	c.judge(st, ":extensions", mp, ins.Pos())
	m.lastExtKey = k
	m.lastExtHas = "no"
	if has {
		m.lastExtHas = "yes"
	}
}

// dropped: every error a call of the command gives is looked at.
func (c *cli) dropped() {
	exempt := func(call *ssa.CallCommon) bool {
		fn := call.StaticCallee()
		if fn == nil {
			return call.IsInvoke() && call.Method.Name() == "Close"
		}
		n := fnName(fn)
		if strings.HasPrefix(n, "fmt.Fp") {
			// To standard error, or to memory.
			w := call.Args[0]
			if mi, ok := w.(*ssa.MakeInterface); ok {
				w = mi.X
			}
			if u, ok := w.(*ssa.UnOp); ok {
				if g, ok := u.X.(*ssa.Global); ok && g.Name() == "Stderr" {
					return true
				}
			}
			s := w.Type().String()
			return s == "*bytes.Buffer" || s == "*strings.Builder"
		}
		return fn.Name() == "Close" || strings.HasPrefix(n, "(*bytes.Buffer).Write") && fn.Name() != "WriteTo" || strings.HasPrefix(n, "(*strings.Builder).") || strings.HasPrefix(n, "log.")
	}
	n := 0
	for _, fn := range c.p.fns {
		if fn.Package() != c.p.pkgs["cljfmt"] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				rs := call.Common().Signature().Results()
				if rs.Len() == 0 || !types.Identical(rs.At(rs.Len()-1).Type(), c.errT) || exempt(call.Common()) {
					continue
				}
				n++
				used := false
				if v := call.Value(); v != nil {
					for _, u := range *v.Referrers() {
						switch u := u.(type) {
						case *ssa.DebugRef:
						case *ssa.Extract:
							if u.Index == rs.Len()-1 {
								for _, w := range *u.Referrers() {
									if _, ok := w.(*ssa.DebugRef); !ok {
										used = true
									}
								}
							}
						default:
							used = used || rs.Len() == 1
							if _, ok := u.(*ssa.Return); ok {
								used = true
							}
						}
					}
				}
				if !used {
					c.fail("C25", "dropped", fnName(fn), ins.Pos(), "the error of %s is dropped in %s", call.Common().Description(), fnName(fn))
				}
			}
		}
	}
	c.r.count("error_results", n)
	c.r.need("error_results", 10)
}
