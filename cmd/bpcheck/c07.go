package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C07", Title: "only encrypted data leaves the program", Run: runC07,
		Explanation: "Every write to a file or a remote in the program is found, and the data given to it is traced backwards through calls, variables and fields to where it comes from."})
	register(&Check{ID: "C08", Title: "created files are private", Run: runC08,
		Explanation: "Every call that creates a file or sets permissions is found, and the permissions given to it are traced backwards to constants."})
}

// stdStream: v is os.Stdin, os.Stdout or os.Stderr.
func stdStream(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return false
	}
	g, ok := u.X.(*ssa.Global)
	return ok && g.Pkg != nil && g.Pkg.Pkg.Path() == "os" && strings.HasPrefix(g.Name(), "Std")
}

// opened says how a file handle came to be: the creating calls, or false if
// it is only a standard stream or open for reading.
func (p *Prog) writable(v ssa.Value) bool {
	for _, s := range p.sources(v, prov{fields: true}) {
		if stdStream(s) {
			continue
		}
		if e, ok := s.(*ssa.Extract); ok {
			s = e.Tuple
		}
		if c, ok := s.(*ssa.Call); ok && calleeName(c.Common()) == "os.Open" {
			continue
		}
		if c, ok := s.(*ssa.Const); ok && c.Value == nil {
			continue
		}
		return true
	}
	return false
}

func isOSFile(T types.Type) bool {
	pt, ok := T.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n, ok := pt.Elem().(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "os" && n.Obj().Name() == "File"
}

// plainRoots are the functions that are meant to write plain data: exporting
// and editing in an external editor.
func (p *Prog) plainRoots() map[*ssa.Function]string {
	out := map[*ssa.Function]string{}
	for _, f := range p.mainCallees() {
		if p.reachesAny(f, "encoding/csv.NewWriter") && !p.reachesAny(f, "crypt.Encrypt") {
			out[f] = "export"
		}
	}
	for _, c := range p.commands() {
		if p.reachesAny(c.run, "osutil.RunEditor") {
			out[c.run] = "the command " + c.name
		}
	}
	return out
}

// outside are the module functions that run without passing one of the roots.
func (p *Prog) outside(roots map[*ssa.Function]string) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		if seen[g] || roots[g] != "" || g.Blocks == nil || !p.inModule[g] {
			return
		}
		seen[g] = true
		if len(g.AnonFuncs) > 0 {
			for _, a := range g.AnonFuncs {
				walk(a)
			}
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					for _, t := range p.callTargets(c) {
						walk(t)
					}
				}
			}
		}
	}
	// every function nobody calls is a way in
	for _, f := range p.modFuncs() {
		if f.Parent() == nil && len(p.inEdges(f)) == 0 {
			walk(f)
		}
	}
	if f := p.fn("main.main"); f != nil {
		walk(f)
	}
	return seen
}

// fileData are the arguments of a call that end up in a file or at a remote,
// nil if it does not write there.
func (p *Prog) fileData(c ssa.CallInstruction) (what string, data []ssa.Value) {
	cc := c.Common()
	a := cc.Args
	switch n := calleeName(cc); n {
	case "os.WriteFile", "io/ioutil.WriteFile":
		return n, a[1:2]
	case "scpsync.Send":
		return n, a[len(a)-1:]
	case "(*os.File).Write", "(*os.File).WriteString", "(*os.File).WriteAt", "(*os.File).ReadFrom":
		if p.writable(a[0]) {
			return n, a[1:2]
		}
	}
	// a file used as a writer
	for i, x := range a {
		mi, ok := x.(*ssa.MakeInterface)
		if !ok || !isOSFile(mi.X.Type()) || !p.writable(mi.X) {
			continue
		}
		switch n := calleeName(cc); {
		case n == "io.WriteString", strings.HasPrefix(n, "fmt.Fprint"), n == "io.Copy", n == "io.CopyN", n == "io.CopyBuffer":
			if i == 0 {
				return n, a[1:2]
			}
		default:
			return n, []ssa.Value{x}
		}
	}
	return "", nil
}

func encrypted(s ssa.Value) bool {
	e, ok := s.(*ssa.Extract)
	if !ok || e.Index != 0 {
		return false
	}
	c, ok := e.Tuple.(*ssa.Call)
	return ok && calleeName(c.Common()) == "crypt.Encrypt"
}

// readers wrap data without changing it.
var readers = map[string][]int{"bytes.NewReader": {0}, "bytes.NewBuffer": {0}, "strings.NewReader": {0}, "bufio.NewReader": {0}, "bytes.NewBufferString": {0}, "bytes.Clone": {0}, "slices.Clone": {0}, "append": {0, 1}}

func isEncrypt(v ssa.Value) bool { return encrypted(v) }

func (p *Prog) describe(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			return "the result of " + calleeName(c.Common())
		}
	case *ssa.Call:
		return "the result of " + calleeName(x.Common())
	case *ssa.Const:
		return "a constant"
	case *ssa.Parameter:
		return "parameter " + x.Name() + " of " + fnName(x.Parent())
	}
	if in, ok := v.(ssa.Instruction); ok {
		return "the value at " + p.instrPos(in)
	}
	return v.Name()
}

func runC07(r *Run) {
	r.Rule("data: what is written to a file or sent to a remote is the output of crypt.Encrypt; exporting and editing, which are meant to write plain values, are the only ones excepted")
	r.Rule("history: lines typed at a prompt are not kept in a history file")
	p := r.P
	roots := p.plainRoots()
	kinds := map[string]bool{}
	var names []string
	for f, n := range roots {
		r.Oblige("data", "meant to write plain values: "+fnName(f))
		if n == "export" {
			kinds["export"] = true
		} else {
			kinds["edit"] = true
		}
		names = append(names, fnName(f)+" ("+n+")")
	}
	sort.Strings(names)
	r.Note("excepted", strings.Join(names, ", "))
	out := p.outside(roots)
	sinks := 0
	for _, f := range p.modFuncs() {
		if !out[f] || pkgOf(f) == "scpsync" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok && isOSFile(mi.X.Type()) && p.writable(mi.X) {
					// as an argument it is judged at the call
					for _, ref := range *mi.Referrers() {
						if _, ok := ref.(ssa.CallInstruction); !ok {
							if _, dbg := ref.(*ssa.DebugRef); !dbg {
								r.Violate("data", fnName(f)+"|handle", p.instrPos(in), "a file open for writing is handed on as an interface, what is written to it is not known to be encrypted", nil)
								break
							}
						}
					}
				}
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				n := calleeName(c.Common())
				if strings.HasPrefix(n, "net/http.") || strings.HasPrefix(n, "(*net/http.") || strings.HasPrefix(n, "net.Dial") || strings.HasPrefix(n, "net/smtp.") || n == "os.NewFile" || n == "log.SetOutput" {
					r.Violate("data", fnName(f)+"|"+n, p.instrPos(in), "data can leave the program through "+n, nil)
				}
				what, data := p.fileData(c)
				if what == "" {
					continue
				}
				sinks++
				r.Oblige("data", what+" "+p.instrPos(in))
				bad := map[string]bool{}
				for _, d := range data {
					for _, s := range p.sources(d, prov{leaf: isEncrypt, fields: true, through: readers}) {
						if encrypted(s) {
							continue
						}
						if c, ok := s.(*ssa.Const); ok && c.Value == nil {
							continue
						}
						bad[p.describe(s)] = true
					}
				}
				for _, k := range sortedSet(bad) {
					r.Violate("data", fnName(f)+"|"+what+"|"+k, p.instrPos(in), "what is written by "+what+" can be "+k+", which is not encrypted", nil)
				}
			}
		}
	}
	r.Count("sinks", sinks)
	r.Need("data", 4)
	if !kinds["export"] || !kinds["edit"] {
		r.Note("exceptions", "exporting or editing was not found and is not excepted")
	}
	plainFiles(r, roots)
	// history
	for _, f := range p.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					fa, ok := st.Addr.(*ssa.FieldAddr)
					if !ok || !strings.HasSuffix(types.TypeString(deref(fa.X.Type()), nil), "readline.Config") || structFieldName(deref(fa.X.Type()), fa.Field) != "HistoryFile" {
						continue
					}
					r.Oblige("history", p.instrPos(in))
					for _, s := range p.sources(st.Val, prov{fields: true}) {
						if c, ok := s.(*ssa.Const); !ok || c.Value == nil || constant.StringVal(c.Value) != "" {
							r.Violate("history", fnName(f), p.instrPos(in), "typed lines are kept in a history file", nil)
						}
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), "readline.Instance).SetHistoryPath") {
					r.Violate("history", fnName(f), p.instrPos(in), "typed lines are kept in a history file", nil)
				}
				if c, ok := in.(ssa.CallInstruction); ok && strings.HasSuffix(calleeName(c.Common()), "readline.NewEx") {
					r.Oblige("history", "editor made "+p.instrPos(in))
				}
			}
		}
	}
	r.Need("history", 1)
}

// plainFiles: exporting and editing each write plain values to one file only,
// and send none away.
func plainFiles(r *Run, roots map[*ssa.Function]string) {
	p := r.P
	var fs []*ssa.Function
	for f := range roots {
		fs = append(fs, f)
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	for _, root := range fs {
		paths := map[ssa.Value]bool{}
		var at []ssa.Instruction
		note := func(v ssa.Value, in ssa.Instruction) {
			fresh := false
			for _, s := range p.sources(v, prov{fields: true, through: map[string][]int{"(*os.File).Name": {0}, "path/filepath.Clean": {0}}}) {
				if e, ok := s.(*ssa.Extract); ok {
					s = e.Tuple
				}
				if !paths[s] {
					paths[s], fresh = true, true
				}
			}
			if fresh {
				at = append(at, in)
			}
		}
		var gs []*ssa.Function
		for g := range p.reach(root) {
			if pkgOf(g) != "scpsync" {
				gs = append(gs, g)
			}
		}
		sort.Slice(gs, func(i, j int) bool { return gs[i].Pos() < gs[j].Pos() })
		for _, g := range gs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					a := c.Common().Args
					switch n := calleeName(c.Common()); n {
					case "os.WriteFile", "io/ioutil.WriteFile", "os.Create":
						note(a[0], in)
					case "os.OpenFile":
						if k, ok := a[1].(*ssa.Const); ok && k.Value != nil && k.Int64()&int64(os.O_WRONLY|os.O_RDWR) == 0 {
							continue
						}
						note(a[0], in)
					case "os.CreateTemp", "io/ioutil.TempFile":
						if v, ok := in.(ssa.Value); ok {
							if !paths[v] {
								at = append(at, in)
							}
							paths[v] = true
						}
					case "scpsync.Send":
						r.Violate("data", "plain-sent|"+roots[root], p.instrPos(in), roots[root]+" is meant to write plain values to a file, and can send to a remote", p.chain(root, g))
					}
				}
			}
		}
		r.Oblige("data", "one plain file: "+fnName(root))
		if len(paths) > 1 {
			in := at[len(at)-1]
			r.Violate("data", "plain-file|"+roots[root], p.instrPos(in), roots[root]+" writes plain values to a file other than its one", nil)
		}
	}
}

func sortedSet(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func runC08(r *Run) {
	r.Rule("create: every file or directory the program creates, and every file it sends to a remote, is given permissions only its owner has")
	p := r.P
	private := func(f *ssa.Function, in ssa.Instruction, v ssa.Value, what string, keep bool) {
		r.Oblige("create", what+" "+p.instrPos(in))
		bad := map[string]bool{}
		opt := prov{fields: true, through: map[string][]int{"(io/fs.FileMode).Perm": {0}}}
		var owner func(v ssa.Value) bool
		owner = func(v ssa.Value) bool {
			if c, ok := v.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Uint64Val(constant.ToInt(c.Value))
				return n&0o077 == 0
			}
			b, ok := v.(*ssa.BinOp)
			if !ok || b.Op != token.AND && b.Op != token.OR {
				return false
			}
			all := func(v ssa.Value) bool {
				for _, s := range p.sources(v, opt) {
					if !owner(s) {
						return false
					}
				}
				return true
			}
			x, y := all(b.X), all(b.Y)
			return x && y || b.Op == token.AND && (x || y)
		}
		for _, s := range p.sources(v, opt) {
			if owner(s) {
				continue
			}
			if c, ok := s.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.Int {
				n, _ := constant.Uint64Val(constant.ToInt(c.Value))
				if n&0o077 != 0 {
					bad["can be "+c.Value.ExactString()+" (decimal), not only for the owner"] = true
				}
				continue
			}
			if c, ok := s.(*ssa.Call); ok && keep && strings.HasSuffix(calleeName(c.Common()), "FileInfo).Mode") {
				continue
			}
			bad["can be "+p.describe(s)] = true
		}
		for _, k := range sortedSet(bad) {
			r.Violate("create", fnName(f)+"|"+what, p.instrPos(in), "the permissions given to "+what+" "+k, nil)
		}
	}
	n := 0
	for _, f := range p.modFuncs() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				a := c.Common().Args
				switch name := calleeName(c.Common()); name {
				case "os.Create":
					r.Oblige("create", name+" "+p.instrPos(in))
					r.Violate("create", fnName(f)+"|"+name, p.instrPos(in), "os.Create makes files others can read", nil)
				case "os.WriteFile", "io/ioutil.WriteFile":
					n++
					private(f, in, a[2], name, false)
				case "os.OpenFile":
					n++
					if k, ok := a[1].(*ssa.Const); ok && k.Value != nil && k.Int64()&int64(os.O_CREATE) == 0 {
						r.Oblige("create", name+" creates nothing "+p.instrPos(in))
						continue
					}
					private(f, in, a[2], name, false)
				case "os.Mkdir", "os.MkdirAll":
					n++
					private(f, in, a[1], name, false)
				case "os.Chmod", "(*os.File).Chmod", "syscall.Chmod", "syscall.Fchmod":
					n++
					// an existing file may keep what it has
					private(f, in, a[1], name, true)
				case "os.CreateTemp", "io/ioutil.TempFile", "os.MkdirTemp", "io/ioutil.TempDir":
					n++
					r.Oblige("create", name+" is private "+p.instrPos(in))
				case "scpsync.Send":
					n++
					private(f, in, a[3], name, false)
				case "fmt.Fprintf":
					// the header that tells the remote what to create
					if pkgOf(f) != "scpsync" {
						continue
					}
					k, ok := a[1].(*ssa.Const)
					if !ok || k.Value == nil || !strings.HasPrefix(constant.StringVal(k.Value), "C") {
						continue
					}
					s := constant.StringVal(k.Value)
					if !strings.HasPrefix(s, "C0%o ") && !strings.HasPrefix(s, "C%04o ") && !strings.HasPrefix(s, "C%#o ") {
						r.Violate("create", fnName(f)+"|header", p.instrPos(in), "the header sent to the remote does not start with the permissions in octal", nil)
						continue
					}
					sl, ok := a[2].(*ssa.Slice)
					var first ssa.Value
					if ok {
						if al, ok := sl.X.(*ssa.Alloc); ok {
							for _, ref := range *al.Referrers() {
								if ia, ok := ref.(*ssa.IndexAddr); ok {
									if ci, ok := ia.Index.(*ssa.Const); ok && ci.Int64() == 0 {
										for _, r2 := range *ia.Referrers() {
											if st, ok := r2.(*ssa.Store); ok {
												first = st.Val
											}
										}
									}
								}
							}
						}
					}
					if first == nil {
						r.Violate("create", fnName(f)+"|header", p.instrPos(in), "the permissions sent to the remote were not found", nil)
						continue
					}
					n++
					private(f, in, first, "the remote file", false)
				}
			}
		}
	}
	r.Count("creations", n)
	r.Need("create", 4)
}
