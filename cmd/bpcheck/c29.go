package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C29", Title: "a transfer counts as done only if all of it arrived", Run: runC29,
		Explanation: "The two sides of the file transfer are executed abstractly with all their helpers: on every exit without error the file's announced size, contents, end mark, the remote's answer and the exit status must have been sent, read and checked in the order of the protocol."})
}

func runC29(r *Run) {
	r.Rule("send: an upload succeeds only after the size of the contents, all of the contents and the end mark were sent in this order without an error")
	r.Rule("answer: an upload succeeds only after the remote answered with 0")
	r.Rule("recv: a download returns exactly as many bytes as the remote announced, all of them read from it, and only if the announcement was that of a file")
	r.Rule("mark: a download succeeds only if the contents are followed by the mark that the remote could read all of it")
	r.Rule("exit: a transfer succeeds only if the remote program ended without an error")
	r.Rule("name: the remote program is started with the name of the file that was asked for, in the direction that was asked for")
	if f := r.Anchor("scpsync.Send"); f != nil {
		(&scpModel{r: r, root: f, send: true}).run()
	}
	if f := r.Anchor("scpsync.Recv"); f != nil {
		(&scpModel{r: r, root: f}).run()
	}
	for _, n := range []string{"send", "answer", "recv", "mark"} {
		r.Need(n, 1)
	}
	r.Need("exit", 2)
	r.Need("name", 2)
}

type scpModel struct {
	r    *Run
	root *ssa.Function
	send bool
	m    *Sim
}

func mentions(x *Term, name string) bool {
	if x == nil {
		return false
	}
	if (x.op == OCall || x.op == OPure) && x.name == name {
		return true
	}
	for _, a := range x.args {
		if mentions(a, name) {
			return true
		}
	}
	return false
}

const (
	scpIn  = "(*golang.org/x/crypto/ssh.Session).StdinPipe"
	scpOut = "(*golang.org/x/crypto/ssh.Session).StdoutPipe"
)

// reads are the operations that put bytes of a stream into a buffer.
func (a *scpModel) run() {
	r, p := a.r, a.r.P
	name := fnName(a.root)
	cl := &Client{Name: name, KeepFacts: true}
	cl.Track = func(string) bool { return true }
	cl.Inline = func(f *ssa.Function) (bool, bool) { return pkgOf(f) == "scpsync", true }
	m := newSim(p, cl)
	a.m = m
	T := m.T
	var params []*Term
	for i, q := range a.root.Params {
		params = append(params, T.Param(i, a.root, q.Type()))
	}
	var file, contents *Term
	for i, q := range a.root.Params {
		switch q.Type().String() {
		case "string":
			if file = params[i]; i == 0 {
				file = nil
			}
		case "[]byte":
			contents = params[i]
		}
	}
	if file == nil || a.send && contents == nil {
		r.Violate("anchor", name, p.pos(a.root.Pos()), "a file transfer without a file name or contents", nil)
		return
	}
	cl.OnCall = func(ev *CallEv) {
		for _, end := range []string{scpIn, scpOut} { // before the call may change what its arguments point to
			delete(ev.S.cl, "end:"+end)
			if len(ev.Args) > 0 && a.stream(ev.S, ev.Args[0], end) {
				ev.S.cl["end:"+end] = T.True
			}
		}
		switch n := ev.Name; {
		case strings.HasPrefix(n, "fmt.Fprint"), n == "io.Copy", n == "io.CopyN", n == "io.WriteString", strings.HasSuffix(n, ".Write"), strings.HasSuffix(n, ".WriteString"):
			ev.NoHavoc = true // what they are given stays as it is
		}
		if len(ev.Args) == 2 { // what the call is given, before it may change it
			delete(ev.S.cl, "byte")
			if es := ev.S.elems(ev.Args[1]); len(es) == 1 {
				ev.S.cl["byte"] = es[0]
			} else if n, ok := a.globalByte(ev.Args[1]); ok {
				ev.S.cl["byte"] = T.Int(n)
			}
		}
	}
	cl.OnResult = func(ev *CallEv, res *Term) {
		s := ev.S
		switch {
		case strings.HasSuffix(ev.Name, "ssh.Session).Start") || strings.HasSuffix(ev.Name, "ssh.Session).Run"):
			r.Oblige("name", p.instrPos(ev.Instr))
			s.cl["start"] = res
			want := "scp -"
			dir := "f"
			if a.send {
				dir = "t"
			}
			x := ev.Args[len(ev.Args)-1]
			cmd, named := "", false
			if parts := concatParts(x); len(parts) == 2 {
				cmd, _ = s.constOf(parts[0])
				named = parts[1] == file
			} else if (x.op == OCall || x.op == OPure) && x.name == "fmt.Sprintf" {
				cmd, _ = s.constOf(x.args[0])
				cmd = strings.TrimSuffix(strings.TrimSuffix(cmd, "%s"), "%v")
				es := s.elems(x.args[1])
				named = len(es) == 1 && a.number(s, es[0]) == file
			}
			ok := named && strings.HasPrefix(cmd, want) && strings.HasSuffix(cmd, " ") && strings.Contains(strings.TrimPrefix(cmd, want), dir)
			if !ok {
				r.Violate("name", "start", p.instrPos(ev.Instr), "the remote program is not started for the file that was asked for: "+short(ev.Args[len(ev.Args)-1]), s.Trail(8))
			}
		case strings.HasSuffix(ev.Name, "ssh.Session).Wait"):
			s.cl["wait"] = res
		case a.send:
			a.sent(s, ev, res, contents)
		}
	}
	exits := 0
	cl.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		if !a.succeeds(s, res) {
			return
		}
		exits++
		pos := p.instrPos(in)
		bad := func(rule, key, msg string) { r.Violate(rule, key, pos, msg, s.Trail(14)) }
		r.Oblige("exit", name+" "+pos)
		if w := s.cl["wait"]; w == nil {
			bad("exit", name+"-wait", "a transfer counts as done without the remote program having been waited for")
		} else if !a.errNil(s, w, 0, res) {
			bad("exit", name+"-status", "a transfer counts as done although the remote program may have failed")
		}
		if w := s.cl["start"]; w == nil {
			bad("exit", name+"-start", "a transfer counts as done although the remote program may not have been started")
		} else if !a.errNil(s, w, 0, res) {
			bad("exit", name+"-start", "a transfer counts as done although the remote program may not have been started")
		}
		if a.send {
			a.sentAll(s, res, bad, pos)
		} else {
			a.received(s, res, bad, pos)
		}
	}
	m.Run(a.root, nil)
	r.absorb(m, name)
	if exits == 0 {
		r.Violate("anchor", name+"-exit", p.pos(a.root.Pos()), "no exit without an error was found", nil)
	}
}

func (a *scpModel) succeeds(s *State, res []*Term) bool { return succeeds(s, res) }

// errNil: the error result of the call is nil on this path. It may be the
// result itself.
func (a *scpModel) errNil(s *State, call *Term, i int, res []*Term) bool {
	e := call
	if call.op != OExtract && i > 0 {
		e = errOf(s.sim.T, call, i)
	}
	if s.IsNil(e) {
		return true
	}
	return e == res[len(res)-1] && s.IsNil(e)
}

func mentionsTerm(x, y *Term) bool {
	if x == y {
		return true
	}
	for _, a := range x.args {
		if mentionsTerm(a, y) {
			return true
		}
	}
	return false
}

func concatParts(x *Term) []*Term {
	if x.op == OConcat || x.op == OBin && x.tok == token.ADD {
		var out []*Term
		for _, a := range x.args {
			out = append(out, concatParts(a)...)
		}
		return out
	}
	return []*Term{x}
}

// sent follows the steps of an upload.
func (a *scpModel) sent(s *State, ev *CallEv, res, contents *Term) {
	T := s.sim.T
	if len(ev.Args) == 0 {
		return
	}
	pos := a.r.P.instrPos(ev.Instr)
	lenC := T.Len(contents)
	to, from := s.cl["end:"+scpIn] != nil, s.cl["end:"+scpOut] != nil
	method := ev.Name[strings.LastIndexByte(ev.Name, '.')+1:]
	put := func(stage, before string, prev ...string) {
		s.cl[stage] = res
		for _, q := range prev {
			if s.cl[q] == nil {
				a.r.Violate("send", stage+"-order", pos, stage+" is sent before "+q, s.Trail(10))
			}
		}
		if before != "" && s.cl[before] != nil {
			a.r.Violate("send", stage+"-late", pos, stage+" is sent again", s.Trail(10))
		}
	}
	switch {
	case to && (ev.Name == "fmt.Fprintf" || ev.Name == "fmt.Fprint" || ev.Name == "fmt.Fprintln"):
		var n *Term
		for _, e := range s.elems(ev.Args[len(ev.Args)-1]) {
			if v := a.number(s, e); v != nil && v.op == OLen {
				n = v
			}
		}
		a.r.Oblige("send", "size "+pos)
		if n != lenC {
			a.r.Violate("send", "size", pos, "the announced size is not that of the contents", s.Trail(10))
		}
		put("size", "contents")
	case to && (ev.Name == "io.Copy" || ev.Name == "io.CopyN" || ev.Name == "io.CopyBuffer"):
		src := ev.Args[1]
		for src.op == OIface {
			src = src.args[0]
		}
		ok := (src.op == OCall || src.op == OPure) && (src.name == "bytes.NewReader" || src.name == "bytes.NewBuffer") && src.args[0] == contents
		if ev.Name == "io.CopyN" {
			ok = ok && s.eqInt(a.number(s, ev.Args[2]), lenC)
		}
		a.r.Oblige("send", "contents "+pos)
		if !ok {
			a.r.Violate("send", "contents", pos, "what is sent are not the contents", s.Trail(10))
		}
		put("contents", "mark", "size")
	case to && (method == "Write" || method == "WriteString" || ev.Name == "io.WriteString"):
		x := ev.Args[1]
		if x == contents {
			a.r.Oblige("send", "contents "+pos)
			put("contents", "mark", "size")
			return
		}
		if v, isC := s.constOf(x); isC && v == "\x00" || s.cl["byte"] != nil && isZero(s.cl["byte"]) {
			a.r.Oblige("send", "mark "+pos)
			put("mark", "", "size", "contents")
			return
		}
		b := bytesOf(x)
		if b == nil && isStringType(x.typ) {
			b = x
		}
		if b != nil && s.cl["size"] == nil { // the announcement as text
			if mentionsTerm(b, lenC) || a.announces(s, b, lenC) {
				a.r.Oblige("send", "size "+pos)
				put("size", "contents")
				return
			}
		}
		a.r.Violate("send", "other", pos, "something else than the size, the contents and the end mark is sent", s.Trail(10))
	case from && (method == "Read" || method == "ReadByte" || ev.Name == "io.ReadFull" || ev.Name == "io.ReadAtLeast" || method == "ReadString"):
		if s.cl["mark"] != nil {
			s.cl["answer"] = res
			if len(ev.Args) > 1 {
				s.cl["abuf"] = ev.Args[1]
			} else {
				delete(s.cl, "abuf")
			}
		}
	}
}

func isZero(x *Term) bool {
	n, ok := x.intVal()
	return ok && n == 0
}

// announces: b is formatted text with the number n.
func (a *scpModel) announces(s *State, b, n *Term) bool {
	if (b.op == OCall || b.op == OPure) && b.name == "fmt.Sprintf" {
		for _, e := range s.elems(b.args[len(b.args)-1]) {
			if a.number(s, e) == n {
				return true
			}
		}
	}
	return false
}

// number strips what only changes the type of a number.
func (a *scpModel) number(s *State, x *Term) *Term {
	for x != nil && (x.op == OConvert || x.op == OIface) && len(x.args) > 0 {
		x = x.args[0]
	}
	return x
}

func (a *scpModel) sentAll(s *State, res []*Term, bad func(rule, key, msg string), pos string) {
	T := s.sim.T
	for _, st := range []string{"size", "contents", "mark"} {
		c := s.cl[st]
		switch {
		case c == nil:
			bad("send", "no-"+st, "an upload counts as done without the "+st+" having been sent")
		case !s.IsNil(errOf(T, xcallOf(c), 1)):
			bad("send", "err-"+st, "an upload counts as done although sending the "+st+" may have failed")
		}
	}
	a.r.Oblige("answer", pos)
	c := s.cl["answer"]
	if c == nil {
		bad("answer", "none", "an upload counts as done without the remote's answer to it having been read")
		return
	}
	if !s.IsNil(errOf(T, xcallOf(c), 1)) {
		bad("answer", "err", "an upload counts as done although reading the remote's answer may have failed")
	}
	if !a.zeroAnswer(s, c) {
		bad("answer", "value", "an upload counts as done although the remote's answer may not be 0")
	}
}

// callOf: the call a result is of.
func xcallOf(x *Term) *Term {
	for x.op == OExtract {
		x = x.args[0]
	}
	return x
}

// zeroAnswer: the answer is known to be 0 on this path.
func (a *scpModel) zeroAnswer(s *State, c *Term) bool {
	T := s.sim.T
	buf := s.cl["abuf"]
	if buf == nil { // ReadByte
		return s.Known(T.Eq(T.Extract(xcallOf(c), 0, nil), T.Zero), true)
	}
	// a byte was read: either the number is checked or the whole was asked for
	if n := xcallOf(c).name; !strings.HasSuffix(n, "ReadFull") && !strings.HasSuffix(n, "ReadAtLeast") {
		k := T.Extract(xcallOf(c), 0, intT)
		if !s.Known(T.Eq(k, T.Zero), false) && !s.ProveLE(T.Int(1), k) {
			return false
		}
	}
	return a.byteIs(s, buf, T.Zero, 0)
}

// byteIs: the byte at an index of a buffer is known to be b.
func (a *scpModel) byteIs(s *State, buf, b *Term, at int64) bool {
	T := s.sim.T
	for f, v := range s.facts {
		if !v || f.op != OBin || f.tok != token.EQL {
			continue
		}
		for i := 0; i < 2; i++ {
			if f.args[i] != b {
				continue
			}
			base, ix := elemOf(f.args[1-i])
			if base == nil || !sameBuffer(base, buf) {
				continue
			}
			if n, ok := ix.intVal(); ok && n == at {
				return true
			}
		}
	}
	_ = T
	return false
}

// elemOf: the slice and index an element is of.
func elemOf(x *Term) (base, ix *Term) {
	switch x.op {
	case OLoad:
		return elemOf(x.args[0])
	case OIndexAddr, OIndex:
		return x.args[0], x.args[1]
	case OConvert:
		return elemOf(x.args[0])
	}
	return nil, nil
}

func sameBuffer(x, y *Term) bool {
	strip := func(x *Term) *Term {
		for x.op == OSlice && (len(x.args) < 2 || x.args[1] == nil || isZero(x.args[1])) {
			x = x.args[0]
		}
		return x
	}
	return strip(x) == strip(y)
}

// received: what a successful download returns.
func (a *scpModel) received(s *State, res []*Term, bad func(rule, key, msg string), pos string) {
	T := s.sim.T
	out := res[0]
	a.r.Oblige("recv", pos)
	a.r.Oblige("mark", pos)
	n := T.Len(out)
	buf := out
	for buf.op == OSlice {
		if !isZero(buf.args[1]) {
			bad("recv", "start", "a download does not return the contents from their beginning")
		}
		buf = buf.args[0]
	}
	// announced: the size is a field of the first line the remote sent
	size := a.announced(s, n)
	if size == nil {
		bad("recv", "size", "a download does not return as many bytes as were announced: "+short(n))
		return
	}
	k, _ := resOf(size, size.args[0].name)
	if k == nil || !s.IsNil(errOf(T, k, 1)) {
		bad("recv", "number", "the announced size may not be a number")
	}
	head := a.header(s, size)
	if head == nil {
		bad("recv", "header", "the size of a download is not that which the remote announced")
		return
	}
	if !s.IsNil(errOf(T, xcallOf(head), 1)) {
		bad("recv", "header-err", "reading the announcement may have failed")
	}
	if !a.isFile(s, head) {
		bad("recv", "kind", "what the remote sent may be an error message and not the announcement of a file")
	}
	// full: all of the buffer was read
	full := false
	for f, v := range s.facts {
		if !v || f.op != OBin || f.tok != token.EQL {
			continue
		}
		for i := 0; i < 2; i++ {
			k, j := resOf(f.args[i], "io.ReadFull")
			if k == nil || j != 1 || f.args[1-i] != T.Nil || !a.stream(s, k.args[0], scpOut) {
				continue
			}
			b := k.args[1]
			if sameBuffer(b, buf) && s.ProveLE(n, T.Len(b)) {
				full = true
			}
		}
	}
	if !full {
		bad("recv", "full", "a download counts as done although not all of it may have been read")
	}
	if !a.marked(s, buf, n) {
		bad("mark", "mark", "a download counts as done although the mark after it may not be 0: the remote could not read all of the file")
	}
}

// announced: the term of a number that was parsed and equals n.
func (a *scpModel) announced(s *State, n *Term) *Term {
	T := s.sim.T
	n = a.number(s, n)
	for _, f := range []string{"strconv.ParseInt", "strconv.Atoi", "strconv.ParseUint"} {
		if k, i := resOf(n, f); k != nil && i == 0 {
			if f != "strconv.Atoi" && !s.eqInt(k.args[1], T.Int(10)) {
				return nil
			}
			return n
		}
	}
	return nil
}

// header: the line a parsed number is the second field of.
func (a *scpModel) header(s *State, size *Term) *Term {
	x := size.args[0].args[0]
	base, ix := elemOf(x)
	if base == nil || !isOne(ix) {
		return nil
	}
	if (base.op != OCall && base.op != OPure) || base.name != "strings.Fields" && base.name != "strings.Split" && base.name != "strings.SplitN" {
		return nil
	}
	h := base.args[0]
	for h.op == OSlice || (h.op == OPure || h.op == OCall) && strings.HasPrefix(h.name, "strings.Trim") || h.op == OConvert {
		h = h.args[0]
	}
	if h.op == OExtract && a.stream(s, h, scpOut) {
		return h
	}
	return nil
}

func isOne(x *Term) bool {
	n, ok := x.intVal()
	return ok && n == 1
}

// isFile: the line is known to start with the letter of a file.
func (a *scpModel) isFile(s *State, head *Term) bool {
	T := s.sim.T
	for f, v := range s.facts {
		if !v {
			continue
		}
		if (f.op == OPure || f.op == OCall) && f.name == "strings.HasPrefix" && f.args[0] == head && isStr(f.args[1], "C") {
			return true
		}
	}
	return a.byteIs(s, head, T.Int('C'), 0)
}

// marked: the byte after the contents is known to be 0.
func (a *scpModel) marked(s *State, buf, n *Term) bool {
	T := s.sim.T
	for f, v := range s.facts {
		if !v || f.op != OBin || f.tok != token.EQL {
			continue
		}
		for i := 0; i < 2; i++ {
			if !isZero(f.args[i]) {
				continue
			}
			x := f.args[1-i]
			if base, ix := elemOf(x); base != nil && sameBuffer(base, buf) && s.eqInt(ix, n) {
				return true
			}
			for _, g := range []string{"(*bufio.Reader).ReadByte"} {
				if k, j := resOf(x, g); k != nil && j == 0 && s.IsNil(errOf(T, k, 1)) {
					return true
				}
			}
		}
	}
	return false
}

// stream: x is, or is made of, that end of the connection.
func (a *scpModel) stream(s *State, x *Term, end string) bool {
	if mentions(x, end) {
		return true
	}
	found := false
	var walk func(x *Term, depth int)
	walk = func(x *Term, depth int) {
		if x == nil || found || depth > 8 {
			return
		}
		if x.op == OAllocAddr && x.typ != nil {
			if st, ok := structUnder(deref(x.typ)); ok {
				for i := 0; i < st.NumFields(); i++ {
					ft := st.Field(i).Type()
					if y := s.Load(s.sim.T.FieldAddr(x, i, deref(x.typ), ptrTo(ft)), ft); mentions(y, end) {
						found = true
					}
				}
			}
			return
		}
		for _, y := range x.args {
			walk(y, depth+1)
		}
	}
	walk(x, 0)
	return found
}

// globalByte: the byte of a package level slice of one byte that is only set
// where it is declared.
func (a *scpModel) globalByte(x *Term) (int64, bool) {
	if x.op != OLoad || x.args[0].op != OGlobal {
		return 0, false
	}
	g, ok := x.args[0].obj.(*ssa.Global)
	if !ok {
		return 0, false
	}
	gi := a.r.P.globals[g]
	if gi == nil || gi.initVal == nil {
		return 0, false
	}
	sl, ok := gi.initVal.(*ssa.Slice)
	if !ok {
		return 0, false
	}
	if at, ok := deref(sl.X.Type()).Underlying().(*types.Array); !ok || at.Len() != 1 {
		return 0, false
	}
	n := int64(0)
	for _, ref := range *sl.X.Referrers() {
		ix, ok := ref.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ix.Referrers() {
			if st, ok := rr.(*ssa.Store); ok {
				k, ok := st.Val.(*ssa.Const)
				if !ok || k.Value == nil {
					return 0, false
				}
				n, _ = constant.Int64Val(k.Value)
			}
		}
	}
	return n, true
}
