package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C01", Title: "every decrypted payload was authenticated in full", Run: runC01,
		Explanation: "Decrypt and Encrypt are executed abstractly path by path (helpers inlined). On every exit of Decrypt that can hand out a plaintext, a digest comparison that succeeded on that path must bind exactly that plaintext, and the bytes fed to the digest must be, contiguously from offset 0, every byte of the file in front of the ciphertext. On every successful exit of Encrypt the returned file must be the digested header followed by the encryption of digest+plaintext."})
}

// hashNames are constructors of collision resistant digests.
func strongHash(n string) bool {
	switch n {
	case "crypto/sha512.New", "crypto/sha512.New512_256", "crypto/sha256.New", "crypto/sha512.New384", "crypto/hmac.New", "golang.org/x/crypto/sha3.New512", "golang.org/x/crypto/sha3.New256", "golang.org/x/crypto/blake2b.New512":
		return true
	}
	return false
}

// authModel tracks digests and where buffers come from.
type authModel struct {
	r    *Run
	leaf map[string][]*Term // widened leaf -> values it stands for
	flat bool               // digest inputs: take buffers apart, too
}

func newAuthModel(r *Run) *authModel { return &authModel{r: r, leaf: map[string][]*Term{}} }

func tid(t *Term) string { return fmt.Sprintf("%d", t.id) }

// bufOf is the buffer a slice expression points into.
func bufOf(t *Term) *Term {
	for t.op == OSlice || t.op == OConvert && isByteSlice(t.typ) && isByteSlice(t.args[0].typ) {
		t = t.args[0]
	}
	return t
}

func (a *authModel) client() *Client {
	c := &Client{Name: "auth", Houdini: true, KeepFacts: true, MayCl: func(p string) bool { return p == "dirty:" || p == "hashed:" }}
	c.Inline = func(f *ssa.Function) (bool, bool) {
		switch fnName(f) {
		case "pkcs7.Pad", "pkcs7.Unpad":
			return false, true
		}
		return true, true
	}
	c.Track = func(string) bool { return true }
	c.OnCall = func(ev *CallEv) {
		s := ev.S
		T := s.sim.T
		switch ev.Name {
		case "(io.Writer).Write", "io.WriteString":
			h := ev.Args[0]
			if h.op == OIface {
				h = h.args[0]
			}
			if cur, ok := s.cl["h:"+tid(h)]; ok {
				s.cl["h:"+tid(h)] = T.Tuple(append(append([]*Term(nil), cur.args...), ev.Args[1])...)
			}
		case "(hash.Hash).Reset":
			if _, ok := s.cl["h:"+tid(ev.Args[0])]; ok {
				s.cl["h:"+tid(ev.Args[0])] = T.Tuple()
			}
		case "(hash.Hash).Sum":
			if cur, ok := s.cl["h:"+tid(ev.Args[0])]; ok {
				d := a.digestOf(s, ev.Sig.Results().At(0).Type(), cur.args...)
				ev.Result = d
				if ev.Args[1] != T.Nil {
					ev.Result = T.mk(&Term{op: OAppendS, args: []*Term{ev.Args[1], d}, typ: d.typ})
				}
				for _, w := range append(append([]*Term(nil), cur.args...), d.args...) {
					s.cl["hashed:"+tid(bufOf(w))] = bufOf(w)
				}
			}
		case "crypto/sha512.Sum512", "crypto/sha256.Sum256", "crypto/sha512.Sum384", "crypto/sha512.Sum512_256":
			d := a.digestOf(s, ev.Sig.Results().At(0).Type(), ev.Args[len(ev.Args)-1])
			for _, w := range append([]*Term{ev.Args[len(ev.Args)-1]}, d.args...) {
				s.cl["hashed:"+tid(bufOf(w))] = bufOf(w)
			}
			ev.Result = d
		case "bytes.Equal", "crypto/hmac.Equal", "crypto/subtle.ConstantTimeCompare":
			n := len(ev.Args)
			if x, y := a.resolve(s, ev.Args[n-2]), a.resolve(s, ev.Args[n-1]); x != ev.Args[n-2] || y != ev.Args[n-1] {
				ev.Result = T.Pure(ev.Name, ev.Sig.Results().At(0).Type(), x, y)
			}
		case "(crypto/cipher.BlockMode).CryptBlocks", "(crypto/cipher.Stream).XORKeyStream":
			a.mutate(s, ev.Args[1], ev.Instr, "encrypted or decrypted")
			if bufOf(ev.Args[1]) != bufOf(ev.Args[2]) {
				s.cl["buf:"+tid(bufOf(ev.Args[1]))] = T.Tuple(T.Zero, ev.Args[2])
			}
		case "crypto/rand.Read":
			a.mutate(s, ev.Args[0], ev.Instr, "filled with random bytes")
		}
	}
	c.OnResult = func(ev *CallEv, res *Term) {
		if strongHash(ev.Name) {
			ev.S.cl["h:"+tid(res)] = ev.S.sim.T.Tuple()
		}
	}
	c.OnCopy = func(s *State, dst, src *Term, in ssa.Instruction) {
		src = a.resolve(s, src)
		a.mutate(s, dst, in, "overwritten")
		b := bufOf(dst)
		lo := s.sim.T.Zero
		if dst.op == OSlice {
			lo = dst.args[1]
		}
		k := "buf:" + tid(b)
		var cur []*Term
		if c, ok := s.cl[k]; ok {
			cur = c.args
		}
		if len(cur) < 24 {
			s.cl[k] = s.sim.T.Tuple(append(append([]*Term(nil), cur...), lo, src)...)
		}
	}
	c.OnStore = func(s *State, addr, val *Term, in ssa.Instruction) {
		if addr.op == OIndexAddr {
			a.mutate(s, addr.args[0], in, "modified")
		}
	}
	c.OnWiden = func(s *State, leaf *Term, h *ssa.BasicBlock, vals ...*Term) {
		k := leafKey(leaf.leaf, s.sim.T)
		for _, v := range vals {
			if v == nil {
				continue
			}
			dup := v == leaf
			for _, x := range a.leaf[k] {
				dup = dup || x == v
			}
			if !dup && len(a.leaf[k]) < 64 {
				a.leaf[k] = append(a.leaf[k], v)
			}
		}
	}
	return c
}

// mutate: a buffer that was already digested, or already compared, changes.
func (a *authModel) mutate(s *State, dst *Term, in ssa.Instruction, how string) {
	b := bufOf(dst)
	if _, ok := s.cl["hashed:"+tid(b)]; ok {
		s.cl["dirty:"+tid(b)] = s.sim.T.Str(s.sim.P.instrPos(in) + " " + how)
	}
}

// sources resolves what a buffer's bytes were computed from (through copies,
// in-place ciphers, padding and loop iterations).
func (a *authModel) sources(s *State, t *Term, seen map[int]bool, out map[*Term]bool, enc *Term) {
	if seen[t.id] {
		return
	}
	seen[t.id] = true
	switch t.op {
	case OSlice:
		if bufOf(t) == enc || a.suffixOf(s, t, enc, map[int]bool{}) {
			out[t] = true
			return
		}
		if !t.args[1].isConst() || mustInt(t.args[1]) != 0 {
			out[t] = true // not a prefix: leave it as is
			return
		}
		a.sources(s, t.args[0], seen, out, enc)
	case OConvert:
		a.sources(s, t.args[0], seen, out, enc)
	case OMake:
		if c, ok := s.cl["buf:"+tid(t)]; ok {
			if len(c.args) == 2 && mustInt(c.args[0]) == 0 {
				a.sources(s, c.args[1], seen, out, enc)
				return
			}
			out[c] = true
			return
		}
		out[t] = true
	case OAppendS:
		if t.args[0].op == ONil || t.args[0].op == OMake && s.sim.T.Len(t.args[0]) == s.sim.T.Zero || t.args[0].op == OConvert && s.sim.T.Len(t.args[0]) == s.sim.T.Zero || t.args[0].op == OSlice && s.sim.T.Len(t.args[0]) == s.sim.T.Zero {
			a.sources(s, t.args[1], seen, out, enc)
			return
		}
		out[t] = true
	case OExtract, OCall:
		c := callOf(t)
		switch c.name {
		case "pkcs7.Unpad", "pkcs7.Pad", "bytes.Clone", "slices.Clone", "golang.org/x/exp/slices.Clone":
			if len(c.args) > 0 {
				a.sources(s, c.args[0], seen, out, enc)
				return
			}
		}
		out[t] = true
	case OLeaf:
		if enc != nil && a.suffixOf(s, t, enc, map[int]bool{}) {
			out[t] = true
			return
		}
		vs := a.leaf[leafKey(t.leaf, s.sim.T)]
		if len(vs) == 0 {
			out[t] = true
			return
		}
		for _, v := range vs {
			a.sources(s, v, seen, out, enc)
		}
	default:
		out[t] = true
	}
}

func mustInt(t *Term) int64 {
	if n, ok := t.intVal(); ok {
		return n
	}
	return -1
}

// suffixOf: t always ends where the file ends.
func (a *authModel) suffixOf(s *State, t, enc *Term, seen map[int]bool) bool {
	if t == enc {
		return true
	}
	if seen[t.id] {
		return true
	}
	seen[t.id] = true
	switch t.op {
	case OSlice:
		if t.args[2].op != ONone && t.args[2] != s.sim.T.Len(t.args[0]) {
			return false
		}
		return a.suffixOf(s, t.args[0], enc, seen)
	case OLeaf:
		vs := a.leaf[leafKey(t.leaf, s.sim.T)]
		if len(vs) == 0 {
			return false
		}
		for _, v := range vs {
			if !a.suffixOf(s, v, enc, seen) {
				return false
			}
		}
		return true
	}
	return false
}

// region is [lo,hi) of enc.
type region struct{ lo, hi *Term }

// regionOf finds which bytes of the file t is equal to.
func (a *authModel) regionOf(s *State, t, enc *Term) (r region, ok bool) {
	T := s.sim.T
	if t == enc {
		return region{T.Zero, T.Len(enc)}, true
	}
	if t.op == OSlice && t.args[0] == enc {
		hi := t.args[2]
		if hi.op == ONone {
			hi = T.Len(enc)
		}
		return region{t.args[1], hi}, true
	}
	if t.op == OConvert {
		return a.regionOf(s, t.args[0], enc)
	}
	if a.suffixOf(s, t, enc, map[int]bool{}) {
		return region{T.Bin(token.SUB, T.Len(enc), T.Len(t), enc1(enc)), T.Len(enc)}, true
	}
	if t.op == OSlice && a.suffixOf(s, t.args[0], enc, map[int]bool{}) {
		base := T.Bin(token.SUB, T.Len(enc), T.Len(t.args[0]), enc1(enc))
		hi := t.args[2]
		if hi.op == ONone {
			hi = T.Len(t.args[0])
		}
		return region{T.Bin(token.ADD, base, t.args[1], enc1(enc)), T.Bin(token.ADD, base, hi, enc1(enc))}, true
	}
	// a copy
	if t.op == OMake {
		if c, have := s.cl["buf:"+tid(t)]; have && len(c.args) == 2 && mustInt(c.args[0]) == 0 && T.LinEq(T.Len(t), T.Len(c.args[1])) {
			return a.regionOf(s, c.args[1], enc)
		}
	}
	// equal bytes by a comparison that succeeded on this path
	for f, v := range s.facts {
		if v && f.op == OPure && isEqualFn(f.name) && len(f.args) == 2 {
			for i := 0; i < 2; i++ {
				if f.args[i] == t && f.args[1-i] != t && bufOf(f.args[1-i]) == enc {
					return a.regionOf(s, f.args[1-i], enc)
				}
			}
		}
	}
	return r, false
}

func isEqualFn(n string) bool {
	return n == "bytes.Equal" || n == "crypto/hmac.Equal" || n == "crypto/subtle.ConstantTimeCompare"
}

// concat flattens a term into the byte strings it concatenates.
func (a *authModel) concat(s *State, t *Term) []*Term {
	t = a.resolve(s, t)
	switch t.op {
	case OAppendS:
		return append(a.concat(s, t.args[0]), a.concat(s, t.args[1])...)
	case ONil:
		return nil
	case OMake:
		if s.sim.T.Len(t) == s.sim.T.Zero {
			return nil
		}
		// laid out by copies one after the other, up to its end
		if c, ok := s.cl["buf:"+tid(t)]; ok && len(c.args) > 2 {
			at, left := s.sim.T.Zero, len(c.args)/2
			var ps []*Term
			for found := true; found && left > 0; {
				found = false
				for i := 0; i+1 < len(c.args); i += 2 {
					if s.eqInt(c.args[i], at) {
						ps = append(ps, a.concat(s, c.args[i+1])...)
						at = s.sim.T.Bin(token.ADD, at, s.sim.T.Len(c.args[i+1]), intT)
						found = true
						left--
						break
					}
				}
			}
			if left == 0 && s.eqInt(at, s.sim.T.Len(t)) && a.flat {
				return ps
			}
		}
	case OSlice:
		if s.sim.T.Len(t) == s.sim.T.Zero {
			return nil
		}
	}
	return []*Term{t}
}

func isDigest(t *Term) bool { return t.op == OPure && t.name == "digest" }

// resolve sees through an array that holds a digest: sum[:].
func (a *authModel) resolve(s *State, t *Term) *Term {
	if t.op == OSlice && t.args[0].op == OAllocAddr && mustInt(t.args[1]) == 0 && t.args[2].op == ONone {
		if v, ok := s.mem[t.args[0]]; ok && isDigest(v) {
			return s.sim.T.Pure("digest", t.typ, v.args...)
		}
	}
	return t
}

// digestOf is the digest of the inputs, written one after the other.
func (a *authModel) digestOf(s *State, typ types.Type, in ...*Term) *Term {
	var ps []*Term
	a.flat = true
	for _, w := range in {
		ps = append(ps, a.concat(s, w)...)
	}
	a.flat = false
	return s.sim.T.Pure("digest", typ, ps...)
}

func runC01(r *Run) {
	r.Rule("verify-before-release: on every exit of Decrypt that may return plaintext, the path contains a successful full-length comparison of base[:k] with a collision resistant digest, the plaintext returned is base[k:], and the digest's last input is that plaintext")
	r.Rule("full-coverage: the other digest inputs are, contiguously from offset 0, exactly the file's bytes in front of the ciphertext that base was decrypted from")
	r.Rule("error-releases-nothing: an exit of Decrypt with an error returns a nil plaintext")
	r.Rule("writer-binds-header: on every successful exit of Encrypt the file is header ++ body where header was digested unmodified together with the plaintext and body encrypts digest ++ plaintext")
	runC01Reader(r)
	runC01Writer(r)
	r.Need("verify-before-release", 2)
	r.Need("full-coverage", 2)
	r.Need("error-releases-nothing", 5)
	r.Need("writer-binds-header", 2)
}

func (a *authModel) sim(r *Run) *Sim {
	m := newSim(r.P, a.client())
	m.AxiomNonNeg = configSizes
	m.AxiomFacts = func(s *State, x *Term) []Lin {
		if x.op == OCall && x.name == "(crypto/cipher.Block).BlockSize" {
			return []Lin{{c: -1, v: map[*Term]int64{x: 1}}}
		}
		return nil
	}
	return m
}

func runC01Reader(r *Run) {
	fn := r.Anchor("crypt.Decrypt")
	if fn == nil {
		return
	}
	a := newAuthModel(r)
	m := a.sim(r)
	encT := (*Term)(nil)
	m.C.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		pt, err := res[len(res)-2], res[len(res)-1]
		where := r.P.instrPos(in)
		if s.NonNil(err) {
			r.Oblige("error-releases-nothing", where+" "+lastCtx(s))
			if pt != T.Nil && !s.IsNil(pt) {
				r.Violate("error-releases-nothing", fnName(fn)+"|"+where, where, "an error exit returns a plaintext that may be non-nil", s.Trail(10))
			}
			return
		}
		if pt == T.Nil {
			return
		}
		r.Oblige("verify-before-release", where+" "+a.lastWriter(s))
		bad := func(rule, key, format string, args ...any) {
			r.Violate(rule, key, where, fmt.Sprintf(format, args...), s.Trail(14))
		}
		// the comparison
		var digest, tag *Term
		for f, v := range s.facts {
			if f.op == OBin && f.tok == token.EQL && v {
				// ConstantTimeCompare(..) == 1
				for i := 0; i < 2; i++ {
					if n, ok := f.args[i].intVal(); ok && n == 1 {
						f = f.args[1-i]
						break
					}
				}
			}
			if !v || f.op != OPure || !isEqualFn(f.name) || len(f.args) != 2 {
				continue
			}
			for i := 0; i < 2; i++ {
				if f.args[i].op == OPure && f.args[i].name == "digest" {
					d, o := f.args[i], f.args[1-i]
					if len(d.args) > 0 && d.args[len(d.args)-1] == pt {
						digest, tag = d, o
					} else if digest == nil {
						digest, tag = d, o
					}
				}
			}
		}
		if digest == nil {
			bad("verify-before-release", "no-comparison", "a plaintext is returned on a path without a successful comparison against a full digest")
			return
		}
		if n := len(digest.args); n == 0 || digest.args[n-1] != pt {
			bad("verify-before-release", "plaintext-not-digested", "the plaintext returned is not the last input of the digest that was compared")
			return
		}
		base := bufOf(pt)
		if pt.op != OSlice || tag.op != OSlice || bufOf(tag) != base || mustInt(tag.args[1]) != 0 || pt.args[2].op != ONone && pt.args[2] != T.Len(base) || tag.args[2] != pt.args[1] {
			bad("verify-before-release", "tag-not-adjacent", "the compared tag and the returned plaintext are not the two halves of one decrypted buffer (tag %s, plaintext %s)", short(tag), short(pt))
			return
		}
		if d, ok := s.cl["dirty:"+tid(base)]; ok {
			p, _ := d.strVal()
			bad("verify-before-release", "modified-after-digest", "the plaintext's buffer is modified after it was digested: %s", p)
			return
		}
		// coverage
		srcs := map[*Term]bool{}
		a.sources(s, base, map[int]bool{}, srcs, encT)
		if len(srcs) != 1 {
			bad("full-coverage", "ciphertext-source", "the decrypted buffer does not come from one region of the file (%d sources)", len(srcs))
			return
		}
		var src *Term
		for x := range srcs {
			src = x
		}
		ct, ok := a.regionOf(s, src, encT)
		if !ok {
			bad("full-coverage", "ciphertext-source", "the decrypted buffer is not a known region of the file: %s", short(src))
			return
		}
		r.Oblige("full-coverage", where+" "+a.lastWriter(s))
		if !T.LinEq(ct.hi, T.Len(encT)) {
			bad("full-coverage", "ciphertext-end", "the ciphertext does not extend to the end of the file")
			return
		}
		pos := T.Zero
		for _, w := range digest.args[:len(digest.args)-1] {
			reg, ok := a.regionOf(s, w, encT)
			if !ok {
				bad("full-coverage", "input", "a digest input is not a region of the file: %s", short(w))
				return
			}
			if !s.eqInt(reg.lo, pos) {
				bad("full-coverage", "gap", "digest inputs leave a gap: one starts at %s, the previous ended at %s", short(reg.lo), short(pos))
				return
			}
			pos = reg.hi
		}
		if !s.eqInt(pos, ct.lo) {
			bad("full-coverage", "gap-before-ciphertext", "the digest covers the file up to %s but the ciphertext starts at %s", short(pos), short(ct.lo))
		}
	}
	m.Run(fn, func(s *State, params []*Term) { encT = params[len(params)-1] })
	r.absorb(m, "crypt.Decrypt")
}

// eqInt proves two integer terms equal on this path.
func (s *State) eqInt(a, b *Term) bool {
	if s.sim.T.LinEq(a, b) {
		return true
	}
	return s.ProveLE(a, b) && s.ProveLE(b, a)
}

func short(t *Term) string {
	x := t.String()
	if len(x) > 120 {
		x = x[:120] + "…"
	}
	return x
}

func lastCtx(s *State) string {
	if s.tr != nil {
		return s.tr.pos
	}
	return ""
}

// lastWriter names the code that produced the digest inputs on this path.
func (a *authModel) lastWriter(s *State) string {
	var n []string
	for k := range s.cl {
		if strings.HasPrefix(k, "h:") {
			n = append(n, "digest")
		}
	}
	return fmt.Sprintf("%d digests at %s", len(n), lastCtx(s))
}

func enc1(t *Term) typesType { return intT }

func runC01Writer(r *Run) {
	fn := r.Anchor("crypt.Encrypt")
	if fn == nil {
		return
	}
	a := newAuthModel(r)
	m := a.sim(r)
	var plain *Term
	m.C.OnExit = func(s *State, res []*Term, in ssa.Instruction) {
		T := s.sim.T
		out, err := res[0], res[1]
		where := r.P.instrPos(in)
		if s.NonNil(err) || out == T.Nil {
			return
		}
		r.Oblige("writer-binds-header", where+" "+lastCtx(s))
		bad := func(key, format string, args ...any) {
			r.Violate("writer-binds-header", key, where, fmt.Sprintf(format, args...), s.Trail(14))
		}
		parts := a.concat(s, out)
		if len(parts) < 2 {
			bad("shape", "the returned file is not header ++ body: %s", short(out))
			return
		}
		head, body := parts[:len(parts)-1], parts[len(parts)-1]
		if n := len(parts); body == plain && n > 2 && isDigest(parts[n-2]) {
			// a cipher suite without ciphers leaves digest ++ plaintext as it is
			head, body = parts[:n-2], T.mk(&Term{op: OAppendS, args: []*Term{parts[n-2], plain}, typ: plain.typ})
		}
		// body: encryption of digest ++ plaintext
		var digest *Term
		okBody := a.bodyOf(s, body, plain, &digest, map[int]bool{})
		if !okBody || digest == nil {
			bad("body", "the encrypted body is not built from a digest followed by the whole plaintext: %s", short(body))
			return
		}
		covered := digest.args
		if len(covered) == 0 || covered[len(covered)-1] != plain {
			bad("plaintext", "the digest does not end with the plaintext")
			return
		}
		covered = covered[:len(covered)-1]
		for _, h := range head {
			if d, ok := s.cl["dirty:"+tid(bufOf(h))]; ok {
				p, _ := d.strVal()
				bad("modified", "the header is modified after it was digested: %s", p)
				return
			}
		}
		a.flat = true
		var flat []*Term
		for _, h := range head {
			flat = append(flat, a.concat(s, h)...)
		}
		head, a.flat = flat, false
		if len(covered) != len(head) {
			bad("coverage", "the digest covers %d header parts, the file has %d", len(covered), len(head))
			return
		}
		for i := range head {
			if covered[i] != head[i] {
				bad("coverage", "header part %d of the file (%s) is not what was digested (%s)", i, short(head[i]), short(covered[i]))
				return
			}
		}
	}
	m.Run(fn, func(s *State, params []*Term) { plain = params[len(params)-1] })
	r.absorb(m, "crypt.Encrypt")
}

// bodyOf: t is (an in-place encryption and padding of) digest ++ plain.
func (a *authModel) bodyOf(s *State, t, plain *Term, digest **Term, seen map[int]bool) bool {
	if seen[t.id] {
		return true
	}
	seen[t.id] = true
	switch t.op {
	case OLeaf:
		vs := a.leaf[leafKey(t.leaf, s.sim.T)]
		if len(vs) == 0 {
			return false
		}
		for _, v := range vs {
			if !a.bodyOf(s, v, plain, digest, seen) {
				return false
			}
		}
		return true
	case OCall, OExtract:
		c := callOf(t)
		if c.name == "pkcs7.Pad" && len(c.args) > 0 {
			return a.bodyOf(s, c.args[0], plain, digest, seen)
		}
		return false
	case OMake:
		c, ok := s.cl["buf:"+tid(t)]
		if !ok {
			return false
		}
		if len(c.args) == 2 && mustInt(c.args[0]) == 0 && c.args[1].op != OPure {
			return a.bodyOf(s, c.args[1], plain, digest, seen)
		}
		if len(c.args) != 4 {
			return false
		}
		for i := 0; i < 2; i++ {
			d, p := c.args[2*i:2*i+2], c.args[2-2*i:4-2*i]
			if mustInt(d[0]) == 0 && d[1].op == OPure && d[1].name == "digest" && p[1] == plain && s.eqInt(s.sim.T.Len(t), s.sim.T.Bin(token.ADD, p[0], s.sim.T.Len(plain), intT)) {
				return a.setDigest(digest, d[1])
			}
		}
		return false
	case OAppendS:
		ps := a.concat(s, t)
		if len(ps) == 2 && ps[0].op == OPure && ps[0].name == "digest" && ps[1] == plain {
			return a.setDigest(digest, ps[0])
		}
		// padding appended to a body
		return a.bodyOf(s, t.args[0], plain, digest, seen)
	case OSlice:
		return mustInt(t.args[1]) == 0 && t.args[2].op == ONone && a.bodyOf(s, t.args[0], plain, digest, seen)
	}
	return false
}

func (a *authModel) setDigest(d **Term, x *Term) bool {
	if *d == nil {
		*d = x
	}
	return *d == x
}
