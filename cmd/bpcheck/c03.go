package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	register(&Check{ID: "C03", Title: "malformed files never crash decryption", Run: runC03,
		Explanation: "Every path of Decrypt, IsMultiUser and Unpad (helpers inlined, loops closed by inferred linear invariants) is analysed; each slice, index, make and divide whose operand depends on the file's bytes or length, and each CBC call on such a buffer, must be proven in range from the checks on that path."})
}

func runC03(r *Run) {
	const rule = "bounds"
	r.Rule("bounds: a slice/index/make/divide whose length, index or divisor depends on the bytes handed to Decrypt/IsMultiUser/Unpad is proven in range on every path (linear facts from the dominating checks plus loop invariants)")
	r.Rule("whole-blocks: a buffer handed to BlockMode.CryptBlocks has a length proven to be a multiple of that cipher's block size when the length depends on the input")
	for _, spec := range []struct {
		fn    string
		param int
	}{{"crypt.Decrypt", -1}, {"crypt.IsMultiUser", 0}, {"pkcs7.Unpad", 0}} {
		fn := r.Anchor(spec.fn)
		if fn == nil {
			continue
		}
		pi := spec.param
		if pi < 0 {
			pi = len(fn.Params) - 1
		}
		b := &bounds{r: r, rule: rule, leafs: map[string]*leafTaint{}}
		b.tainted = func(t *Term) bool { return t.op == OParam && t.idx == pi }
		b.extra = func(s *State, ev *CallEv) {
			if ev.Name == "(crypto/cipher.BlockMode).CryptBlocks" {
				src := ev.Args[2]
				if !b.length(s, src) {
					return
				}
				n := s.sim.T.Len(src)
				ok := false
				for f, v := range s.facts {
					// len % k == 0
					if v && f.op == OBin && f.tok.String() == "==" {
						for i := 0; i < 2; i++ {
							q, z := f.args[i], f.args[1-i]
							if c, isC := z.intVal(); isC && c == 0 && q.op == OBin && q.tok.String() == "%" && s.sim.T.LinEq(q.args[0], n) && blockSizeOf(s, ev.Args[0], q.args[1]) {
								ok = true
							}
						}
					}
				}
				r.Oblige("whole-blocks", fnName(ev.Instr.Parent())+" "+r.P.instrPos(ev.Instr))
				if !ok {
					r.Violate("whole-blocks", fnName(ev.Instr.Parent())+"|CryptBlocks", r.P.instrPos(ev.Instr), "CryptBlocks is reached with a buffer whose length comes from the input and is not known to be a multiple of the cipher's block size on this path (it panics on a partial block)", s.Trail(8))
				}
			}
		}
		c := b.client()
		c.Inline = func(f *ssa.Function) (bool, bool) { return true, true }
		c.Track = func(string) bool { return true }
		m := newSim(r.P, c)
		m.AxiomNonNeg = configSizes
		m.AxiomFacts = func(s *State, a *Term) []Lin {
			if a.op == OCall && a.name == "(crypto/cipher.Block).BlockSize" {
				return []Lin{{c: -1, v: map[*Term]int64{a: 1}}}
			}
			return nil
		}
		m.Run(fn, nil)
		r.absorb(m, spec.fn)
	}
	r.Need(rule, 10)
	r.Need("whole-blocks", 2)
}

// blockSizeOf: k is the block size of the cipher the mode was made from.
func blockSizeOf(s *State, mode, k *Term) bool {
	if mode.op != OCall || len(mode.args) == 0 {
		return false
	}
	return k.op == OCall && k.name == "(crypto/cipher.Block).BlockSize" && len(k.args) == 1 && k.args[0] == mode.args[0]
}

// configSizes: the integer fields of the cipher-suite configuration tables are
// sizes, registered from constants at start-up; they are never negative.
func configSizes(a *Term) bool {
	x := a
	for x.op == OField || x.op == OIndex || x.op == OExtract {
		x = x.args[0]
	}
	if x.op != OLookup || !isIntType(a.typ) {
		return false
	}
	m := x.args[0]
	return m.op == OLoad && m.args[0].op == OGlobal
}
