package main

import (
	"math/rand"
	"testing"
)

// The simplifying constructors agree with concrete evaluation.
func TestRewriting(t *testing.T) {
	type node struct {
		t *Term
		f func(env map[string]uint64) uint64
	}
	for seed := int64(0); seed < 4000; seed++ {
		r := rand.New(rand.NewSource(seed))
		tt := NewTermTable()
		byW := map[uint8][]node{}
		ws := []uint8{8, 16, 32, 64}
		for _, w := range ws {
			w := w
			for i := 0; i < 3; i++ {
				n := string(rune('a'+i)) + string(rune('0'+w/8))
				byW[w] = append(byW[w], node{tt.Var(n, w), func(e map[string]uint64) uint64 { return e[n] & mask(w) }})
			}
		}
		var bools []node
		pick := func(w uint8) node {
			if r.Intn(3) == 0 {
				var k uint64
				switch r.Intn(4) {
				case 0:
					k = uint64(r.Intn(4))
				case 1:
					k = []uint64{10, 100, 1000, 1000000, 1000000000, 1 << 7, 1 << 15, 1 << 31}[r.Intn(8)]
				case 2:
					k = ^uint64(0) >> r.Intn(64)
				default:
					k = r.Uint64()
				}
				k &= mask(w)
				return node{tt.C(w, k), func(map[string]uint64) uint64 { return k }}
			}
			l := byW[w]
			return l[r.Intn(len(l))]
		}
		ops := []Op{OAdd, OAdd, OSub, OMul, OMul, OUDiv, OURem, OSDiv, OSRem, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr}
		for i := 0; i < 40; i++ {
			w := ws[r.Intn(4)]
			a, b := pick(w), pick(w)
			var n node
			nw := w
			switch r.Intn(8) {
			case 0, 1, 2, 3:
				op := ops[r.Intn(len(ops))]
				n = node{tt.Bin(op, a.t, b.t), func(e map[string]uint64) uint64 { return foldBin(op, w, a.f(e), b.f(e)) }}
			case 4:
				nw = ws[r.Intn(4)]
				if nw <= w {
					lo := uint8(r.Intn(int(w-nw) + 1))
					n = node{tt.Extract(a.t, lo, nw), func(e map[string]uint64) uint64 { return a.f(e) >> lo & mask(nw) }}
				} else if r.Intn(2) == 0 {
					n = node{tt.Zext(a.t, nw), a.f}
				} else {
					n = node{tt.Sext(a.t, nw), func(e map[string]uint64) uint64 { return uint64(sx(a.f(e), w)) & mask(nw) }}
				}
			case 5:
				if w == 64 || w == 8 && false {
					continue
				}
				nw = 2 * w
				n = node{tt.Concat(a.t, b.t), func(e map[string]uint64) uint64 { return a.f(e)<<w | b.f(e) }}
			case 6:
				var c node
				switch r.Intn(5) {
				case 0:
					c = node{tt.Eq(a.t, b.t), func(e map[string]uint64) uint64 { return b2u(a.f(e) == b.f(e)) }}
				case 1:
					c = node{tt.Ult(a.t, b.t), func(e map[string]uint64) uint64 { return b2u(a.f(e) < b.f(e)) }}
				case 2:
					c = node{tt.Ule(a.t, b.t), func(e map[string]uint64) uint64 { return b2u(a.f(e) <= b.f(e)) }}
				case 3:
					c = node{tt.Slt(a.t, b.t), func(e map[string]uint64) uint64 { return b2u(sx(a.f(e), w) < sx(b.f(e), w)) }}
				case 4:
					c = node{tt.Sle(a.t, b.t), func(e map[string]uint64) uint64 { return b2u(sx(a.f(e), w) <= sx(b.f(e), w)) }}
				}
				if len(bools) > 0 && r.Intn(2) == 0 {
					o := bools[r.Intn(len(bools))]
					x := c
					switch r.Intn(3) {
					case 0:
						c = node{tt.And(x.t, o.t), func(e map[string]uint64) uint64 { return x.f(e) & o.f(e) }}
					case 1:
						c = node{tt.Or(x.t, o.t), func(e map[string]uint64) uint64 { return x.f(e) | o.f(e) }}
					case 2:
						c = node{tt.Not(x.t), func(e map[string]uint64) uint64 { return 1 - x.f(e) }}
					}
				}
				bools = append(bools, c)
				continue
			case 7:
				if len(bools) == 0 {
					continue
				}
				c := bools[r.Intn(len(bools))]
				n = node{tt.Ite(c.t, a.t, b.t), func(e map[string]uint64) uint64 {
					if c.f(e) != 0 {
						return a.f(e)
					}
					return b.f(e)
				}}
			}
			if n.t.w != nw {
				t.Fatalf("seed %d width %d want %d: %v", seed, n.t.w, nw, n.t)
			}
			byW[nw] = append(byW[nw], n)
		}
		for k := 0; k < 12; k++ {
			env := map[string]uint64{}
			for _, w := range ws {
				for i := 0; i < 3; i++ {
					v := r.Uint64()
					if r.Intn(2) == 0 {
						v = []uint64{0, 1, 2, 255, 127, 128, 1 << 31, 1 << 63, ^uint64(0), 999, 1000}[r.Intn(11)]
					}
					env[string(rune('a'+i))+string(rune('0'+w/8))] = v & mask(w)
				}
			}
			ev := newEval(Model(env))
			for _, l := range byW {
				for _, n := range l {
					if g, w := ev.eval(n.t), n.f(env); g != w {
						t.Fatalf("seed %d: %v = %#x, want %#x under %v", seed, n.t, g, w, env)
					}
					if v := n.f(env); v > n.t.mx {
						t.Fatalf("seed %d: bound of %v is %#x but it is %#x", seed, n.t, n.t.mx, v)
					}
				}
			}
			for _, n := range bools {
				if g, w := ev.eval(n.t), n.f(env); g != w {
					t.Fatalf("seed %d: %v = %d, want %d under %v", seed, n.t, g, w, env)
				}
			}
		}
	}
}
