// Driver for the group layer: register machines over P256, G1, G2 and GT, encodings, pairing, hash-to-point,
// commitments.
package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"math/big"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/bn256"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"
	. "github.com/ing-bank/zkrp/zzverif/vh"
)

const R = 3

type regs struct {
	p  [R + 1]*p256.P256
	g1 [R + 1]*bn256.G1
	g2 [R + 1]*bn256.G2
	gt [R + 1]*bn256.GT

	com []com
	hp  *p256.P256 // second bases that are used again with another value
	hg  *bn256.G2
}

// a commitment somebody holds, and its encoding
type com struct {
	c *bn256.G2
	v string
}

func pview(p *p256.P256) string {
	if p == nil {
		return "unset"
	}
	if p.X == nil || p.Y == nil || (p.X.Sign() == 0 && p.Y.Sign() == 0) {
		return "inf"
	}
	return p.X.String() + "," + p.Y.String()
}

func enc(b []byte) string { return Short(hex.EncodeToString(b)) }

// observations are made on copies, so that they can not repair or spoil the registers
func (r *regs) view() Obj {
	o := Obj{}
	P, G1, G2, GT := []string{}, []string{}, []string{}, []string{}
	for i := 1; i <= R; i++ {
		P = append(P, pview(r.p[i]))
		if r.g1[i] == nil {
			G1 = append(G1, "unset")
		} else {
			G1 = append(G1, enc(Clone(r.g1[i]).(*bn256.G1).Marshal()))
		}
		if r.g2[i] == nil {
			G2 = append(G2, "unset")
		} else {
			G2 = append(G2, enc(Clone(r.g2[i]).(*bn256.G2).Marshal()))
		}
		if r.gt[i] == nil {
			GT = append(GT, "unset")
		} else {
			GT = append(GT, enc(Clone(r.gt[i]).(*bn256.GT).Marshal()))
		}
	}
	o["P"], o["G1"], o["G2"], o["GT"] = P, G1, G2, GT
	return o
}

func getRegs(s *Session) *regs {
	if r, ok := s.Objs["regs"]; ok {
		return r.(*regs)
	}
	r := &regs{}
	for i := 1; i <= R; i++ {
		r.p[i] = new(p256.P256)
	}
	s.Objs["regs"] = r
	return r
}

// a goroutine has its own receivers and shares the operands
func apart(t *Session, op Obj) {
	r := *getRegs(t)
	t.Objs["regs"] = &r
	r.com = append([]com{}, r.com...)
	if d, ok := op["d"].(float64); ok && d > 0 {
		switch Str(op, "t") {
		case "P":
			r.p[int(d)] = new(p256.P256)
		case "G1":
			r.g1[int(d)] = nil
		case "G2":
			r.g2[int(d)] = nil
		case "GT":
			r.gt[int(d)] = nil
		}
	}
}

func b2s(b bool) string {
	if b {
		return "true"
	}
	return "false"
}

func same(n int, f func(i, j int) (bool, bool)) [][]string {
	m := [][]string{}
	for i := 1; i <= n; i++ {
		row := []string{}
		for j := 1; j <= n; j++ {
			eq, ok := f(i, j)
			if !ok {
				row = append(row, "unset")
			} else {
				row = append(row, b2s(eq))
			}
		}
		m = append(m, row)
	}
	return m
}

// the encoding of register a, which nothing done to it or to others may change
// coords is the encoding of the point (x, y, z) of G1, where x = X z^2 and y = Y z^3.
func coords(x, y, z, _ *big.Int) string {
	i := new(big.Int).ModInverse(z, bn256.P)
	if new(big.Int).Mod(z, bn256.P).Sign() == 0 {
		x, y, i = big.NewInt(0), big.NewInt(1), big.NewInt(1)
	}
	m := make([]byte, 64)
	X := new(big.Int).Mul(x, new(big.Int).Mul(i, i))
	Y := new(big.Int).Mul(y, new(big.Int).Exp(i, big.NewInt(3), bn256.P))
	X.Mod(X, bn256.P).FillBytes(m[:32])
	Y.Mod(Y, bn256.P).FillBytes(m[32:])
	return enc(m)
}

func marshals(f func(i int) []byte, a int) string {
	m := f(a)
	e := enc(m)
	for i := 1; i <= R; i++ {
		f(i)
	}
	if enc(m) != e {
		return "encoding changed later"
	}
	for i := range m {
		m[i] ^= 255
	}
	if enc(f(a)) != e {
		return "encoding shared"
	}
	return e
}

func handler(s *Session, op Obj) Obj {
	r := getRegs(s)
	if Str(op, "t") == "T" {
		return Together(s, op, apart, handler)
	}
	ix := func(k string) int {
		if f, ok := op[k].(float64); ok {
			return int(f)
		}
		return 0
	}
	d, a, b := ix("d"), ix("a"), ix("b")
	var k *big.Int
	var kpre string
	if Has(op, "k") {
		k = s.Big(op, "k")
		kpre = k.String()
	}
	ret := "ok"
	extra := Obj{}
	o := Str(op, "op")
	switch Str(op, "t") {
	case "P":
		x := r.p
		var got *p256.P256
		switch o {
		case "Base":
			got = x[d].ScalarBaseMult(k)
		case "Mul":
			got = x[d].ScalarMult(x[a], k)
		case "Neg":
			got = x[d].Neg(x[a])
		case "Add":
			got = x[d].Add(x[a], x[b])
		case "Multiply":
			got = x[d].Multiply(x[a], x[b])
		case "Double":
			got = x[d].Double(x[a])
		case "SetInf":
			got = x[d].SetInfinity()
		case "IsZero":
			ret = b2s(x[a].IsZero())
		case "OnCurve":
			ret = b2s(x[a].IsOnCurve())
		case "Same":
			extra["m"] = same(R, func(i, j int) (bool, bool) {
				if pview(x[i]) == "inf" || pview(x[j]) == "inf" {
					return false, false
				}
				return x[i].String() == x[j].String(), true
			})
		default:
			panic("driver: unknown operation " + o)
		}
		if d > 0 && got != x[d] {
			ret = "not the receiver"
		}
	case "G1":
		x := &r.g1
		var got *bn256.G1
		if d > 0 && x[d] == nil {
			x[d] = new(bn256.G1)
		}
		switch o {
		case "Base":
			got = x[d].ScalarBaseMult(k)
		case "Mul":
			got = x[d].ScalarMult(x[a], k)
		case "Neg":
			got = x[d].Neg(x[a])
		case "Add":
			got = x[d].Add(x[a], x[b])
		case "SetInf":
			got = x[d].SetInfinity()
		case "SetZero":
			x[d].SetZero()
			got = x[d]
		case "Coords":
			ret = coords(x[a].CurvePoints())
		case "Copy":
			g, ok := x[d].Unmarshal(x[a].Marshal())
			if !ok {
				ret = "refused"
			}
			got = g
		case "Random":
			rk, g, err := bn256.RandomG1(rand.Reader)
			if err != nil {
				ret = "error"
			}
			x[d], got = g, g
			extra["k"] = BigStr(rk)
		case "IsZero":
			ret = b2s(x[a].IsZero())
		case "Marshal":
			ret = marshals(func(i int) []byte {
				if x[i] == nil {
					return nil
				}
				return x[i].Marshal()
			}, a)
		case "Same":
			extra["m"] = same(R, func(i, j int) (bool, bool) {
				if x[i] == nil || x[j] == nil {
					return false, false
				}
				return x[i].String() == x[j].String(), true
			})
		default:
			panic("driver: unknown operation " + o)
		}
		if d > 0 && got != x[d] {
			ret = "not the receiver"
		}
	case "G2":
		x := &r.g2
		var got *bn256.G2
		if d > 0 && x[d] == nil {
			x[d] = new(bn256.G2)
		}
		switch o {
		case "Base":
			got = x[d].ScalarBaseMult(k)
		case "Mul":
			got = x[d].ScalarMult(x[a], k)
		case "Neg":
			got = x[d].Neg(x[a])
		case "Add":
			got = x[d].Add(x[a], x[b])
		case "SetInf":
			got = x[d].SetInfinity()
		case "Copy":
			g, ok := x[d].Unmarshal(x[a].Marshal())
			if !ok {
				ret = "refused"
			}
			got = g
		case "Random":
			rk, g, err := bn256.RandomG2(rand.Reader)
			if err != nil {
				ret = "error"
			}
			x[d], got = g, g
			extra["k"] = BigStr(rk)
		case "IsZero":
			ret = b2s(x[a].IsZero())
		case "Marshal":
			ret = marshals(func(i int) []byte {
				if x[i] == nil {
					return nil
				}
				return x[i].Marshal()
			}, a)
		case "Same":
			extra["m"] = same(R, func(i, j int) (bool, bool) {
				if x[i] == nil || x[j] == nil {
					return false, false
				}
				return x[i].String() == x[j].String(), true
			})
		default:
			panic("driver: unknown operation " + o)
		}
		if d > 0 && got != x[d] {
			ret = "not the receiver"
		}
	case "GT":
		x := &r.gt
		var got *bn256.GT
		if o == "Pair" {
			x[d] = bn256.Pair(r.g1[a], r.g2[b])
			got = x[d]
			break
		}
		if d > 0 && x[d] == nil {
			x[d] = new(bn256.GT)
		}
		switch o {
		case "Base": // a multiple of the pairing of the generators
			got = x[d].ScalarMult(util.E, k)
		case "Mul":
			got = x[d].ScalarMult(x[a], k)
		case "Exp":
			got = x[d].Exp(x[a], k)
		case "Neg":
			got = x[d].Neg(x[a])
		case "Invert":
			got = x[d].Invert(x[a])
		case "Add":
			got = x[d].Add(x[a], x[b])
		case "Copy":
			g, ok := x[d].Unmarshal(x[a].Marshal())
			if !ok {
				ret = "refused"
			}
			got = g
		case "IsOne":
			ret = b2s(x[a].IsOne())
		case "Marshal":
			ret = marshals(func(i int) []byte {
				if x[i] == nil {
					return nil
				}
				return x[i].Marshal()
			}, a)
		case "Same":
			extra["m"] = same(R, func(i, j int) (bool, bool) {
				if x[i] == nil || x[j] == nil {
					return false, false
				}
				return x[i].String() == x[j].String(), true
			})
		default:
			panic("driver: unknown operation " + o)
		}
		if d > 0 && got != x[d] {
			ret = "not the receiver"
		}
	case "PC": // pairing check of a list of register pairs
		as, bs := []*bn256.G1{}, []*bn256.G2{}
		for _, pr := range List(op, "l") {
			q := pr.([]interface{})
			as = append(as, r.g1[int(q[0].(float64))])
			bs = append(bs, r.g2[int(q[1].(float64))])
		}
		ret = b2s(bn256.PairingCheck(as, bs))
	case "X": // hashes of registers and of numbers
		var args []interface{}
		pre := ""
		switch o {
		case "Hash", "HashSet":
			as, bs := []*bn256.GT{}, []*bn256.G2{}
			for _, i := range List(op, "l") {
				as = append(as, r.gt[int(i.(float64))])
			}
			for _, i := range List(op, "s") {
				bs = append(bs, r.g2[int(i.(float64))])
			}
			as0, bs0 := append([]*bn256.GT{}, as...), append([]*bn256.G2{}, bs...)
			var v *big.Int
			var e error
			if o == "Hash" {
				v, e = util.Hash(as, bs[0], bs[1:]...)
			} else {
				v, e = util.HashSet(as[0], bs[0], bs[1:]...)
			}
			if e != nil {
				ret = "error"
			} else {
				ret = BigStr(v)
				s.Result(v)
			}
			for i := range as {
				if as[i] != as0[i] {
					ret = "list changed"
				}
			}
			for i := range bs {
				if bs[i] != bs0[i] {
					ret = "list changed"
				}
			}
		case "HashBP":
			ps := []*p256.P256{}
			for _, i := range List(op, "l") {
				ps = append(ps, r.p[int(i.(float64))])
			}
			y, z, e := bulletproofs.HashBP(ps[0], ps[1], ps[2:]...)
			if e != nil {
				ret = "error"
			} else {
				two := []string{BigStr(y), BigStr(z)}
				s.Result([]*big.Int{y, z})
				v := r.view()
				v["ret"] = two
				if !s.KeptSame() {
					v["ret"] = "earlier result changed"
				}
				return v
			}
		case "CalculateHash":
			xs := s.Bigs(op, "xs")
			for _, x := range xs {
				args = append(args, x)
			}
			pre = Digest(args)
			var second *big.Int
			if len(xs) > 1 {
				second = xs[1]
			}
			v, e := bn.CalculateHash(xs[0], second)
			if e != nil {
				ret = "error"
			} else {
				ret = BigStr(v)
				s.Result(v)
			}
			if Digest(args) != pre {
				ret = "argument changed"
			}
		}
		if !s.KeptSame() {
			ret = "earlier result changed"
		}
	case "D": // decoding of an arbitrary byte string into a fresh or a used element
		h := Hex(op, "h")
		pre := append([]byte{}, h...)
		var again []byte
		ok := false
		switch o {
		case "G1":
			e := new(bn256.G1)
			if d > 0 {
				e.ScalarBaseMult(big.NewInt(int64(d)))
			}
			var g *bn256.G1
			if g, ok = e.Unmarshal(h); ok {
				again = g.Marshal()
			}
		case "G2":
			e := new(bn256.G2)
			if d > 0 {
				e.ScalarBaseMult(big.NewInt(int64(d)))
			}
			var g *bn256.G2
			if g, ok = e.Unmarshal(h); ok {
				again = g.Marshal()
			}
		case "GT":
			e := new(bn256.GT)
			if d > 0 {
				e.ScalarMult(util.E, big.NewInt(int64(d)))
			}
			var g *bn256.GT
			if g, ok = e.Unmarshal(h); ok {
				again = g.Marshal()
			}
		}
		if !bytes.Equal(pre, h) {
			return Obj{"ret": "input changed"}
		}
		if !ok {
			return Obj{"ret": "refused"}
		}
		return Obj{"ret": Short(hex.EncodeToString(again))}
	case "H": // hash-to-point
		cps := []rune{}
		for _, c := range List(op, "s") {
			cps = append(cps, rune(c.(float64)))
		}
		if o == "MapToGroup" {
			p1, e1 := p256.MapToGroup(string(cps))
			if e1 != nil {
				return Obj{"ret": "error"}
			}
			v1 := pview(p1)
			p1.Double(p1) // a result the caller changes must not influence later calls
			p1.X.Add(p1.X, big.NewInt(1))
			p2, e2 := p256.MapToGroup(string(cps))
			if e2 != nil || pview(p2) != v1 {
				return Obj{"ret": "not deterministic"}
			}
			if !p2.IsOnCurve() || p2.IsZero() {
				return Obj{"ret": "not on the curve"}
			}
			return Obj{"ret": v1}
		}
		var buf bytes.Buffer
		buf.WriteString(string(cps))
		v, e := p256.HashToInt(buf)
		if e != nil {
			return Obj{"ret": "error"}
		}
		return Obj{"ret": BigStr(v)}
	case "C": // curve equation
		switch o {
		case "F":
			x := s.Big(op, "x")
			pre := x.String()
			v, e := p256.F(x)
			if e != nil || x.String() != pre {
				return Obj{"ret": "error"}
			}
			return Obj{"ret": BigStr(v)}
		case "OnCurve":
			p := &p256.P256{X: s.Big(op, "x"), Y: s.Big(op, "y")}
			pre := Digest(p)
			v := b2s(p.IsOnCurve())
			if Digest(p) != pre {
				v = "argument changed"
			}
			return Obj{"ret": v}
		}
	case "K": // Pedersen commitments with base h = y * generator
		x, rr, y := s.Big(op, "x"), s.Big(op, "r"), s.Big(op, "y")
		if o == "CommitG1" {
			h := new(p256.P256).ScalarBaseMult(y)
			if rs := getRegs(s); s.Mode == "reuse" {
				if rs.hp == nil {
					rs.hp = new(p256.P256)
				}
				h = rs.hp.ScalarBaseMult(y)
			}
			pre := Digest([]interface{}{x, rr, h})
			c, e := util.CommitG1(x, rr, h)
			if e != nil {
				return Obj{"ret": "error"}
			}
			if Digest([]interface{}{x, rr, h}) != pre {
				return Obj{"ret": "argument changed"}
			}
			s.Result(c)
			if !s.KeptSame() {
				return Obj{"ret": "earlier result changed"}
			}
			return Obj{"ret": pview(c)}
		}
		h := new(bn256.G2).ScalarBaseMult(y)
		if rs := getRegs(s); s.Mode == "reuse" {
			if rs.hg == nil {
				rs.hg = new(bn256.G2)
			}
			h = rs.hg.ScalarBaseMult(y)
		}
		hv := enc(Clone(h).(*bn256.G2).Marshal())
		pre := Digest([]interface{}{x, rr})
		c, e := util.Commit(x, rr, h)
		if e != nil {
			return Obj{"ret": "error"}
		}
		if Digest([]interface{}{x, rr}) != pre || enc(h.Marshal()) != hv {
			return Obj{"ret": "argument changed"}
		}
		v := enc(c.Marshal())
		switch s.Mode {
		case "keep":
			for _, old := range getRegs(s).com {
				if enc(old.c.Marshal()) != old.v {
					return Obj{"ret": "earlier result changed"}
				}
			}
			getRegs(s).com = append(getRegs(s).com, com{c, v})
		case "scribble":
			c.Add(c, h)
		}
		return Obj{"ret": v}
	default:
		panic("driver: unknown bank " + Str(op, "t"))
	}
	if k != nil && k.String() != kpre {
		ret = "scalar changed"
	}
	v := r.view()
	v["ret"] = ret
	for kk, vv := range extra {
		v[kk] = vv
	}
	return v
}

func main() { Main(handler) }
