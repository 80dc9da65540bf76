// Driver for the utility layer: byte conversion, parsing, decomposition, modular and vector arithmetic.
package main

import (
	"bytes"
	"math/big"
	"strconv"

	"github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	"github.com/ing-bank/zkrp/util"
	"github.com/ing-bank/zkrp/util/bn"
	"github.com/ing-bank/zkrp/util/byteconversion"
	"github.com/ing-bank/zkrp/util/intconversion"
	. "github.com/ing-bank/zkrp/zzverif/vh"
)

func err2(e error) bool { return e != nil }

func pts(l []interface{}) []*p256.P256 {
	r := []*p256.P256{}
	for _, v := range l {
		r = append(r, new(p256.P256).ScalarBaseMult(ToBig(v)))
	}
	return r
}

func pt(p *p256.P256) string {
	if p == nil {
		return "nil"
	}
	if p.IsZero() {
		return "inf"
	}
	return p.X.String() + "," + p.Y.String()
}

func ptss(l []*p256.P256) []string {
	r := []string{}
	for _, p := range l {
		r = append(r, pt(p))
	}
	return r
}

func i64s(l []interface{}) []int64 {
	r := []int64{}
	for _, v := range l {
		r = append(r, ToBig(v).Int64())
	}
	return r
}

func handler(s *Session, op Obj) Obj {
	if Str(op, "op") == "Together" {
		return Together(s, op, func(*Session, Obj) {}, handler)
	}
	res := Obj{}
	// every argument is digested before and after the call
	var args []interface{}
	pre := []string{}
	keep := func(vs ...interface{}) {
		for _, v := range vs {
			args = append(args, v)
			pre = append(pre, Digest(v))
		}
	}
	defer func() {
		same := true
		for i, v := range args {
			same = same && Digest(v) == pre[i]
		}
		res["same"] = same && s.KeptSame()
	}()
	vec := func(r []*big.Int, e error) {
		res["err"] = e != nil
		if e == nil {
			res["v"] = BigStrs(r)
			s.Result(r)
		}
	}
	one := func(r *big.Int) {
		res["v"] = BigStr(r)
		s.Result(r)
	}
	switch Str(op, "op") {
	case "ToBytes":
		x := s.Big(op, "x")
		keep(x)
		r := byteconversion.ToByteArray(x)
		res["v"] = Ints(r)
		s.Result(r)
	case "FromBytes":
		b := Bytes(op, "b")
		keep(b)
		r, e := byteconversion.FromByteArray(b)
		res["err"] = err2(e)
		if e == nil {
			one(r)
		}
	case "Parse":
		b := Bytes(op, "b")
		keep(b)
		r, e := byteconversion.ParseInput(b)
		vec(r, e)
	case "Convert":
		b := Bytes(op, "b")
		keep(b)
		r, e := byteconversion.ConvertToBigInt(b)
		res["err"] = err2(e)
		if e == nil {
			one(r)
		}
	case "ParseMany":
		one, n := Bytes(op, "b"), int(I64(op, "n"))
		b := bytes.Repeat(append(append([]byte{}, one...), ','), n)
		b = b[:len(b)-1]
		keep(b)
		r, e := byteconversion.ParseInput(b)
		res["err"] = err2(e)
		if e == nil {
			k := len(r) / n
			even := k > 0 && k*n == len(r)
			for i := range r {
				even = even && r[i].Cmp(r[i%k]) == 0
			}
			res["v"], res["n"], res["even"] = BigStrs(r[:k]), strconv.Itoa(len(r)), even
		}
	case "Base10":
		if r := intconversion.BigFromBase10(string(Bytes(op, "b"))); r == nil {
			res["err"] = true
		} else {
			res["err"] = err2(nil)
			one(r)
		}
	case "Flip":
		b := Bytes(op, "b")
		keep(b)
		r := byteconversion.FlipBytes(b)
		res["v"] = Ints(r)
		s.Result(r)
	case "Decompose":
		x := s.Big(op, "x")
		keep(x)
		d, e := util.Decompose(x, I64(op, "u"), I64(op, "l"))
		res["err"] = err2(e)
		ds := []string{}
		for _, v := range d {
			ds = append(ds, big.NewInt(v).String())
		}
		res["v"] = ds
		s.Result(d)
	case "ModPow":
		a, b, c := s.Big(op, "x"), s.Big(op, "e"), s.Big(op, "m")
		keep(a, b, c)
		one(bn.ModPow(a, b, c))
	case "ModInverse":
		a, b := s.Big(op, "x"), s.Big(op, "m")
		keep(a, b)
		one(bn.ModInverse(a, b))
	case "Mod":
		a, b := s.Big(op, "x"), s.Big(op, "m")
		keep(a, b)
		one(bn.Mod(a, b))
	case "Add", "Sub", "Multiply":
		a, b := s.Big(op, "x"), s.Big(op, "y")
		keep(a, b)
		f := map[string]func(x, y *big.Int) *big.Int{"Add": bn.Add, "Sub": bn.Sub, "Multiply": bn.Multiply}[Str(op, "op")]
		one(f(a, b))
	case "VectorAdd", "VectorSub", "VectorMul":
		a, b := s.Bigs(op, "a"), s.Bigs(op, "b")
		keep(a, b)
		f := map[string]func(x, y []*big.Int) ([]*big.Int, error){"VectorAdd": bulletproofs.VectorAdd,
			"VectorSub": bulletproofs.VectorSub, "VectorMul": bulletproofs.VectorMul}[Str(op, "op")]
		vec(f(a, b))
	case "VectorScalarMul":
		a, b := s.Bigs(op, "a"), s.Big(op, "x")
		keep(a, b)
		vec(bulletproofs.VectorScalarMul(a, b))
	case "ScalarProduct":
		a, b := s.Bigs(op, "a"), s.Bigs(op, "b")
		keep(a, b)
		r, e := bulletproofs.ScalarProduct(a, b)
		res["err"] = err2(e)
		if e == nil {
			one(r)
		}
	case "VectorCopy":
		a := s.Big(op, "x")
		keep(a)
		vec(bulletproofs.VectorCopy(a, I64(op, "n")))
	case "VectorConvertToBig":
		a := i64s(List(op, "a"))
		keep(a)
		vec(bulletproofs.VectorConvertToBig(a, int64(len(a))))
	case "PowerOf":
		a := s.Big(op, "x")
		keep(a)
		res["err"] = false
		res["v"] = BigStrs(bulletproofs.ZzPowerOf(a, I64(op, "n"))) // nobody outside of the package gets these
	case "VectorExp":
		a, b := pts(List(op, "a")), s.Bigs(op, "b")
		keep(a, b)
		r, e := bulletproofs.VectorExp(a, b)
		res["err"] = err2(e)
		if e == nil {
			res["v"] = pt(r)
			s.Result(r)
		}
	case "VectorECAdd":
		a, b := pts(List(op, "a")), pts(List(op, "b"))
		keep(a, b)
		r, e := bulletproofs.VectorECAdd(a, b)
		res["err"] = err2(e)
		if e == nil {
			res["v"] = ptss(r)
			s.Result(r)
		}
	case "IsPowerOfTwo":
		res["v"] = bulletproofs.IsPowerOfTwo(I64(op, "x"))
	default:
		panic("driver: unknown operation " + Str(op, "op"))
	}
	return res
}

func main() { Main(handler) }
