// Driver for the bulletproofs package: sessions over named slots holding parameters and proofs.
package main

import (
	"bytes"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"sync"

	bp "github.com/ing-bank/zkrp/bulletproofs"
	"github.com/ing-bank/zkrp/crypto/p256"
	. "github.com/ing-bank/zkrp/zzverif/vh"
)

// ------------------------------------------------------------------ secp256k1, independent of the code under test

func hx(s string) *big.Int { b, _ := new(big.Int).SetString(s, 16); return b }

var (
	fieldP = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEFFFFFC2F")
	order  = hx("FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141")
	baseX  = hx("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798")
	baseY  = hx("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8")
)

type pt struct{ x, y *big.Int } // x nil: infinity

func ptOf(p *p256.P256) pt {
	if p == nil || p.X == nil || p.Y == nil || (p.X.Sign() == 0 && p.Y.Sign() == 0) {
		return pt{}
	}
	return pt{new(big.Int).Set(p.X), new(big.Int).Set(p.Y)}
}
func (a pt) out() *p256.P256 {
	if a.x == nil {
		return &p256.P256{}
	}
	return &p256.P256{X: a.x, Y: a.y}
}
func (a pt) neg() pt {
	if a.x == nil {
		return a
	}
	y := new(big.Int).Neg(a.y)
	return pt{new(big.Int).Set(a.x), y.Mod(y, fieldP)}
}
func (a pt) add(b pt) pt {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	var l *big.Int
	if a.x.Cmp(b.x) == 0 {
		s := new(big.Int).Add(a.y, b.y)
		if s.Mod(s, fieldP).Sign() == 0 {
			return pt{}
		}
		l = new(big.Int).Mul(a.x, a.x)
		l.Mul(l, big.NewInt(3))
		l.Mul(l, new(big.Int).ModInverse(new(big.Int).Lsh(a.y, 1), fieldP))
	} else {
		d := new(big.Int).Sub(b.x, a.x)
		d.Mod(d, fieldP)
		l = new(big.Int).Sub(b.y, a.y)
		l.Mul(l, d.ModInverse(d, fieldP))
	}
	l.Mod(l, fieldP)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, a.x).Sub(x, b.x).Mod(x, fieldP)
	y := new(big.Int).Sub(a.x, x)
	y.Mul(y, l).Sub(y, a.y).Mod(y, fieldP)
	return pt{x, y}
}
func (a pt) mul(k *big.Int) pt {
	e := new(big.Int).Mod(k, order)
	r := pt{}
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = r.add(r)
		if e.Bit(i) == 1 {
			r = r.add(a)
		}
	}
	return r
}

var base = pt{baseX, baseY}

// ------------------------------------------------------------------ views

func pview(p *p256.P256) string {
	switch {
	case p == nil:
		return "nil"
	case p.X == nil && p.Y == nil:
		return "inf"
	case p.X == nil || p.Y == nil:
		return "half"
	}
	return p.X.String() + "," + p.Y.String()
}
func pviews(l []*p256.P256) []string {
	r := []string{}
	for _, p := range l {
		r = append(r, pview(p))
	}
	return r
}
func ptext(p *p256.P256) string {
	switch v := pview(p); v {
	case "inf":
		return "P256(<nil>,<nil>)"
	case "nil", "half":
		return v
	default:
		return "P256(" + v + ")"
	}
}
func gensRep(g, h *p256.P256, gg, hh []*p256.P256) string {
	d := sha256.New()
	for _, p := range append(append([]*p256.P256{g, h}, gg...), hh...) {
		d.Write([]byte(ptext(p)))
	}
	return hex.EncodeToString(d.Sum(nil)[:20]) + "/" + strconv.Itoa(len(gg)) + "/" + strconv.Itoa(len(hh))
}
func small(n int64) int { return upTo(n, 64) }

func upTo(n, max int64) int {
	if n >= 1 && n <= max {
		return int(n)
	}
	return 0
}
func view(p *bp.BulletProof) Obj {
	ip := p.InnerProductProof
	return Obj{"n": small(p.Params.N), "V": pview(p.V), "A": pview(p.A), "S": pview(p.S), "T1": pview(p.T1), "T2": pview(p.T2),
		"C": pview(p.Commit), "taux": BigStr(p.Taux), "mu": BigStr(p.Mu), "t": BigStr(p.Tprime),
		"ls": pviews(ip.Ls), "rs": pviews(ip.Rs), "a": BigStr(ip.A), "b": BigStr(ip.B),
		"gens": gensRep(p.Params.G, p.Params.H, p.Params.Gg, p.Params.Hh)}
}
func viewIP(p *bp.InnerProductProof) Obj {
	return Obj{"n": upTo(p.N, 4096), "ls": pviews(p.Ls), "rs": pviews(p.Rs), "a": BigStr(p.A), "b": BigStr(p.B),
		"u": pview(p.U), "P": pview(p.Params.P), "gg": pviews(p.Params.Gg), "hh": pviews(p.Params.Hh)}
}
func viewG(p *bp.ProofBPRP) Obj {
	return Obj{"A": strconv.FormatInt(p.A, 10), "B": strconv.FormatInt(p.B, 10), "p1": view(&p.P1), "p2": view(&p.P2)}
}

// ------------------------------------------------------------------ slots

type generic struct{ v reflect.Value } // result of SetupGeneric

func digest(v interface{}) string {
	if g, ok := v.(generic); ok {
		return DigestExported(g.v.Interface())
	}
	return DigestExported(v)
}
func digests(s *Session) map[string]string {
	m := map[string]string{}
	for k, v := range s.Objs {
		m[k] = digest(v)
	}
	return m
}
func str(op Obj, k string) string {
	if !Has(op, k) {
		panic("driver: missing " + k)
	}
	return Str(op, k)
}
func proofOf(s *Session, k string) *bp.BulletProof {
	p, ok := s.Objs[k].(*bp.BulletProof)
	if !ok {
		panic("driver: no proof in slot " + k)
	}
	return p
}
func paramsOf(s *Session, k string) *bp.BulletProofSetupParams {
	return s.Objs[k].(*bp.BulletProofSetupParams)
}
func ix(op Obj, k string) int {
	if f, ok := op[k].(float64); ok {
		return int(f)
	}
	return 0
}
func verdict(ok bool, err error) bool { return ok && err == nil }

// ------------------------------------------------------------------ fields that can be replaced

func pointAt(o interface{}, f string, i int) **p256.P256 {
	switch p := o.(type) {
	case *bp.BulletProof:
		switch f {
		case "V":
			return &p.V
		case "A":
			return &p.A
		case "S":
			return &p.S
		case "T1":
			return &p.T1
		case "T2":
			return &p.T2
		case "C":
			return &p.Commit
		case "ls":
			return &p.InnerProductProof.Ls[i-1]
		case "rs":
			return &p.InnerProductProof.Rs[i-1]
		case "G":
			return &p.Params.G
		case "H":
			return &p.Params.H
		case "gg":
			return &p.Params.Gg[i-1]
		case "hh":
			return &p.Params.Hh[i-1]
		}
	case *bp.InnerProductProof:
		switch f {
		case "ls":
			return &p.Ls[i-1]
		case "rs":
			return &p.Rs[i-1]
		case "u":
			return &p.U
		case "P":
			return &p.Params.P
		case "gg":
			return &p.Params.Gg[i-1]
		case "hh":
			return &p.Params.Hh[i-1]
		}
	case *bp.BulletProofSetupParams:
		switch f {
		case "G":
			return &p.G
		case "H":
			return &p.H
		case "gg":
			return &p.Gg[i-1]
		case "hh":
			return &p.Hh[i-1]
		}
	}
	return nil
}
func scalarAt(o interface{}, f string) **big.Int {
	switch p := o.(type) {
	case *bp.BulletProof:
		switch f {
		case "taux":
			return &p.Taux
		case "mu":
			return &p.Mu
		case "t":
			return &p.Tprime
		case "a":
			return &p.InnerProductProof.A
		case "b":
			return &p.InnerProductProof.B
		}
	case *bp.InnerProductProof:
		switch f {
		case "a":
			return &p.A
		case "b":
			return &p.B
		}
	}
	return nil
}

func change(o interface{}, s *Session, op Obj) {
	f, i, how := str(op, "f"), ix(op, "i"), str(op, "how")
	switch how {
	case "ip": // the whole inner product proof of another proof
		src := Clone(proofOf(s, str(op, "b"))).(*bp.BulletProof)
		o.(*bp.BulletProof).InnerProductProof = src.InnerProductProof
		return
	case "drop", "dup", "swapij":
		var l *[]*p256.P256
		switch p := o.(type) {
		case *bp.BulletProof:
			if f == "ls" {
				l = &p.InnerProductProof.Ls
			} else {
				l = &p.InnerProductProof.Rs
			}
		case *bp.InnerProductProof:
			if f == "ls" {
				l = &p.Ls
			} else {
				l = &p.Rs
			}
		}
		switch how {
		case "drop":
			*l = append((*l)[:i-1:i-1], (*l)[i:]...)
		case "dup":
			*l = append((*l)[:i:i], (*l)[i-1:]...)
		}
		return
	case "n":
		n := I64(op, "k")
		switch p := o.(type) {
		case *bp.BulletProof:
			p.Params.N = n
		case *bp.InnerProductProof:
			p.N = n
		case *bp.BulletProofSetupParams:
			p.N = n
		}
		return
	}
	if t := pointAt(o, f, i); t != nil {
		old := ptOf(*t)
		switch how {
		case "nil":
			*t = nil
		case "neg":
			*t = old.neg().out()
		case "add": // k times the generator added
			*t = old.add(base.mul(Big(op, "k"))).out()
		case "addh": // k times the second generator
			*t = old.add(ptOf(o.(*bp.BulletProof).Params.H).mul(Big(op, "k"))).out()
		case "mul":
			*t = old.mul(Big(op, "k")).out()
		case "set":
			*t = base.mul(Big(op, "k")).out()
		case "inf":
			*t = &p256.P256{}
		case "zero":
			*t = &p256.P256{X: new(big.Int), Y: new(big.Int)}
		case "offcurve":
			*t = &p256.P256{X: (*t).X, Y: new(big.Int).Add((*t).Y, big.NewInt(1))}
		case "unreduced":
			*t = &p256.P256{X: new(big.Int).Add((*t).X, fieldP), Y: (*t).Y}
		case "from":
			src := pointAt(s.Objs[str(op, "b")], str(op, "g"), ix(op, "j"))
			*t = Clone(*src).(*p256.P256)
		default:
			panic("driver: how " + how)
		}
		return
	}
	if t := scalarAt(o, f); t != nil {
		switch how {
		case "nil":
			*t = nil
		case "neg":
			v := new(big.Int).Neg(*t)
			*t = v.Mod(v, order)
		case "add":
			v := new(big.Int).Add(*t, Big(op, "k"))
			*t = v.Mod(v, order)
		case "mul":
			v := new(big.Int).Mul(*t, Big(op, "k"))
			*t = v.Mod(v, order)
		case "raw":
			*t = new(big.Int).Add(*t, Big(op, "k"))
		case "set":
			*t = Big(op, "k")
		case "from":
			src := scalarAt(s.Objs[str(op, "b")], str(op, "g"))
			*t = new(big.Int).Set(*src)
		default:
			panic("driver: how " + how)
		}
		return
	}
	panic("driver: field " + f)
}

// ------------------------------------------------------------------ JSON mutations

func decodeAny(b []byte) interface{} {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		panic("driver: " + err.Error())
	}
	return v
}

// all places of a JSON document, in a fixed order
func places(v interface{}, pre []interface{}, out *[][]interface{}) {
	*out = append(*out, append([]interface{}{}, pre...))
	switch x := v.(type) {
	case map[string]interface{}:
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			places(x[k], append(pre, k), out)
		}
	case []interface{}:
		for i := range x {
			if i < 3 || i == len(x)-1 {
				places(x[i], append(pre, i), out)
			}
		}
	}
}
func within(p, q []interface{}) bool {
	return len(p) <= len(q) && reflect.DeepEqual(append([]interface{}{}, p...), append([]interface{}{}, q[:len(p)]...))
}
func replaceAt(v interface{}, path []interface{}, f func(old interface{}) (interface{}, bool)) interface{} {
	if len(path) == 0 {
		n, _ := f(v)
		return n
	}
	switch x := v.(type) {
	case map[string]interface{}:
		k := path[0].(string)
		if len(path) == 1 {
			n, keep := f(x[k])
			if keep {
				x[k] = n
			} else {
				delete(x, k)
			}
			return x
		}
		x[k] = replaceAt(x[k], path[1:], f)
		return x
	case []interface{}:
		i := path[0].(int)
		if len(path) == 1 {
			n, keep := f(x[i])
			if keep {
				x[i] = n
				return x
			}
			return append(x[:i:i], x[i+1:]...)
		}
		x[i] = replaceAt(x[i], path[1:], f)
		return x
	}
	return v
}
func mutate(old interface{}, how string) (interface{}, bool) {
	raw := func(s string) interface{} { return json.Number(s) }
	switch how {
	case "missing":
		return nil, false
	case "null":
		return nil, true
	case "zero":
		return raw("0"), true
	case "one":
		return raw("1"), true
	case "minus":
		return raw("-1"), true
	case "n33":
		return raw("33"), true
	case "n64":
		return raw("64"), true
	case "big":
		return raw("9223372036854775807"), true
	case "least":
		return raw("-9223372036854775808"), true
	case "huge":
		return raw("1" + string(bytes.Repeat([]byte("0"), 3000))), true
	case "plus":
		if n, ok := old.(json.Number); ok {
			if b, ok := new(big.Int).SetString(string(n), 10); ok {
				return raw(b.Add(b, big.NewInt(1)).String()), true
			}
		}
		return old, true
	case "plusp":
		if n, ok := old.(json.Number); ok {
			if b, ok := new(big.Int).SetString(string(n), 10); ok {
				return raw(b.Add(b, fieldP).String()), true
			}
		}
		return old, true
	case "plusq":
		if n, ok := old.(json.Number); ok {
			if b, ok := new(big.Int).SetString(string(n), 10); ok {
				return raw(b.Add(b, order).String()), true
			}
		}
		return old, true
	case "negate":
		if n, ok := old.(json.Number); ok && len(n) > 0 && n[0] != '-' && n != "0" {
			return raw("-" + string(n)), true
		}
		return old, true
	case "empty":
		return []interface{}{}, true
	case "object":
		return map[string]interface{}{}, true
	case "string":
		return "x", true
	case "infinity":
		return map[string]interface{}{"X": nil, "Y": nil}, true
	case "origin":
		return map[string]interface{}{"X": raw("0"), "Y": raw("0")}, true
	case "offcurve":
		return map[string]interface{}{"X": raw("1"), "Y": raw("1")}, true
	case "half":
		return map[string]interface{}{"X": raw("1")}, true
	case "double":
		if l, ok := old.([]interface{}); ok {
			return append(append([]interface{}{}, l...), l...), true
		}
		return old, true
	case "short":
		if l, ok := old.([]interface{}); ok && len(l) > 0 {
			return l[:len(l)-1], true
		}
		return old, true
	case "nullitems":
		if l, ok := old.([]interface{}); ok {
			return make([]interface{}, len(l)), true
		}
		return old, true
	case "long":
		if l, ok := old.([]interface{}); ok && len(l) > 0 {
			r := []interface{}{}
			for i := 0; i < 70; i++ {
				r = append(r, l[0])
			}
			return r, true
		}
		return old, true
	}
	panic("driver: mutation " + how)
}

// ------------------------------------------------------------------ operations

func ipVerify(p *bp.InnerProductProof) bool { return verdict(p.Verify()) }

func verify(o interface{}) bool {
	switch p := o.(type) {
	case *bp.BulletProof:
		return verdict(p.Verify())
	case *bp.ProofBPRP:
		return verdict(p.Verify())
	case *bp.InnerProductProof:
		return verdict(p.Verify())
	}
	panic("driver: nothing to verify")
}

func proveG(params generic, x *big.Int) (*bp.ProofBPRP, error) {
	r := reflect.ValueOf(bp.ProveGeneric).Call([]reflect.Value{reflect.ValueOf(x), params.v})
	err, _ := r[1].Interface().(error)
	p := r[0].Interface().(bp.ProofBPRP)
	return &p, err
}

type tape struct {
	mu    sync.Mutex
	src   *DRBG
	reads [][]byte
	flip  int // number of the read that is answered differently, from 1
}

func (t *tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.src.Read(p)
	if len(t.reads)+1 == t.flip && len(p) > 0 {
		p[len(p)/2] ^= 0x40
	}
	t.reads = append(t.reads, append([]byte{}, p...))
	return len(p), nil
}

// every number that is somewhere in a proof, except coordinates of points
func allNums(p interface{}) []string {
	out := []string{}
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() || v.Type() == reflect.TypeOf(&p256.P256{}) {
				return
			}
			if v.Type() == reflect.TypeOf(&big.Int{}) {
				b := new(big.Int)
				t, _ := v.Interface().(*big.Int)
				b.Set(t)
				out = append(out, b.String())
				return
			}
			walk(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(Settable(v.Field(i)))
			}
		case reflect.Slice, reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(v.Index(i))
			}
		}
	}
	walk(reflect.ValueOf(p).Elem())
	return out
}

func handle(s *Session, op Obj) Obj {
	switch str(op, "op") {
	case "Setup":
		p, err := bp.Setup(I64(op, "b"))
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[str(op, "d")] = &p
		return Obj{"err": false, "n": small(p.N), "gens": gensRep(p.G, p.H, p.Gg, p.Hh)}
	case "Prove":
		x := s.Big(op, "x")
		p, err := bp.Prove(x, *paramsOf(s, str(op, "p")))
		if x.Cmp(Big(op, "x")) != 0 {
			return Obj{"err": false, "secret": "changed"}
		}
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[str(op, "d")] = &p
		return Obj{"err": false, "pf": view(&p)}
	case "Verify":
		return Obj{"ok": verify(s.Objs[str(op, "a")])}
	case "Json":
		o := s.Objs[str(op, "a")]
		b, err := json.Marshal(o)
		if err != nil {
			return Obj{"err": true}
		}
		n := reflect.New(reflect.TypeOf(o).Elem())
		if was, ok := s.Objs[Str(op, "into")]; ok && reflect.TypeOf(was) == reflect.TypeOf(o) {
			n = reflect.ValueOf(Clone(was)) // a variable that holds something already
		}
		if err := json.Unmarshal(b, n.Interface()); err != nil {
			return Obj{"err": true}
		}
		again, err := json.Marshal(n.Interface())
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[str(op, "d")] = n.Interface()
		return Obj{"err": false, "equal": digest(n.Interface()) == digest(o), "again": bytes.Equal(b, again)}
	case "Tamper", "TamperIP":
		o := Clone(s.Objs[str(op, "a")])
		change(o, s, op)
		if q, ok := o.(*bp.BulletProofSetupParams); ok && str(op, "d") == str(op, "a") && (str(op, "f") == "gg" || str(op, "f") == "hh") {
			// the caller's own parameters: other entries in the slices Setup gave
			p := s.Objs[str(op, "a")].(*bp.BulletProofSetupParams)
			copy(p.Gg, q.Gg)
			copy(p.Hh, q.Hh)
			o = p
		} else if f := str(op, "f"); str(op, "d") == str(op, "a") && f != "gg" && f != "hh" && f != "G" && f != "H" {
			o = Overwrite(s.Objs[str(op, "a")], o) // in place (the generators may belong to others as well)
			s.Objs[str(op, "a")] = o
		} else {
			s.Replace(str(op, "d"), o)
			o = s.Objs[str(op, "d")]
		}
		switch p := o.(type) {
		case *bp.BulletProof:
			return Obj{"pf": view(p)}
		case *bp.InnerProductProof:
			return Obj{"pf": viewIP(p)}
		case *bp.BulletProofSetupParams:
			return Obj{"n": small(p.N), "gens": gensRep(p.G, p.H, p.Gg, p.Hh)}
		}
	case "Put": // a proof made by somebody else
		v := op["pf"].(map[string]interface{})
		p := &bp.BulletProof{}
		params, err := bp.Setup(int64(1) << uint(ix(v, "n")))
		if err != nil {
			return Obj{"err": true}
		}
		pf := func(k string) *p256.P256 { return parsePt(v[k].(string)) }
		pl := func(k string) []*p256.P256 {
			var r []*p256.P256
			for _, x := range v[k].([]interface{}) {
				r = append(r, parsePt(x.(string)))
			}
			return r
		}
		p.V, p.A, p.S, p.T1, p.T2, p.Commit = pf("V"), pf("A"), pf("S"), pf("T1"), pf("T2"), pf("C")
		p.Taux, p.Mu, p.Tprime = Big(v, "taux"), Big(v, "mu"), Big(v, "t")
		ip := &p.InnerProductProof
		ip.N, ip.Ls, ip.Rs, ip.A, ip.B = params.N, pl("ls"), pl("rs"), Big(v, "a"), Big(v, "b")
		// what else a proof carries is made from the statement the prover gives
		u, hp := pf("ipu"), pl("iphh")
		ip.U, ip.P, ip.Gg, ip.Hh = u, pf("ipP"), params.Gg[0], params.Hh[0]
		p.Params = params
		ipp, err := bp.ZzSetupIP(params.H, params.Gg, hp, p.Tprime, params.N)
		if err != nil {
			return Obj{"err": true}
		}
		p.Params.InnerProductParams = ipp
		ip.Params = Clone(ipp).(bp.InnerProductParams)
		ip.Params.P = pf("ipP")
		s.Objs[str(op, "d")] = p
		return Obj{"err": false, "pf": view(p)}
	case "SetupG":
		r := reflect.ValueOf(bp.SetupGeneric).Call([]reflect.Value{reflect.ValueOf(I64(op, "A")), reflect.ValueOf(I64(op, "B"))})
		if err, _ := r[1].Interface().(error); err != nil {
			return Obj{"err": true}
		}
		s.Objs[str(op, "d")] = generic{r[0]}
		return Obj{"err": false}
	case "ProveG":
		x := s.Big(op, "x")
		p, err := proveG(s.Objs[str(op, "p")].(generic), x)
		if x.Cmp(Big(op, "x")) != 0 {
			return Obj{"err": false, "secret": "changed"}
		}
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[str(op, "d")] = p
		return Obj{"err": false, "pf": viewG(p)}
	case "Half":
		g := s.Objs[str(op, "a")].(*bp.ProofBPRP)
		h := &g.P1
		if ix(op, "i") == 2 {
			h = &g.P2
		}
		s.Objs[str(op, "d")] = Clone(h)
		return Obj{"pf": view(h)}
	case "Combine":
		g := &bp.ProofBPRP{A: I64(op, "A"), B: I64(op, "B"), P1: *Clone(proofOf(s, str(op, "a"))).(*bp.BulletProof),
			P2: *Clone(proofOf(s, str(op, "b"))).(*bp.BulletProof)}
		s.Replace(str(op, "d"), g)
		g = s.Objs[str(op, "d")].(*bp.ProofBPRP)
		return Obj{"pf": viewG(g)}
	case "IP":
		a, b := Bigs(op, "a"), Bigs(op, "b")
		n := I64(op, "n")
		params, err := bp.ZzSetupIP(nil, nil, nil, Big(op, "c"), n)
		if err != nil {
			return Obj{"err": true}
		}
		if _, ok := op["gk"]; ok { // the caller's own generators: multiples of the usual ones, the usual ones themselves for 1
			key := fmt.Sprint("ipgens", n)
			if s.Owned(key) == nil {
				s.Own(key, params)
			}
			std := s.Owned(key).(bp.InnerProductParams)
			times := func(ps []*p256.P256, ks []*big.Int) []*p256.P256 {
				r := make([]*p256.P256, len(ps))
				for i := range ps {
					if r[i] = ps[i]; ks[i].Cmp(big.NewInt(1)) != 0 {
						r[i] = new(p256.P256).ScalarMult(ps[i], ks[i])
					}
				}
				return r
			}
			params, err = bp.ZzSetupIP(std.H, times(std.Gg, Bigs(op, "gk")), times(std.Hh, Bigs(op, "hk")), Big(op, "c"), n)
			if err != nil {
				return Obj{"err": true}
			}
		}
		var P *p256.P256
		switch str(op, "how") {
		case "commit":
			P = bp.ZzCommitIP(params.Gg, params.Hh, a, b)
		case "base":
			P = base.out()
		case "other":
			P = bp.ZzCommitIP(params.Gg, params.Hh, Bigs(op, "a2"), Bigs(op, "b2"))
		}
		commit := pview(P)
		pre := Digest([]interface{}{a, b, P, params})
		p, err := bp.ZzProveIP(a, b, P, params)
		if Digest([]interface{}{a, b, P, params}) != pre {
			return Obj{"err": false, "arguments": "changed"}
		}
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[str(op, "d")] = &p
		return Obj{"err": false, "pf": viewIP(&p), "commit": commit}
	case "Places": // number of places of the encoding
		b, _ := json.Marshal(s.Objs[str(op, "a")])
		var l [][]interface{}
		places(decodeAny(b), nil, &l)
		return Obj{"n": len(l)}
	case "Mutate": // every place of the encoding changed in one way, each result decoded and verified
		b, err := json.Marshal(s.Objs[str(op, "a")])
		if err != nil {
			return Obj{"err": true}
		}
		var l [][]interface{}
		places(decodeAny(b), nil, &l)
		bad := []string{}
		pfs := []Obj{}
		n, dec := 0, 0
		type change struct {
			path []interface{}
			how  string
		}
		var changes [][]change
		if how2 := Str(op, "how2"); !Has(op, "how2") {
			for _, path := range l {
				changes = append(changes, []change{{path, str(op, "how")}})
			}
		} else { // two places at once
			at := Bigs(op, "at")
			for i := 0; i+1 < len(at); i += 2 {
				p := l[new(big.Int).Mod(at[i], big.NewInt(int64(len(l)))).Int64()]
				q := l[new(big.Int).Mod(at[i+1], big.NewInt(int64(len(l)))).Int64()]
				if within(p, q) || within(q, p) {
					continue
				}
				if fmt.Sprint(p) < fmt.Sprint(q) { // later elements of a list first
					p, q = q, p
				}
				changes = append(changes, []change{{p, str(op, "how")}, {q, how2}})
			}
		}
		for _, cs := range changes {
			path := cs
			v := decodeAny(b)
			for _, c := range cs {
				v = replaceAt(v, c.path, func(old interface{}) (interface{}, bool) { return mutate(old, c.how) })
			}
			m, err := json.Marshal(v)
			if err != nil {
				panic("driver: " + err.Error())
			}
			n++
			Beat()
			o := reflect.New(reflect.TypeOf(s.Objs[str(op, "a")]).Elem())
			if json.Unmarshal(m, o.Interface()) != nil {
				continue
			}
			dec++
			func() {
				defer func() {
					if r := recover(); r != nil {
						bad = append(bad, fmt.Sprint(path))
					}
				}()
				if verify(o.Interface()) {
					switch p := o.Interface().(type) {
					case *bp.BulletProof:
						pfs = append(pfs, view(p))
					case *bp.ProofBPRP:
						pfs = append(pfs, viewG(p))
					}
				}
			}()
		}
		return Obj{"crashes": bad, "accepted": uniq(pfs), "places": n, "decoded": dec}
	case "Holes": // every combination of missing parts, bit-lengths and numbers of rounds, each verified
		o := *(s.Objs[str(op, "a")].(*bp.BulletProof))
		bad := []string{}
		pfs := []Obj{}
		n := 0
		rounds := func(l []*p256.P256, k int) []*p256.P256 {
			if k < 0 {
				return nil
			}
			r := []*p256.P256{}
			for i := 0; i < k; i++ {
				if len(l) == 0 {
					r = append(r, new(p256.P256).ScalarBaseMult(big.NewInt(int64(i+2))))
				} else {
					r = append(r, l[i%len(l)])
				}
			}
			return r
		}
		cut := func(l []*p256.P256, how string) []*p256.P256 {
			switch how {
			case "none":
				return nil
			case "short":
				return l[:len(l)-1]
			case "hole":
				return append(append([]*p256.P256{}, l[:len(l)-1]...), nil)
			}
			return l
		}
		for _, size := range Bigs(op, "sizes") {
			for _, nl := range Bigs(op, "nl") {
				for _, nr := range Bigs(op, "nr") {
					ls, rs := rounds(o.InnerProductProof.Ls, int(nl.Int64())), rounds(o.InnerProductProof.Rs, int(nr.Int64()))
					for _, gens := range List(op, "gens") {
						Beat()
						for mask := 0; mask < 1<<11; mask++ {
							p := o
							ip := &p.InnerProductProof
							p.Params.N = size.Int64()
							ip.Ls, ip.Rs = ls, rs
							if h := gens.(string); h != "std" {
								p.Params.Gg = cut(p.Params.Gg, h)
								if h != "hole" {
									p.Params.Hh = cut(p.Params.Hh, h)
								}
							}
							for i, f := range []**p256.P256{&p.V, &p.A, &p.S, &p.T1, &p.T2, &p.Commit} {
								if mask>>uint(i)&1 == 1 {
									*f = nil
								}
							}
							for i, f := range []**big.Int{&p.Taux, &p.Mu, &p.Tprime, &ip.A, &ip.B} {
								if mask>>uint(i+6)&1 == 1 {
									*f = nil
								}
							}
							n++
							func() {
								defer func() {
									if r := recover(); r != nil && len(bad) < 5 {
										bad = append(bad, fmt.Sprint(size, nl, nr, gens, mask, r))
									}
								}()
								if verify(&p) && len(pfs) < 5 {
									pfs = append(pfs, view(&p))
								}
							}()
						}
					}
				}
			}
		}
		return Obj{"crashes": bad, "accepted": uniq(pfs), "places": n}
	case "Par": // concurrent proving and verifying
		runtime.GOMAXPROCS(8)
		xs := Bigs(op, "xs")
		pfs := make([]Obj, len(xs))
		oks := make([]bool, len(xs))
		vs := List(op, "vs")
		voks := make([]bool, len(vs))
		vpanic := make([]bool, len(vs)+len(xs))
		params := s.Objs[str(op, "p")]
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range xs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { vpanic[len(vs)+i] = recover() != nil }()
				<-start
				switch pr := params.(type) {
				case *bp.BulletProofSetupParams:
					p, err := bp.Prove(xs[i], *pr)
					if err == nil {
						oks[i] = verdict(p.Verify())
						pfs[i] = view(&p)
					}
				case generic:
					p, err := proveG(pr, xs[i])
					if err == nil {
						oks[i] = verdict(p.Verify())
						pfs[i] = viewG(p)
					}
				}
			}(i)
		}
		for i := range vs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { vpanic[i] = recover() != nil }()
				<-start
				voks[i] = verify(s.Objs[vs[i].(string)])
			}(i)
		}
		close(start)
		wg.Wait()
		for _, b := range vpanic {
			if b {
				return Obj{"panic": true, "msg": "concurrent"}
			}
		}
		return Obj{"pfs": pfs, "oks": oks, "voks": voks}
	case "Tape": // a proof from recorded random numbers, and again with each of them changed
		x := Big(op, "x")
		old := rand.Reader
		defer func() { rand.Reader = old }()
		seed := "tape" + str(op, "seed")
		run := func(flip int) (*bp.BulletProof, *bp.ProofBPRP, *tape) {
			t := &tape{src: NewDRBG(seed), flip: flip}
			rand.Reader = t
			switch pr := s.Objs[str(op, "p")].(type) {
			case *bp.BulletProofSetupParams:
				p, err := bp.Prove(x, *pr)
				if err != nil {
					panic("driver: prove failed")
				}
				return &p, nil, t
			case generic:
				p, err := proveG(pr, x)
				if err != nil {
					panic("driver: prove failed")
				}
				return nil, p, t
			}
			panic("driver: no parameters")
		}
		p0, g0, t0 := run(0)
		vals := []string{}
		sizes := []int{}
		infl := [][]string{}
		for i, r := range t0.reads {
			sizes = append(sizes, len(r))
			vals = append(vals, new(big.Int).SetBytes(r).String())
			if ix(op, "flips") == 0 {
				continue
			}
			p1, g1, _ := run(i + 1)
			ch := []string{}
			cmp := func(pre string, a, b *bp.BulletProof) {
				va, vb := view(a), view(b)
				for _, k := range []string{"V", "A", "S", "T1", "T2", "C", "taux", "mu", "t"} {
					if va[k] != vb[k] {
						ch = append(ch, pre+k)
					}
				}
			}
			if p0 != nil {
				cmp("", p0, p1)
			} else {
				cmp("1", &g0.P1, &g1.P1)
				cmp("2", &g0.P2, &g1.P2)
			}
			infl = append(infl, ch)
		}
		if p0 != nil {
			s.Objs[str(op, "d")] = p0
			return Obj{"pf": view(p0), "nums": allNums(p0), "sizes": sizes, "vals": vals, "infl": infl}
		}
		s.Objs[str(op, "d")] = g0
		return Obj{"pf": viewG(g0), "nums": allNums(g0), "sizes": sizes, "vals": vals, "infl": infl}
	}
	if str(op, "op") == "Fail" {
		return Fail(handle, digest, s, op)
	}
	if str(op, "op") == "Together" {
		return Together(s, op, func(*Session, Obj) {}, func(t *Session, o Obj) Obj {
			if missing(t, o) {
				return Obj{"skip": true, "chg": []string{}}
			}
			r := handle(t, o)
			r["chg"] = []string{}
			return r
		})
	}
	panic("driver: unknown operation " + Str(op, "op"))
}

func parsePt(v string) *p256.P256 {
	switch v {
	case "nil":
		return nil
	case "inf":
		return &p256.P256{}
	}
	i := bytes.IndexByte([]byte(v), ',')
	x, _ := new(big.Int).SetString(v[:i], 10)
	y, _ := new(big.Int).SetString(v[i+1:], 10)
	return &p256.P256{X: x, Y: y}
}
func uniq(l []Obj) []Obj {
	seen := map[string]bool{}
	r := []Obj{}
	for _, o := range l {
		b, _ := json.Marshal(o)
		if !seen[string(b)] {
			seen[string(b)] = true
			r = append(r, o)
		}
	}
	return r
}

// an operation on something an earlier one refused to make is left out
func missing(s *Session, op Obj) bool {
	refs := []interface{}{}
	for _, f := range []string{"a", "b", "p"} {
		if v, ok := op[f].(string); ok && Str(op, "op") != "Setup" {
			refs = append(refs, v)
		}
	}
	for _, v := range append(refs, List(op, "vs")...) {
		if _, ok := s.Objs[v.(string)]; !ok {
			return true
		}
	}
	return false
}

func handler(s *Session, op Obj) Obj {
	pre := digests(s)
	if missing(s, op) {
		return Obj{"skip": true, "chg": []string{}}
	}
	res := handle(s, op)
	chg := []string{}
	for k, d := range digests(s) {
		if o, ok := pre[k]; ok && o != d && k != Str(op, "d") {
			chg = append(chg, k)
		}
	}
	sort.Strings(chg)
	res["chg"] = chg
	return res
}

func main() { Main(handler) }
