// Driver for ccs08 and bbsignatures: sessions over named slots. The parameter and proof types are not exported;
// they are read and written by reflection.
package main

import (
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"errors"
	"io"
	"math/big"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"sync"

	"github.com/ing-bank/zkrp/ccs08"
	bb "github.com/ing-bank/zkrp/crypto/bbsignatures"
	"github.com/ing-bank/zkrp/crypto/bn256"
	. "github.com/ing-bank/zkrp/zzverif/vh"
)

// ------------------------------------------------------------------ slots

// every slot holds a pointer
type pset struct{ v reflect.Value } // parameters for sets
type pul struct{ v reflect.Value }
type fset struct{ v reflect.Value } // proofs
type ful struct{ v reflect.Value }
type key struct {
	x *big.Int
	y *bn256.G1
}

func structOf(fn interface{}, res int) reflect.Type { return reflect.TypeOf(fn).Out(res) }

var (
	tPSet = structOf(ccs08.SetupSet, 0)
	tPUL  = structOf(ccs08.SetupUL, 0)
	tFSet = structOf(ccs08.ProveSet, 0)
	tFUL  = structOf(ccs08.ProveUL, 0)
)

func field(v reflect.Value, name string) reflect.Value {
	f := v.FieldByName(name)
	if !f.IsValid() {
		panic("driver: no field " + name)
	}
	return Settable(f)
}

// the field of a given type, whatever its name
func fieldOfType(v reflect.Value, t reflect.Type, nth int) reflect.Value {
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == t {
			if nth == 0 {
				return Settable(v.Field(i))
			}
			nth--
		}
	}
	panic("driver: no field of type " + t.String())
}

// ------------------------------------------------------------------ views, made on copies

func hexOr(isNil bool, f func() []byte) string {
	if isNil {
		return "nil"
	}
	return hex.EncodeToString(f())
}
func g1v(p *bn256.G1) string {
	return hexOr(p == nil, func() []byte { return Clone(p).(*bn256.G1).Marshal() })
}
func g2v(p *bn256.G2) string {
	return hexOr(p == nil, func() []byte { return Clone(p).(*bn256.G2).Marshal() })
}
func gtv(p *bn256.GT) string {
	return hexOr(p == nil, func() []byte { return Clone(p).(*bn256.GT).Marshal() })
}

func keyOf(v reflect.Value) *bb.Keypair {
	return fieldOfType(v, reflect.TypeOf(bb.Keypair{}), 0).Addr().Interface().(*bb.Keypair)
}
func baseOf(v reflect.Value) **bn256.G2 {
	return fieldOfType(v, reflect.TypeOf((*bn256.G2)(nil)), 0).Addr().Interface().(**bn256.G2)
}
func sigsOf(v reflect.Value) reflect.Value {
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Kind() == reflect.Map {
			return Settable(v.Field(i))
		}
	}
	panic("driver: no signatures")
}

// all numbers in the parameters
func numsIn(v reflect.Value, out *[]string) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if b, ok := Settable(addressable(v)).Interface().(*big.Int); ok {
			*out = append(*out, b.String())
			return
		}
		if v.Type().Elem().PkgPath() == "github.com/ing-bank/zkrp/crypto/bn256" {
			return
		}
		numsIn(v.Elem(), out)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			numsIn(Settable(addressable(v.Field(i))), out)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			numsIn(v.Index(i), out)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			numsIn(v.MapIndex(k), out)
		}
	}
}
func addressable(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return v
	}
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	return n
}

func viewParams(v reflect.Value) Obj {
	kind := "ul"
	if v.Type() == tPSet {
		kind = "set"
	}
	m := sigsOf(v)
	type kv struct {
		k *big.Int
		s string
	}
	l := []kv{}
	it := m.MapRange()
	for it.Next() {
		var k *big.Int
		if it.Key().Kind() == reflect.String {
			k, _ = new(big.Int).SetString(it.Key().String(), 10)
		} else {
			k = big.NewInt(it.Key().Int())
		}
		s := addressable(it.Value())
		l = append(l, kv{k, g2v(Settable(s).Interface().(*bn256.G2))})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].k.Cmp(l[j].k) < 0 })
	ms, sg := []string{}, []string{}
	for _, e := range l {
		ms, sg = append(ms, e.k.String()), append(sg, e.s)
	}
	u, n := "1", 1
	if kind == "ul" {
		u, n = strconv.FormatInt(field(v, "u").Int(), 10), int(field(v, "l").Int())
	}
	return Obj{"kind": kind, "y": g1v(keyOf(v).Pubk), "H": g2v(*baseOf(v)), "ms": ms, "sg": sg, "u": u, "l": n}
}
func nums(v reflect.Value) []string {
	r := []string{}
	numsIn(v, &r)
	return r
}

func viewProof(v reflect.Value) Obj {
	o := Obj{"D": g2v(field(v, "D").Interface().(*bn256.G2)), "C": g2v(field(v, "C").Interface().(*bn256.G2)),
		"c": BigStr(field(v, "c").Interface().(*big.Int)), "zr": BigStr(field(v, "zr").Interface().(*big.Int))}
	if v.Type() == tFSet {
		// the absent proof has no parts
		if field(v, "V").IsNil() && field(v, "a").IsNil() && field(v, "zsig").IsNil() && field(v, "zv").IsNil() {
			o["V"], o["a"], o["zsig"], o["zv"] = []string{}, []string{}, []string{}, []string{}
			return o
		}
		o["V"] = []string{g2v(field(v, "V").Interface().(*bn256.G2))}
		o["a"] = []string{gtv(field(v, "a").Interface().(*bn256.GT))}
		o["zsig"] = []string{BigStr(field(v, "zsig").Interface().(*big.Int))}
		o["zv"] = []string{BigStr(field(v, "zv").Interface().(*big.Int))}
		return o
	}
	V, a := []string{}, []string{}
	for _, p := range field(v, "V").Interface().([]*bn256.G2) {
		V = append(V, g2v(p))
	}
	for _, p := range field(v, "a").Interface().([]*bn256.GT) {
		a = append(a, gtv(p))
	}
	o["V"], o["a"] = V, a
	o["zsig"], o["zv"] = BigStrs(field(v, "zsig").Interface().([]*big.Int)), BigStrs(field(v, "zv").Interface().([]*big.Int))
	return o
}

func rangeProof(o *ccs08.ZzRange) (reflect.Value, reflect.Value) {
	p := field(reflect.ValueOf(o).Elem(), "proof_out")
	return fieldOfType(p, tFUL, 0), fieldOfType(p, tFUL, 1)
}
func rangeParams(o *ccs08.ZzRange) reflect.Value { // pointer to params, may be nil
	return field(reflect.ValueOf(o).Elem(), "p")
}
func innerParams(o *ccs08.ZzRange) reflect.Value { // paramsUL, or invalid
	p := rangeParams(o)
	if p.IsNil() {
		return reflect.Value{}
	}
	q := fieldOfType(p.Elem(), reflect.PtrTo(tPUL), 0)
	if q.IsNil() {
		return reflect.Value{}
	}
	return q.Elem()
}

func look(v interface{}) interface{} {
	switch x := v.(type) {
	case pset:
		return viewParams(x.v.Elem())
	case pul:
		return viewParams(x.v.Elem())
	case fset:
		return viewProof(x.v.Elem())
	case ful:
		return viewProof(x.v.Elem())
	case key:
		return []string{BigStr(x.x), g1v(x.y)}
	case *bn256.G2:
		return g2v(x)
	case *ccs08.ZzRange:
		p1, p2 := rangeProof(x)
		r := []interface{}{viewProof(p1), viewProof(p2)}
		if p := rangeParams(x); !p.IsNil() {
			r = append(r, field(p.Elem(), "a").Int(), field(p.Elem(), "b").Int())
			if q := innerParams(x); q.IsValid() {
				r = append(r, viewParams(q))
			}
		}
		return r
	}
	panic("driver: slot")
}
func snapshot(s *Session) map[string]string {
	m := map[string]string{}
	for k, v := range s.Objs {
		b, _ := json.Marshal(look(v))
		m[k] = string(b)
	}
	return m
}

// ------------------------------------------------------------------ random numbers

type tape struct {
	mu   sync.Mutex
	src  io.Reader
	vals []string
}

func (t *tape) Read(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n, err := t.src.Read(p)
	t.vals = append(t.vals, new(big.Int).SetBytes(p[:n]).String())
	return n, err
}

type zeros struct{}

func (zeros) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = 0
	}
	return len(p), nil
}

type failing struct{}

func (failing) Read(p []byte) (int, error) { return 0, errors.New("no random numbers") }

func source(src string) func() []string {
	if InTogether() { // the source is not one operation's own
		return func() []string { return []string{} }
	}
	old := rand.Reader
	t := &tape{src: old}
	switch src {
	case "zero":
		t.src = zeros{}
	case "fail":
		t.src = failing{}
	}
	rand.Reader = t
	return func() []string {
		rand.Reader = old
		if t.vals == nil {
			return []string{}
		}
		return t.vals
	}
}

// ------------------------------------------------------------------ helpers

func ix(op Obj, k string) int {
	if f, ok := op[k].(float64); ok {
		return int(f)
	}
	return 0
}
func ptr(v reflect.Value) reflect.Value {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return p
}
func errOf(v reflect.Value) error { e, _ := v.Interface().(error); return e }
func valOf(o interface{}) reflect.Value {
	switch x := o.(type) {
	case pset:
		return x.v
	case pul:
		return x.v
	case fset:
		return x.v
	case ful:
		return x.v
	}
	panic("driver: slot of another kind")
}
func wrapP(v reflect.Value) interface{} {
	if v.Type().Elem() == tPSet {
		return pset{v}
	}
	return pul{v}
}
func wrapF(v reflect.Value) interface{} {
	if v.Type().Elem() == tFSet {
		return fset{v}
	}
	return ful{v}
}

// replace puts a changed copy of slot a into slot d: into the same objects if d is a, or if it holds such a copy
// already, in every second session.
func replace(s *Session, d, a string, v reflect.Value, wrap func(reflect.Value) interface{}) reflect.Value {
	w := v.Interface()
	old := s.Owned(d)
	if d == a {
		old = valOf(s.Objs[a]).Interface()
	} else if old == nil || s.Tid%2 == 0 || reflect.TypeOf(old) != reflect.TypeOf(w) || !holds(s.Objs[d], old) {
		old = nil
	}
	if old != nil {
		w = Overwrite(old, w)
		v = reflect.ValueOf(w)
	}
	s.Objs[d] = wrap(v)
	if d != a {
		s.Own(d, w)
	}
	return v
}
func holds(o, v interface{}) bool {
	switch o.(type) {
	case pset, pul, fset, ful:
		return valOf(o).Interface() == v
	}
	return false
}
func cloneV(v reflect.Value) reflect.Value { // of a pointer
	return reflect.ValueOf(Clone(v.Interface()))
}

func g1Of(h string) *bn256.G1 {
	if h == "nil" {
		return nil
	}
	b, _ := hex.DecodeString(h)
	p, ok := new(bn256.G1).Unmarshal(b)
	if !ok {
		panic("driver: G1 " + h)
	}
	return p
}
func g2Of(h string) *bn256.G2 {
	if h == "nil" {
		return nil
	}
	b, _ := hex.DecodeString(h)
	p, ok := new(bn256.G2).Unmarshal(b)
	if !ok {
		panic("driver: G2 " + h)
	}
	return p
}
func gtOf(h string) *bn256.GT {
	if h == "nil" {
		return nil
	}
	b, _ := hex.DecodeString(h)
	p, ok := new(bn256.GT).Unmarshal(b)
	if !ok {
		panic("driver: GT " + h)
	}
	return p
}

// parameters made by somebody else
func makeParams(o Obj) interface{} {
	set := o["kind"] == "set"
	t := tPUL
	if set {
		t = tPSet
	}
	v := reflect.New(t)
	e := v.Elem()
	keyOf(e).Pubk = g1Of(Str(o, "y"))
	*baseOf(e) = g2Of(Str(o, "H"))
	m := sigsOf(e)
	m.Set(reflect.MakeMap(m.Type()))
	ms, sg := List(o, "ms"), List(o, "sg")
	for i := range ms {
		k := reflect.New(m.Type().Key()).Elem()
		if k.Kind() == reflect.String {
			k.SetString(ms[i].(string))
		} else {
			k.SetInt(ToBig(ms[i]).Int64())
		}
		m.SetMapIndex(k, reflect.ValueOf(g2Of(sg[i].(string))))
	}
	if !set {
		field(e, "u").SetInt(I64(o, "u"))
		field(e, "l").SetInt(int64(ix(o, "l")))
	}
	return wrapP(v)
}
func makeProof(o Obj, set bool) interface{} {
	t := tFUL
	if set {
		t = tFSet
	}
	v := reflect.New(t)
	e := v.Elem()
	put := func(f string, x interface{}) { field(e, f).Set(reflect.ValueOf(x)) }
	put("D", g2Of(Str(o, "D")))
	put("C", g2Of(Str(o, "C")))
	put("c", Big(o, "c"))
	put("zr", Big(o, "zr"))
	V, a := []*bn256.G2{}, []*bn256.GT{}
	for _, h := range List(o, "V") {
		V = append(V, g2Of(h.(string)))
	}
	for _, h := range List(o, "a") {
		a = append(a, gtOf(h.(string)))
	}
	zs, zv := Bigs(o, "zsig"), Bigs(o, "zv")
	if set {
		put("V", V[0])
		put("a", a[0])
		put("zsig", zs[0])
		put("zv", zv[0])
	} else {
		put("V", V)
		put("a", a)
		put("zsig", zs)
		put("zv", zv)
	}
	return wrapF(v)
}

func changeG2(p *bn256.G2, how string, k *big.Int) *bn256.G2 {
	switch how {
	case "nil":
		return nil
	case "neg":
		return new(bn256.G2).Neg(p)
	case "add":
		return new(bn256.G2).Add(p, new(bn256.G2).ScalarBaseMult(k))
	case "mul":
		return new(bn256.G2).ScalarMult(p, k)
	case "set":
		return new(bn256.G2).ScalarBaseMult(k)
	case "inf":
		p := new(bn256.G2)
		p.SetInfinity()
		return p
	}
	panic("driver: how " + how)
}

var gtBase = func() *bn256.GT {
	return bn256.Pair(new(bn256.G1).ScalarBaseMult(big.NewInt(1)), new(bn256.G2).ScalarBaseMult(big.NewInt(1)))
}

func changeGT(p *bn256.GT, how string, k *big.Int) *bn256.GT {
	q := new(big.Int)
	if k != nil {
		q.Mod(k, bn256.Order)
	}
	switch how {
	case "nil":
		return nil
	case "neg":
		return new(bn256.GT).Invert(p)
	case "add":
		return new(bn256.GT).Add(p, new(bn256.GT).ScalarMult(gtBase(), q))
	case "mul":
		return new(bn256.GT).ScalarMult(p, q)
	case "set":
		return new(bn256.GT).ScalarMult(gtBase(), q)
	case "inf":
		return new(bn256.GT).ScalarMult(gtBase(), new(big.Int))
	}
	panic("driver: how " + how)
}
func changeNum(p *big.Int, how string, k *big.Int) *big.Int {
	r := new(big.Int)
	switch how {
	case "nil":
		return nil
	case "neg":
		return r.Mod(r.Neg(p), bn256.Order)
	case "add":
		return r.Mod(r.Add(p, k), bn256.Order)
	case "mul":
		return r.Mod(r.Mul(p, k), bn256.Order)
	case "raw":
		return r.Add(p, k)
	case "set":
		return r.Set(k)
	}
	panic("driver: how " + how)
}

// the component f.i of a proof
func part(e reflect.Value, f string, i int) reflect.Value {
	v := field(e, f)
	if v.Kind() == reflect.Slice {
		return v.Index(i - 1)
	}
	return v
}
func change(s *Session, e reflect.Value, op Obj) {
	f, i, how := Str(op, "f"), ix(op, "i"), Str(op, "how")
	switch how {
	case "drop", "dup", "clear":
		v := field(e, f)
		n := reflect.MakeSlice(v.Type(), 0, v.Len()+1)
		for j := 0; j < v.Len(); j++ {
			if how == "clear" || (how == "drop" && j == i-1) {
				continue
			}
			n = reflect.Append(n, v.Index(j))
			if how == "dup" && j == i-1 {
				n = reflect.Append(n, v.Index(j))
			}
		}
		v.Set(n)
		return
	}
	t := part(e, f, i)
	if how == "from" {
		src := part(valOf(s.Objs[Str(op, "b")]).Elem(), Str(op, "g"), ix(op, "j"))
		t.Set(reflect.ValueOf(Clone(src.Interface())))
		return
	}
	var k *big.Int
	if Has(op, "k") {
		k = Big(op, "k")
	}
	switch p := t.Interface().(type) {
	case *bn256.G2:
		t.Set(reflect.ValueOf(changeG2(Clone(p).(*bn256.G2), how, k)))
	case *bn256.GT:
		t.Set(reflect.ValueOf(changeGT(Clone(p).(*bn256.GT), how, k)))
	case *big.Int:
		t.Set(reflect.ValueOf(changeNum(p, how, k)))
	}
}

func prove(p interface{}, x, r *big.Int) (interface{}, error) {
	var out []reflect.Value
	var xv reflect.Value
	fn := reflect.ValueOf(ccs08.ProveUL)
	switch p.(type) {
	case pset:
		fn = reflect.ValueOf(ccs08.ProveSet)
		xv = reflect.ValueOf(x.Int64())
	default:
		xv = reflect.ValueOf(x)
	}
	x0, r0 := new(big.Int).Set(x), new(big.Int).Set(r)
	out = fn.Call([]reflect.Value{xv, reflect.ValueOf(r), valOf(p).Elem()})
	if x0.Cmp(x) != 0 || r0.Cmp(r) != 0 {
		panic("the arguments of the prover were changed")
	}
	if err := errOf(out[1]); err != nil {
		return nil, err
	}
	return wrapF(ptr(out[0])), nil
}
func verify(f, p interface{}) bool {
	fn := reflect.ValueOf(ccs08.VerifyUL)
	if _, ok := f.(fset); ok {
		fn = reflect.ValueOf(ccs08.VerifySet)
	}
	out := fn.Call([]reflect.Value{valOf(f), valOf(p)})
	return out[0].Bool() && errOf(out[1]) == nil
}
func rangeObj(s *Session, d string) *ccs08.ZzRange {
	o, ok := s.Objs[d].(*ccs08.ZzRange)
	if !ok {
		o = &ccs08.ZzRange{}
		s.Objs[d] = o
	}
	return o
}
func setSecret(o *ccs08.ZzRange, x, r *big.Int) {
	e := reflect.ValueOf(o).Elem()
	field(e, "x").Set(reflect.ValueOf(x))
	field(e, "r").Set(reflect.ValueOf(r))
}
func secretOf(o *ccs08.ZzRange) (*big.Int, *big.Int) {
	e := reflect.ValueOf(o).Elem()
	return field(e, "x").Interface().(*big.Int), field(e, "r").Interface().(*big.Int)
}

// ------------------------------------------------------------------ operations

func handle(s *Session, op Obj) Obj {
	d := Str(op, "d")
	switch Str(op, "op") {
	case "SetupSet", "SetupUL":
		var args []reflect.Value
		fn := reflect.ValueOf(ccs08.SetupSet)
		if Str(op, "op") == "SetupSet" {
			l := []int64{}
			for _, v := range List(op, "s") {
				l = append(l, ToBig(v).Int64())
			}
			args = []reflect.Value{reflect.ValueOf(l)}
		} else {
			fn = reflect.ValueOf(ccs08.SetupUL)
			args = []reflect.Value{reflect.ValueOf(I64(op, "u")), reflect.ValueOf(int64(ix(op, "l")))}
		}
		done := source("")
		out := fn.Call(args)
		vals := done()
		if errOf(out[1]) != nil {
			return Obj{"err": true}
		}
		if l, ok := args[0].Interface().([]int64); ok { // the caller's list is his own
			for i := range l {
				l[i] += 1000
			}
		}
		v := ptr(out[0])
		s.Objs[d] = wrapP(v)
		return Obj{"err": false, "P": viewParams(v.Elem()), "nums": nums(v.Elem()), "vals": vals}
	case "PutParams":
		o := makeParams(op["P"].(map[string]interface{}))
		s.Objs[d] = o
		return Obj{"P": viewParams(valOf(o).Elem())}
	case "ProveSet", "ProveUL":
		done := source("")
		f, err := prove(s.Objs[Str(op, "p")], s.Big(op, "x"), s.Big(op, "r"))
		vals := done()
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[d] = f
		return Obj{"err": false, "pf": viewProof(valOf(f).Elem()), "nums": nums(valOf(f).Elem()), "vals": vals}
	case "Put":
		o := makeProof(op["pf"].(map[string]interface{}), op["set"].(bool))
		s.Objs[d] = o
		return Obj{"pf": viewProof(valOf(o).Elem())}
	case "Verify":
		return Obj{"ok": verify(s.Objs[Str(op, "a")], s.Objs[Str(op, "p")])}
	case "Tamper":
		v := cloneV(valOf(s.Objs[Str(op, "a")]))
		change(s, v.Elem(), op)
		v = replace(s, d, Str(op, "a"), v, wrapF)
		return Obj{"pf": viewProof(v.Elem())}
	case "TamperP":
		v := cloneV(valOf(s.Objs[Str(op, "a")]))
		b := baseOf(v.Elem())
		*b = changeG2(*b, Str(op, "how"), Big(op, "k"))
		v = replace(s, d, Str(op, "a"), v, wrapP)
		return Obj{"P": viewParams(v.Elem())}
	case "RSetup":
		o := rangeObj(s, d)
		done := source("")
		err := o.Setup(I64(op, "A"), I64(op, "B"))
		vals := done()
		if err != nil {
			return Obj{"err": true, "set": !rangeParams(o).IsNil()}
		}
		q := innerParams(o)
		if !q.IsValid() {
			return Obj{"err": false, "P": Obj{"kind": "none"}}
		}
		ns := []string{}
		numsIn(rangeParams(o), &ns)
		return Obj{"err": false, "P": viewParams(q), "nums": ns, "vals": vals}
	case "RProve":
		o := rangeObj(s, d)
		setSecret(o, Big(op, "x"), Big(op, "r"))
		done := source("")
		err := o.Prove()
		vals := done()
		if x, r := secretOf(o); x.Cmp(Big(op, "x")) != 0 || r.Cmp(Big(op, "r")) != 0 {
			panic("the secret of the prover was changed")
		}
		p1, p2 := rangeProof(o)
		return Obj{"err": err != nil, "p1": viewProof(p1), "p2": viewProof(p2), "nums": nums(field(reflect.ValueOf(o).Elem(), "proof_out")), "vals": vals}
	case "RVerify":
		ok, err := rangeObj(s, d).Verify()
		return Obj{"ok": ok && err == nil}
	case "RMake":
		o := &ccs08.ZzRange{}
		p := rangeParams(o)
		p.Set(reflect.New(p.Type().Elem()))
		fieldOfType(p.Elem(), reflect.PtrTo(tPUL), 0).Set(cloneV(valOf(s.Objs[Str(op, "p")])))
		field(p.Elem(), "a").SetInt(I64(op, "A"))
		field(p.Elem(), "b").SetInt(I64(op, "B"))
		p1, p2 := rangeProof(o)
		p1.Set(cloneV(valOf(s.Objs[Str(op, "a")])).Elem())
		p2.Set(cloneV(valOf(s.Objs[Str(op, "b")])).Elem())
		s.Objs[d] = o
		return Obj{"p1": viewProof(p1), "p2": viewProof(p2)}
	case "Half":
		p1, p2 := rangeProof(s.Objs[Str(op, "a")].(*ccs08.ZzRange))
		h := p1
		if ix(op, "i") == 2 {
			h = p2
		}
		v := cloneV(h.Addr())
		s.Objs[d] = wrapF(v)
		return Obj{"pf": viewProof(v.Elem())}
	case "ParOf":
		v := cloneV(innerParams(s.Objs[Str(op, "a")].(*ccs08.ZzRange)).Addr())
		s.Objs[d] = wrapP(v)
		return Obj{"P": viewParams(v.Elem())}
	case "Keygen":
		done := source(Str(op, "src"))
		kp, err := bb.Keygen()
		vals := done()
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[d] = key{kp.Privk, kp.Pubk}
		return Obj{"err": false, "x": BigStr(kp.Privk), "y": g1v(kp.Pubk), "vals": vals}
	case "PutKey":
		x := Big(op, "x")
		k := key{new(big.Int).Mod(x, bn256.Order), new(bn256.G1).ScalarBaseMult(x)}
		if old, ok := s.Objs[d].(key); ok && s.Mode == "reuse" { // another key in the same objects
			old.x.Set(k.x)
			k = key{old.x, Overwrite(old.y, k.y).(*bn256.G1)}
		}
		s.Objs[d] = k
		return Obj{"y": g1v(k.y)}
	case "Sign":
		m, x := s.Big(op, "m"), new(big.Int).Set(s.Objs[Str(op, "key")].(key).x)
		if s.Mode == "reuse" {
			x = s.Objs[Str(op, "key")].(key).x
		}
		pre := x.String()
		sig, err := bb.Sign(m, x)
		if m.Cmp(Big(op, "m")) != 0 || x.String() != pre {
			panic("the arguments of Sign were changed")
		}
		if err != nil {
			return Obj{"err": true}
		}
		s.Objs[d] = sig
		return Obj{"err": false, "s": g2v(sig)}
	case "PutSig":
		sig := g2Of(Str(op, "s"))
		s.Objs[d] = sig
		return Obj{"s": g2v(sig)}
	case "TamperS":
		sig := changeG2(Clone(s.Objs[Str(op, "a")]).(*bn256.G2), Str(op, "how"), Big(op, "k"))
		if d == Str(op, "a") {
			sig = Overwrite(s.Objs[d], sig).(*bn256.G2)
		}
		s.Objs[d] = sig
		return Obj{"s": g2v(sig)}
	case "BVerify":
		m := s.Big(op, "m")
		ok, err := bb.ZzVerify(s.Objs[Str(op, "a")].(*bn256.G2), m, s.Objs[Str(op, "key")].(key).y)
		if m.Cmp(Big(op, "m")) != 0 {
			panic("the message was changed")
		}
		return Obj{"ok": ok && err == nil}
	case "Par":
		runtime.GOMAXPROCS(8)
		p := s.Objs[Str(op, "p")]
		xs, rs, vs := Bigs(op, "xs"), Bigs(op, "rs"), List(op, "vs")
		pfs, errs, oks, voks := make([]Obj, len(xs)), make([]bool, len(xs)), make([]bool, len(xs)), make([]bool, len(vs))
		bad := make([]bool, len(xs)+len(vs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range xs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { bad[i] = recover() != nil }()
				<-start
				pfs[i] = Obj{}
				f, err := prove(p, xs[i], rs[i])
				errs[i] = err != nil
				if err == nil {
					oks[i] = verify(f, p)
					pfs[i] = viewProof(valOf(f).Elem())
				}
			}(i)
		}
		for i := range vs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer func() { bad[len(xs)+i] = recover() != nil }()
				<-start
				voks[i] = verify(s.Objs[vs[i].(string)], p)
			}(i)
		}
		close(start)
		wg.Wait()
		for _, b := range bad {
			if b {
				return Obj{"panic": true, "msg": "concurrent"}
			}
		}
		return Obj{"pfs": pfs, "errs": errs, "oks": oks, "voks": voks}
	case "RPar":
		runtime.GOMAXPROCS(8)
		o := s.Objs[d].(*ccs08.ZzRange)
		xs, rs := Bigs(op, "xs"), Bigs(op, "rs")
		res := make([]Obj, len(xs))
		bad := make([]bool, len(xs))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := range xs {
			q := &ccs08.ZzRange{}
			rangeParams(q).Set(rangeParams(o))
			setSecret(q, xs[i], rs[i])
			wg.Add(1)
			go func(i int, q *ccs08.ZzRange) {
				defer wg.Done()
				defer func() { bad[i] = recover() != nil }()
				<-start
				err := q.Prove()
				ok, verr := q.Verify()
				p1, p2 := rangeProof(q)
				res[i] = Obj{"err": err != nil, "ok": ok && verr == nil, "p1": viewProof(p1), "p2": viewProof(p2)}
			}(i, q)
		}
		close(start)
		wg.Wait()
		for _, b := range bad {
			if b {
				return Obj{"panic": true, "msg": "concurrent"}
			}
		}
		return Obj{"objs": res}
	}
	if Str(op, "op") == "Fail" {
		return Fail(handle, func(v interface{}) string {
			b, _ := json.Marshal(look(v))
			return string(b)
		}, s, op)
	}
	if Str(op, "op") == "Together" {
		return Together(s, op, func(*Session, Obj) {}, func(t *Session, o Obj) Obj {
			if missing(t, o) {
				return Obj{"skip": true}
			}
			return handle(t, o)
		})
	}
	panic("driver: unknown operation " + Str(op, "op"))
}

// an operation on something an earlier one refused to make is left out
func missing(s *Session, op Obj) bool {
	refs := []interface{}{}
	for _, f := range []string{"a", "b", "p", "key"} {
		if v, ok := op[f].(string); ok && Str(op, "op") != "Setup" {
			refs = append(refs, v)
		}
	}
	for _, v := range append(refs, List(op, "vs")...) {
		if _, ok := s.Objs[v.(string)]; !ok {
			return true
		}
	}
	return false
}

func handler(s *Session, op Obj) Obj {
	pre := snapshot(s)
	if missing(s, op) {
		return Obj{"skip": true, "chg": []string{}}
	}
	res := handle(s, op)
	chg := []string{}
	for k, d := range snapshot(s) {
		if o, ok := pre[k]; ok && o != d && k != Str(op, "d") {
			chg = append(chg, k)
		}
	}
	sort.Strings(chg)
	res["chg"] = chg
	return res
}

func main() { Main(handler) }
