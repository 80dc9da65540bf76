// Package vh is the common part of the conformance drivers: it reads behaviours generated from
// the TLA+ specification (one JSON object {"tid":..,"ops":[..]} per line), replays each on the real
// code and writes what the real code did, one {"tid":..,"events":[..]} per line.
package vh

import (
	"bufio"
	"crypto/rand"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	mrand "math/rand/v2"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"
)

type Obj = map[string]interface{}

type Script struct {
	Tid int   `json:"tid"`
	Ops []Obj `json:"ops"`
}

// Session is the state of one behaviour (objects created so far).
type Session struct {
	Tid  int
	Objs map[string]interface{}
	Mode string // see SetMode
	args map[string]*big.Int
	kept []kept
	late []interface{}
	own  map[string]interface{}
}

type kept struct {
	v interface{}
	d string
}

// Big is the number op[k]. In the mode "reuse" it is always the same object for k, with another value.
func (s *Session) Big(op Obj, k string) *big.Int {
	if s.Mode != "reuse" {
		return Big(op, k)
	}
	return s.arg(k, op[k])
}
func (s *Session) arg(name string, v interface{}) *big.Int {
	x := ToBig(v)
	if x == nil {
		return nil
	}
	if s.args == nil {
		s.args = map[string]*big.Int{}
	}
	o := s.args[name]
	if o == nil {
		o = new(big.Int)
		s.args[name] = o
	}
	return o.Set(x)
}

// Bigs is the same for a vector of numbers.
func (s *Session) Bigs(op Obj, k string) []*big.Int {
	if s.Mode != "reuse" {
		return Bigs(op, k)
	}
	r := []*big.Int{}
	for i, v := range List(op, k) {
		r = append(r, s.arg(k+strconv.Itoa(i), v))
	}
	return r
}

// Result tells of a result the caller has got. In the mode "keep" it must stay as it is (see KeptSame), in the mode
// "scribble" the caller writes into it before the next operation.
func (s *Session) Result(v interface{}) {
	switch s.Mode {
	case "keep":
		s.kept = append(s.kept, kept{v, Digest(v)})
	case "scribble":
		s.late = append(s.late, v)
	}
}
func (s *Session) KeptSame() bool {
	for _, k := range s.kept {
		if Digest(k.v) != k.d {
			return false
		}
	}
	return true
}
func (s *Session) scribble() {
	for _, v := range s.late {
		scribble(reflect.ValueOf(v))
	}
	s.late = nil
}
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if b, ok := v.Interface().(*big.Int); ok {
			b.Add(b, big.NewInt(1))
			return
		}
		scribble(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Uint8:
		v.SetUint(v.Uint() ^ 255)
	case reflect.Int64:
		v.SetInt(v.Int() + 1)
	}
}

// Replace puts the freshly made v into slot d. If the slot holds an object of this kind that is nobody else's,
// its contents are overwritten in every second session, so that the new value lives in the old objects.
func (s *Session) Replace(d string, v interface{}) {
	old, ok := s.Objs[d]
	if s.own == nil {
		s.own = map[string]interface{}{}
	}
	if ok && s.Tid%2 == 1 && s.own[d] == old && reflect.TypeOf(old) == reflect.TypeOf(v) {
		v = Overwrite(old, v)
	}
	s.Objs[d] = v
	s.own[d] = v
}

// Owned tells which copy was last put into slot d by Own.
func (s *Session) Owned(d string) interface{} { return s.own[d] }
func (s *Session) Own(d string, v interface{}) {
	if s.own == nil {
		s.own = map[string]interface{}{}
	}
	s.own[d] = v
}

// Overwrite gives the objects of dst the values of src (both pointers) where they differ from what dst holds.
// It returns the object that now has this value: src if dst has parts in common that should become different.
func Overwrite(dst, src interface{}) interface{} {
	was := Clone(dst)
	assign(reflect.ValueOf(dst).Elem(), reflect.ValueOf(src).Elem(), reflect.ValueOf(was).Elem())
	if Digest(dst) != Digest(src) {
		return src
	}
	return dst
}
func assign(dst, src, was reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if was.IsNil() || src.IsNil() {
			if was.IsNil() != src.IsNil() {
				dst.Set(src)
			}
			return
		}
		assign(dst.Elem(), src.Elem(), was.Elem())
	case reflect.Struct:
		if src.Type() == bigT {
			x, y, z := bigAt(dst), bigAt(src), bigAt(was)
			if y.Cmp(z) != 0 {
				x.Set(y)
			}
			return
		}
		for i := 0; i < src.NumField(); i++ {
			assign(Settable(dst.Field(i)), Settable(src.Field(i)), Settable(was.Field(i)))
		}
	case reflect.Slice:
		if was.IsNil() || src.IsNil() || was.Len() != src.Len() {
			if was.IsNil() != src.IsNil() || was.Len() != src.Len() {
				dst.Set(src)
			}
			return
		}
		for i := 0; i < src.Len(); i++ {
			assign(dst.Index(i), src.Index(i), was.Index(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			assign(dst.Index(i), src.Index(i), was.Index(i))
		}
	case reflect.Map, reflect.Interface:
		dst.Set(src)
	default:
		if !reflect.DeepEqual(src.Interface(), was.Interface()) {
			dst.Set(src)
		}
	}
}
func bigAt(v reflect.Value) *big.Int { return (*big.Int)(unsafe.Pointer(v.UnsafeAddr())) }

// Handler performs one operation on the real code and returns the observations.
type Handler func(s *Session, op Obj) Obj

func timeout() time.Duration {
	if v, err := strconv.Atoi(os.Getenv("VH_TIMEOUT")); err == nil {
		return time.Duration(v) * time.Second
	}
	return 120 * time.Second
}

func call(h Handler, s *Session, op Obj) (res Obj, hang bool) {
	ch := make(chan Obj, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				// the code has another structure than the driver knows
				if m := fmt.Sprint(r); strings.HasPrefix(m, "driver: no field") {
					fmt.Fprintln(os.Stderr, m)
					os.Exit(3)
				}
				ch <- Obj{"panic": true, "msg": clip(fmt.Sprint(r))}
			}
		}()
		ch <- h(s, op)
	}()
	for seen := beats.Load(); ; {
		select {
		case r := <-ch:
			return r, false
		case <-time.After(timeout()):
			if now := beats.Load(); now != seen {
				seen = now
				continue
			}
			return Obj{"hang": true}, true
		}
	}
}

var beats atomic.Int64

// Beat tells that an operation of many steps has finished one of them.
func Beat() { beats.Add(1) }

func clip(s string) string {
	b := []byte{}
	for i := 0; i < len(s) && i < 160; i++ {
		c := s[i]
		if c < 32 || c > 126 || c == '"' || c == '\\' {
			c = ' '
		}
		b = append(b, c)
	}
	return string(b)
}

// DRBG is a deterministic random source: replays of a script draw the same numbers.
type DRBG struct {
	mu   sync.Mutex
	seed string
	n    uint64
	buf  []byte
}

func NewDRBG(seed string) *DRBG { return &DRBG{seed: seed} }
func (d *DRBG) Read(p []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for len(d.buf) < len(p) {
		h := sha256.Sum256([]byte(d.seed + "/" + strconv.FormatUint(d.n, 10)))
		d.n++
		d.buf = append(d.buf, h[:]...)
	}
	copy(p, d.buf)
	d.buf = d.buf[len(p):]
	return len(p), nil
}

// unordered is a random source that orders nothing: the system's one shares generators between goroutines.
type unordered struct{}

func (unordered) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(mrand.Uint32() >> 8)
	}
	return len(p), nil
}

func runScript(h Handler, sc Script) []Obj {
	// A shared source would order the draws of concurrent goroutines and hide data races.
	if os.Getenv("VH_SYSRAND") == "" {
		rand.Reader = NewDRBG(os.Getenv("VERIF_SEED") + "#" + strconv.Itoa(sc.Tid))
	} else {
		rand.Reader = unordered{}
	}
	s := &Session{Tid: sc.Tid, Objs: map[string]interface{}{}}
	evs := []Obj{}
	for _, op := range sc.Ops {
		s.scribble()
		if Str(op, "op") == "Mode" { // how the session treats arguments and results
			s.Mode = Str(op, "m")
			evs = append(evs, Obj{"op": "Mode", "t": "M", "m": s.Mode, "res": Obj{"mode": true}})
			continue
		}
		res, hang := call(h, s, op)
		ev := Obj{}
		for k, v := range op {
			ev[k] = v
		}
		ev["res"] = res
		evs = append(evs, ev)
		if hang {
			break
		}
	}
	return evs
}

// Main: driver SCRIPTS OUT [tid]
func Main(h Handler) {
	in, err := os.Open(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	only := -1
	if len(os.Args) > 3 {
		only, _ = strconv.Atoi(os.Args[3])
	}
	var scripts []Script
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	for sc.Scan() {
		var s Script
		if err := json.Unmarshal(sc.Bytes(), &s); err != nil {
			fmt.Fprintln(os.Stderr, "bad script:", err)
			os.Exit(3)
		}
		if only >= 0 && s.Tid != only {
			continue
		}
		scripts = append(scripts, s)
	}
	workers := 8
	if v, err := strconv.Atoi(os.Getenv("VH_WORKERS")); err == nil {
		workers = v
	}
	out, err := os.OpenFile(os.Args[2], os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var mu sync.Mutex
	var wg sync.WaitGroup
	jobs := make(chan Script)
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := range jobs {
				evs := runScript(h, s)
				b, err := json.Marshal(Obj{"tid": s.Tid, "events": evs})
				if err != nil {
					fmt.Fprintln(os.Stderr, "cannot encode events:", err)
					os.Exit(3)
				}
				mu.Lock()
				out.Write(append(b, '\n'))
				mu.Unlock()
			}
		}()
	}
	for _, s := range scripts {
		jobs <- s
	}
	close(jobs)
	wg.Wait()
	out.Close()
}

// ---------------------------------------------------------------------------- arguments

func Str(op Obj, k string) string { s, _ := op[k].(string); return s }
func Has(op Obj, k string) bool   { _, ok := op[k]; return ok }
func ToBig(v interface{}) *big.Int {
	switch x := v.(type) {
	case string:
		if x == "nil" {
			return nil
		}
		i, ok := new(big.Int).SetString(x, 10)
		if !ok {
			panic("driver: bad number " + x)
		}
		return i
	case float64:
		return big.NewInt(int64(x))
	}
	panic(fmt.Sprintf("driver: bad number %v", v))
}
func Big(op Obj, k string) *big.Int { return ToBig(op[k]) }
func I64(op Obj, k string) int64 {
	b := ToBig(op[k])
	if !b.IsInt64() {
		panic("driver: not an int64")
	}
	return b.Int64()
}
func List(op Obj, k string) []interface{} { l, _ := op[k].([]interface{}); return l }
func Bigs(op Obj, k string) []*big.Int {
	r := []*big.Int{}
	for _, v := range List(op, k) {
		r = append(r, ToBig(v))
	}
	return r
}
func Bytes(op Obj, k string) []byte {
	r := []byte{}
	for _, v := range List(op, k) {
		r = append(r, byte(v.(float64)))
	}
	return r
}
func Hex(op Obj, k string) []byte {
	b, err := hex.DecodeString(Str(op, k))
	if err != nil {
		panic("driver: bad hex")
	}
	return b
}

// ---------------------------------------------------------------------------- results

func BigStr(b *big.Int) string {
	if b == nil {
		return "nil"
	}
	return b.String()
}
func BigStrs(l []*big.Int) []string {
	r := []string{}
	for _, b := range l {
		r = append(r, BigStr(b))
	}
	return r
}
func Ints(b []byte) []int {
	r := []int{}
	for _, x := range b {
		r = append(r, int(x))
	}
	return r
}

// ---------------------------------------------------------------------------- structural digest

// Digest is a hash of everything reachable from v (all fields, exported or not), computed without
// calling any method of the code under test; equal values have equal digests.
func Digest(v interface{}) string {
	h := sha256.New()
	walk(reflect.ValueOf(v), func(s string) { h.Write([]byte(s)) }, 0, true)
	return hex.EncodeToString(h.Sum(nil)[:8])
}

// DigestExported looks at exported fields only.
func DigestExported(v interface{}) string {
	h := sha256.New()
	walk(reflect.ValueOf(v), func(s string) { h.Write([]byte(s)) }, 0, false)
	return hex.EncodeToString(h.Sum(nil)[:8])
}

var bigT = reflect.TypeOf(big.Int{})

func walk(v reflect.Value, w func(string), depth int, all bool) {
	if depth > 60 {
		w("deep")
		return
	}
	if !v.IsValid() {
		w("nil;")
		return
	}
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			w("nil;")
			return
		}
		walk(v.Elem(), w, depth+1, all)
	case reflect.Struct:
		if v.Type() == bigT {
			if !v.CanAddr() {
				c := reflect.New(bigT).Elem()
				c.Set(v)
				v = c
			}
			b := (*big.Int)(unsafe.Pointer(v.UnsafeAddr()))
			w("#" + b.String() + ";")
			return
		}
		w(v.Type().Name() + "{")
		for i := 0; i < v.NumField(); i++ {
			if !all && v.Type().Field(i).PkgPath != "" {
				continue
			}
			w(v.Type().Field(i).Name + ":")
			walk(v.Field(i), w, depth+1, all)
		}
		w("}")
	case reflect.Slice:
		if v.IsNil() {
			w("nil;")
			return
		}
		fallthrough
	case reflect.Array:
		w("[")
		for i := 0; i < v.Len(); i++ {
			walk(v.Index(i), w, depth+1, all)
		}
		w("]")
	case reflect.Map:
		keys := v.MapKeys()
		type kv struct {
			s string
			v reflect.Value
		}
		l := []kv{}
		for _, k := range keys {
			l = append(l, kv{fmt.Sprint(k), v.MapIndex(k)})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].s < l[j].s })
		w("map[")
		for _, e := range l {
			w(e.s + "=")
			walk(e.v, w, depth+1, all)
		}
		w("]")
	case reflect.String:
		w(strconv.Quote(v.String()))
	case reflect.Bool:
		w(fmt.Sprint(v.Bool()) + ";")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w(strconv.FormatInt(v.Int(), 10) + ";")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w(strconv.FormatUint(v.Uint(), 10) + ";")
	case reflect.Float32, reflect.Float64:
		w(fmt.Sprint(v.Float()) + ";")
	default:
		w(v.Kind().String() + ";")
	}
}

// Settable gives access to a possibly unexported field.
func Settable(f reflect.Value) reflect.Value {
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

// Clone is a deep copy of v (all fields, exported or not), made without calling the code under test.
func Clone(v interface{}) interface{} {
	src := reflect.ValueOf(v)
	dst := reflect.New(src.Type()).Elem()
	cloneInto(dst, src)
	return dst.Interface()
}

func cloneInto(dst, src reflect.Value) {
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		p := reflect.New(src.Type().Elem())
		cloneInto(p.Elem(), src.Elem())
		dst.Set(p)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		c := reflect.New(src.Elem().Type()).Elem()
		cloneInto(c, src.Elem())
		dst.Set(c)
	case reflect.Struct:
		if src.Type() == bigT {
			s := src
			if !s.CanAddr() {
				s = reflect.New(bigT).Elem()
				s.Set(src)
			}
			b := (*big.Int)(unsafe.Pointer(s.UnsafeAddr()))
			(*big.Int)(unsafe.Pointer(dst.UnsafeAddr())).Set(b)
			return
		}
		if !src.CanAddr() {
			s := reflect.New(src.Type()).Elem()
			s.Set(src)
			src = s
		}
		for i := 0; i < src.NumField(); i++ {
			cloneInto(Settable(dst.Field(i)), Settable(src.Field(i)))
		}
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			cloneInto(dst.Index(i), src.Index(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cloneInto(dst.Index(i), src.Index(i))
		}
	case reflect.Map:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeMap(src.Type()))
		it := src.MapRange()
		for it.Next() {
			c := reflect.New(src.Type().Elem()).Elem()
			cloneInto(c, it.Value())
			dst.SetMapIndex(it.Key(), c)
		}
	default:
		dst.Set(src)
	}
}

// Short is the one-to-one shortening of long encodings that the specification uses as well.
func Short(h string) string {
	if len(h) <= 64 {
		return h
	}
	d := sha256.Sum256([]byte(h))
	return hex.EncodeToString(d[:20])
}

// ---------------------------------------------------------------------------- failing random sources (C29)

// faulty delivers the numbers of a DRBG, except that its k-th read fails (once, or from then on), or that it
// delivers them in small pieces.
type faulty struct {
	src   *DRBG
	k     int // 0: never
	once  bool
	part  bool // the failing read delivers something
	sizes []int
	n     int
}

func (f *faulty) Read(p []byte) (int, error) {
	f.n++
	if f.k > 0 && (f.n == f.k || (f.n > f.k && !f.once)) {
		n := 0
		if f.part {
			for n < len(p)/2 {
				p[n] = 1
				n++
			}
		}
		return n, errors.New("the random source fails")
	}
	if f.sizes != nil && len(p) > 0 {
		n := f.sizes[f.n%len(f.sizes)]
		if n > len(p) {
			n = len(p)
		}
		return f.src.Read(p[:n])
	}
	return f.src.Read(p)
}

// Fail performs the operation op["o"] with a random source that fails at each of its reads, and the operations
// op["then"] with a good one. Everything happens in a session of its own that starts like s.
func Fail(h Handler, look func(interface{}) string, s *Session, op Obj) Obj {
	o := op["o"].(Obj)
	d := Str(o, "d")
	good := rand.Reader
	defer func() { rand.Reader = good }()
	run := func(f *faulty, then bool) (made bool, what string, oks []string) {
		t := &Session{Tid: s.Tid, Objs: map[string]interface{}{}}
		for k, v := range s.Objs {
			t.Objs[k] = v
		}
		if v, ok := t.Objs[d]; ok {
			t.Objs[d] = Clone(v)
		}
		try := func(o Obj) (res Obj) {
			defer func() {
				if r := recover(); r != nil {
					if m := fmt.Sprint(r); strings.HasPrefix(m, "driver: ") {
						panic(r)
					}
					res = Obj{"panic": true}
				}
			}()
			return h(t, o)
		}
		f.src = NewDRBG("fail" + strconv.Itoa(s.Tid))
		rand.Reader = f
		r := try(o)
		if e, ok := r["err"].(bool); ok && !e {
			made, what = true, look(t.Objs[d])
		}
		rand.Reader = NewDRBG("then" + strconv.Itoa(s.Tid))
		oks = []string{}
		for _, x := range List(op, "then") {
			if !then {
				break
			}
			r := try(x.(Obj))
			for _, k := range []string{"panic", "err", "ok"} {
				if b, ok := r[k].(bool); ok && b {
					oks = append(oks, k)
				} else if ok && k == "ok" {
					oks = append(oks, "no")
				}
			}
		}
		Beat()
		return
	}
	base := &faulty{}
	made, want, oks := run(base, true)
	_, want2, _ := run(&faulty{}, false)
	fixed := want == want2 // the result depends on nothing but the numbers drawn
	odd := []Obj{}
	step := 1
	if v, ok := op["step"].(float64); ok {
		step = int(v)
	}
	sent := strings.Join(strs(op, "want"), " ")
	for k := 1; k <= base.n; k++ {
		if k%step != 0 && k > 4 && k < base.n-4 {
			continue
		}
		for v := 0; v < 4; v++ {
			f := &faulty{k: k, once: v%2 == 1, part: v/2 == 1}
			// what follows is looked at in some of the cases
			then := v%3 == 0 && (k <= 2 || k == base.n || k%5 == 0)
			m, w, ok := run(f, then)
			if m || then && strings.Join(ok, " ") != sent {
				odd = append(odd, Obj{"k": k, "once": f.once, "part": f.part, "made": m, "same": w == want || !fixed, "then": then, "oks": ok})
			}
		}
	}
	slow := []bool{}
	for _, sizes := range [][]int{{1}, {0, 3, 1, 0, 7}, {31}, {16}} {
		m, w, _ := run(&faulty{sizes: sizes}, false)
		slow = append(slow, m == made && (w == want || !fixed))
	}
	return Obj{"made": made, "reads": base.n, "oks": oks, "odd": odd, "slow": slow}
}
func strs(op Obj, k string) []string {
	r := []string{}
	for _, v := range List(op, k) {
		r = append(r, v.(string))
	}
	return r
}

// Together performs every operation of op["ops"] in a goroutine of its own, all at the same time. Each of them works in
// a session of its own that starts like s: they share what was there before, and each keeps what it makes.
func Together(s *Session, op Obj, prep func(*Session, Obj), do func(*Session, Obj) Obj) Obj {
	runtime.GOMAXPROCS(8)
	ops := List(op, "ops")
	rs := make([]Obj, len(ops))
	ts := make([]*Session, len(ops))
	for i := range ops {
		ts[i] = &Session{Tid: s.Tid, Objs: map[string]interface{}{}}
		for k, v := range s.Objs {
			ts[i].Objs[k] = v
		}
		prep(ts[i], ops[i].(Obj))
	}
	together.Add(1)
	defer together.Add(-1)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					if m := fmt.Sprint(r); strings.HasPrefix(m, "driver: ") {
						fmt.Fprintln(os.Stderr, m)
						os.Exit(3)
					}
					rs[i] = Obj{"panic": true}
				}
			}()
			<-start
			rs[i] = do(ts[i], ops[i].(Obj))
			Beat()
		}(i)
	}
	close(start)
	wg.Wait()
	return Obj{"rs": rs}
}

var together atomic.Int32

// InTogether tells that operations of one session run at the same time.
func InTogether() bool { return together.Load() > 0 }
