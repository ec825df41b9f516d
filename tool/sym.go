package main

// Symbolic values, memory model and state.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strings"
)

type Val struct {
	T       types.Type
	t       *Term          // scalar
	c       []*Val         // components
	dyn     types.Type     // statically known dynamic type for interfaces
	untyped constant.Value // untyped constant in specs
	fn      *types.Func
	lit     *ast.FuncLit
	loc     *Loc     // spec-only: location of a composite value
	uptr    *Term    // address converted to uintptr
	udiff   [2]*Term // difference of two such addresses
	uelem   types.Type
}

// SeqT is the spec-only type of mathematical sequences (total maps from int).
type SeqT struct{ Elem types.Type }

func (s *SeqT) Underlying() types.Type { return s }
func (s *SeqT) String() string         { return "seq " + s.Elem.String() }

// MapRT: spec-only total map from references.
type MapRT struct{ Elem types.Type }

func (s *MapRT) Underlying() types.Type { return s }
func (s *MapRT) String() string         { return "rmap " + s.Elem.String() }

// RefT: spec-only raw reference.
type RefT struct{}

func (s *RefT) Underlying() types.Type { return s }
func (s *RefT) String() string         { return "ref" }

// MathInt: spec-only mathematical integer
var mathInt = types.Typ[types.UntypedInt]

type Leaf struct {
	name string
	s    *Sort
	T    types.Type
	kind string // "", "off", "len", "cap" for slices; "ref"
}

type Cfg struct {
	bv     bool
	floats string
}

func idxSort() *Sort {
	if bvMode {
		return BVS(64)
	}
	return IntS
}

func idxC(n int64) *Term {
	if bvMode {
		return BVC(big.NewInt(n), 64)
	}
	return IntC(n)
}

func intInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return
}

func isIntT(t types.Type) bool { _, _, ok := intInfo(t); return ok }

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func intRange(w int, signed bool) (lo, hi *big.Int) {
	one := big.NewInt(1)
	if signed {
		hi = new(big.Int).Sub(new(big.Int).Lsh(one, uint(w-1)), one)
		lo = new(big.Int).Neg(new(big.Int).Lsh(one, uint(w-1)))
		return
	}
	return big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(one, uint(w)), one)
}

var floatMode = "uf"

func floatSort(t types.Type) *Sort {
	b := t.Underlying().(*types.Basic)
	is64 := b.Kind() == types.Float64 || b.Kind() == types.UntypedFloat
	switch floatMode {
	case "fp":
		if is64 {
			return FP64S
		}
		return FP32S
	case "real":
		return RealS
	}
	if is64 {
		return UnintS("F64")
	}
	return UnintS("F32")
}

var RealS = mkSort(Sort{K: SUnint, Name: "Real"})

type unsupported struct{ msg string }

func unsup(format string, a ...interface{}) {
	panic(unsupported{fmt.Sprintf(format, a...)})
}

// scalarSort: sort of a single-leaf type.
func scalarSort(t types.Type) *Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			return BoolS
		}
		if w, _, ok := intInfo(t); ok {
			if bvMode {
				return BVS(w)
			}
			return IntS
		}
		if u.Info()&types.IsFloat != 0 {
			return floatSort(t)
		}
		if u.Info()&types.IsString != 0 {
			return UnintS("Str")
		}
		if u.Kind() == types.UntypedNil || u.Kind() == types.UnsafePointer {
			return RefS
		}
	case *types.Pointer, *types.Interface, *types.Map, *types.Chan, *types.Signature:
		return RefS
	case *SeqT:
		return ArrS(idxSort(), scalarSort(u.Elem))
	case *MapRT:
		return ArrS(RefS, scalarSort(u.Elem))
	case *RefT:
		return RefS
	}
	unsup("scalar sort of %v", t)
	return nil
}

func isComposite(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// cell pointer: pointer to non-composite
func isCellPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && !isComposite(p.Elem())
}

func leaves(t types.Type) []Leaf {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return []Leaf{{".arr", RefS, t, "arr"}, {".off", idxSort(), t, "off"}, {".len", idxSort(), t, "len"}, {".cap", idxSort(), t, "cap"}}
	case *types.Pointer:
		if isCellPtr(t) {
			return []Leaf{{".arr", RefS, t, "arr"}, {".idx", idxSort(), t, "idx"}}
		}
	case *types.Struct:
		var ls []Leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				l.name = "." + u.Field(i).Name() + l.name
				ls = append(ls, l)
			}
		}
		return ls
	case *types.Array:
		if isComposite(u.Elem()) {
			var ls []Leaf
			if u.Len() > 64 {
				unsup("array value of %d composite elements", u.Len())
			}
			for i := int64(0); i < u.Len(); i++ {
				for _, l := range leaves(u.Elem()) {
					l.name = fmt.Sprintf("[%d]%s", i, l.name)
					ls = append(ls, l)
				}
			}
			return ls
		}
		var ls []Leaf
		for _, l := range leaves(u.Elem()) {
			l.s = ArrS(idxSort(), l.s)
			l.name = "[]" + l.name
			l.kind = "array"
			ls = append(ls, l)
		}
		return ls
	case *types.Tuple:
		var ls []Leaf
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				l.name = fmt.Sprintf("#%d%s", i, l.name)
				ls = append(ls, l)
			}
		}
		return ls
	}
	return []Leaf{{"", scalarSort(t), t, ""}}
}

// build a Val of type t from leaf terms
func fromLeaves(t types.Type, ts []*Term) *Val {
	v, rest := fromLeaves1(t, ts)
	if len(rest) != 0 {
		panic("fromLeaves: extra")
	}
	return v
}

func fromLeaves1(t types.Type, ts []*Term) (*Val, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &Val{T: t, c: []*Val{{t: ts[0]}, {t: ts[1]}, {t: ts[2]}, {t: ts[3]}}}, ts[4:]
	case *types.Pointer:
		if isCellPtr(t) {
			return &Val{T: t, c: []*Val{{t: ts[0]}, {t: ts[1]}}}, ts[2:]
		}
	case *types.Struct:
		v := &Val{T: t}
		for i := 0; i < u.NumFields(); i++ {
			var f *Val
			f, ts = fromLeaves1(u.Field(i).Type(), ts)
			v.c = append(v.c, f)
		}
		return v, ts
	case *types.Array:
		v := &Val{T: t}
		if isComposite(u.Elem()) {
			for i := int64(0); i < u.Len(); i++ {
				var f *Val
				f, ts = fromLeaves1(u.Elem(), ts)
				v.c = append(v.c, f)
			}
			return v, ts
		}
		for range leaves(u.Elem()) {
			v.c = append(v.c, &Val{t: ts[0]})
			ts = ts[1:]
		}
		return v, ts
	case *types.Tuple:
		v := &Val{T: t}
		for i := 0; i < u.Len(); i++ {
			var f *Val
			f, ts = fromLeaves1(u.At(i).Type(), ts)
			v.c = append(v.c, f)
		}
		return v, ts
	}
	return &Val{T: t, t: ts[0]}, ts[1:]
}

func (v *Val) leafTerms() []*Term {
	if v.t != nil {
		return []*Term{v.t}
	}
	var ts []*Term
	for _, c := range v.c {
		ts = append(ts, c.leafTerms()...)
	}
	return ts
}

func sliceVal(t types.Type, arr, off, ln, cp *Term) *Val {
	return &Val{T: t, c: []*Val{{t: arr}, {t: off}, {t: ln}, {t: cp}}}
}
func (v *Val) arr() *Term { return v.c[0].t }
func (v *Val) off() *Term { return v.c[1].t }
func (v *Val) ln() *Term  { return v.c[2].t }
func (v *Val) cp() *Term  { return v.c[3].t }

func elemTypeOf(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return elemTypeOf(u.Elem())
	case *SeqT:
		return u.Elem
	}
	unsup("element type of %v", t)
	return nil
}

// ---- State ----

type State struct {
	pc     *Term
	vars   map[types.Object]*Val
	heap   map[string]*Term
	ghost  map[string]*Val
	hp     *Term
	defers []*ast.CallExpr
}

func (s *State) clone() *State {
	n := &State{pc: s.pc, hp: s.hp, vars: make(map[types.Object]*Val, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), ghost: make(map[string]*Val, len(s.ghost))}
	for k, v := range s.vars {
		n.vars[k] = v
	}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.defers = append([]*ast.CallExpr{}, s.defers...)
	return n
}

func (s *State) set(o *State) { *s = *o }

type Oblig struct {
	Name   string
	Kind   string
	Pos    token.Pos
	NFacts int
	PC     *Term
	Goal   *Term
	Src    string
	// result
	Status     string
	Solver     string
	MS         int64
	Model      string
	Script     string
	Core       string
	ExtraFacts []*Term
}

type writeSet struct {
	vars  map[types.Object]bool
	heap  map[string]map[*Term]bool // key -> target refs (nil map entry value = all)
	all   map[string]bool
	pats  map[string][]wpat // element targets with a loop-invariant array
	ghost map[string]bool
	alloc bool
	skip  map[string]bool // heap keys that are back at their start value whenever the loop goes round
	vskip map[types.Object]bool
}

// wpat: sub^path(elem(arr, *))
type wpat struct {
	arr  *Term
	path []int
}

func (p wpat) same(q wpat) bool {
	if p.arr != q.arr || len(p.path) != len(q.path) {
		return false
	}
	for i := range p.path {
		if p.path[i] != q.path[i] {
			return false
		}
	}
	return true
}

func (w *writeSet) addPat(k string, p wpat) bool {
	for _, q := range w.pats[k] {
		if p.same(q) {
			return false
		}
	}
	w.pats[k] = append(w.pats[k], p)
	return true
}

// patOf decomposes a write target into an element pattern.
func patOf(t *Term) (wpat, bool) {
	var path []int
	x := t
	for x.Op == "sub" {
		if !isNum(x.Args[1]) {
			return wpat{}, false
		}
		path = append([]int{int(x.Args[1].Num.Int64())}, path...)
		x = x.Args[0]
	}
	if x.Op != "elem" {
		return wpat{}, false
	}
	return wpat{x.Args[0], path}, true
}

func newWriteSet() *writeSet {
	return &writeSet{vars: map[types.Object]bool{}, heap: map[string]map[*Term]bool{}, all: map[string]bool{}, pats: map[string][]wpat{}, ghost: map[string]bool{}}
}

type Frame struct {
	fn           *types.Func
	decl         *ast.FuncDecl
	lit          *ast.FuncLit
	pkg          *Pkg
	entry        map[string]*Val // parameter entry values by name
	addr         map[types.Object]bool
	parent       *Frame
	callPath     string
	results      []*types.Var
	namedResults bool
}

type Exec struct {
	prog       *Program
	specs      *Specs
	c          *Contract
	key        string
	facts      []*Term
	obls       []*Oblig
	frame      *Frame
	entry      *State
	heap0      map[string]*Term
	heapSort   map[string]*Sort
	ws         *writeSet // non-nil: recording
	dry        int
	loopOrd    map[string]int
	loopN      int
	used       map[string]bool // contracts used modularly
	inlined    map[string]bool
	externs    map[string]bool
	notes      map[string]bool
	hookN      map[string]int
	exitCtx    *SpecCtx
	counts     map[string]int
	covers     []*Oblig
	depth      int
	globFacts  map[string]bool
	loopsNoDec int
	loopsSeen  int
	unrolled   int
	letVals    map[string]*Val
	uniq       int
	lemInst    map[string]bool
	recFns     map[string]bool
	openFns    map[string]bool // opaque spec functions this contract may look into
	axDone     map[string]bool
	prologue   []*Term
	noOblig    int
	unsups     []string
	fresh0     *Term
	quantFacts *[]*Term
	rootFrame  *Frame
	recDepth   int
	inputs     []*Term
	frameTg    map[string][]modTarget
	lemPkg     *Pkg
}

func (ex *Exec) heapGet(st *State, key string, s *Sort) *Term {
	if t, ok := st.heap[key]; ok {
		return t
	}
	t, ok := ex.heap0[key]
	if !ok {
		t = Fresh("H0_"+key, s)
		ex.heap0[key] = t
		ex.heapSort[key] = s
	}
	return t
}

func (ex *Exec) heapSet(st *State, key string, v *Term, target *Term) {
	if ex.ws != nil {
		if target == nil {
			ex.ws.all[key] = true
		} else {
			m := ex.ws.heap[key]
			if m == nil {
				m = map[*Term]bool{}
				ex.ws.heap[key] = m
			}
			m[target] = true
		}
	}
	if _, ok := ex.heapSort[key]; !ok {
		ex.heapGet(st, key, v.S)
	}
	st.heap[key] = v
}

// heapSetPat: a write confined to sub^path(elem(arr, *)).
func (ex *Exec) heapSetPat(st *State, key string, v, arr *Term, path []int) {
	if ex.ws != nil {
		ex.ws.addPat(key, wpat{arr, path})
		sv := ex.ws
		ex.ws = nil
		ex.heapSet(st, key, v, nil)
		ex.ws = sv
		return
	}
	ex.heapSet(st, key, v, nil)
}

func (ex *Exec) assume(st *State, f *Term) {
	if f == True {
		return
	}
	ex.facts = append(ex.facts, Imp(st.pc, f))
	if st.pc == True {
		noteApart(f)
	}
}

func typeKey(t types.Type) string {
	s := types.TypeString(t, func(p *types.Package) string { return p.Name() })
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = aliasName.ReplaceAllStringFunc(s, func(w string) string { return map[string]string{"byte": "uint8", "rune": "int32"}[w] })
	}
	return s
}

// byte and rune are other names of uint8 and int32
var aliasName = regexp.MustCompile(`\b(byte|rune)\b`)

// ranges of a leaf
func markRange(t *Term, T types.Type) *Term {
	if t.S != IntS || isNum(t) {
		return t
	}
	if w, s, ok := intInfo(T); ok {
		lo, hi := intRange(w, s)
		if T.Underlying().(*types.Basic).Kind() == types.UntypedInt {
			return t
		}
		if t.lo == nil || t.lo.Cmp(lo) < 0 {
			t.lo = lo
		}
		if t.hi == nil || t.hi.Cmp(hi) > 0 {
			t.hi = hi
		}
	}
	return t
}

var maxLen = new(big.Int).Lsh(big.NewInt(1), 40)

// wf emits the type invariants of value v (loaded or havocked).
func (ex *Exec) wfFacts(v *Val, T types.Type, hp *Term) []*Term {
	var fs []*Term
	switch u := T.Underlying().(type) {
	case *types.Slice:
		a, o, l, c := v.arr(), v.off(), v.ln(), v.cp()
		if !bvMode {
			for _, x := range []*Term{o, l, c} {
				if !isNum(x) {
					if x.Op == "const" || x.Op == "select" || x.Op == "app" {
						if x.lo == nil {
							x.lo = big.NewInt(0)
						}
						if x.hi == nil {
							x.hi = maxLen
						}
					}
				}
			}
			fs = append(fs, Le(IntC(0), o), Le(IntC(0), l), Le(l, c), Imp(Eq(a, Null()), Eq(c, IntC(0))), Le(Add(o, c), BigC(maxLen)))
		} else {
			z := idxC(0)
			mx := BVC(maxLen, 64)
			fs = append(fs, bvcmp("bvsle", z, o), bvcmp("bvsle", z, l), bvcmp("bvsle", l, c), bvcmp("bvsle", c, mx), bvcmp("bvsle", o, mx), Imp(Eq(a, Null()), Eq(c, z)))
		}
		if hp != nil {
			fs = append(fs, Lt(Root(a), hp))
		}
	case *types.Pointer:
		if isCellPtr(T) {
			fs = append(fs, Imp(Eq(v.c[0].t, Null()), Eq(v.c[1].t, idxC(0))), idxLe(idxC(0), v.c[1].t), idxLe(v.c[1].t, idxC(1<<40)))
			if hp != nil {
				fs = append(fs, Lt(Root(v.c[0].t), hp))
			}
		} else if hp != nil {
			fs = append(fs, Lt(Root(v.t), hp))
		}
	case *types.Interface:
		if hp != nil {
			fs = append(fs, Lt(Root(v.t), hp))
		}
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, ex.wfFacts(v.c[i], u.Field(i).Type(), hp)...)
		}
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, ex.wfFacts(v.c[i], u.At(i).Type(), hp)...)
		}
	case *types.Basic:
		if v.t != nil && isIntT(T) {
			markRange(v.t, T)
		}
	case *types.Array:
		if isComposite(u.Elem()) {
			for _, c := range v.c {
				fs = append(fs, ex.wfFacts(c, u.Elem(), hp)...)
			}
		}
	}
	return fs
}

func bvcmp(op string, a, b *Term) *Term {
	if isNum(a) && isNum(b) {
		x, y := new(big.Int).Set(a.Num), new(big.Int).Set(b.Num)
		if strings.HasPrefix(op, "bvs") {
			m := new(big.Int).Lsh(big.NewInt(1), uint(a.S.N))
			h := new(big.Int).Rsh(m, 1)
			if x.Cmp(h) >= 0 {
				x.Sub(x, m)
			}
			if y.Cmp(h) >= 0 {
				y.Sub(y, m)
			}
		}
		switch op[3:] {
		case "le":
			return BoolC(x.Cmp(y) <= 0)
		case "lt":
			return BoolC(x.Cmp(y) < 0)
		}
	}
	if a == b {
		return BoolC(op[3:] == "le")
	}
	return mkop(op, BoolS, a, b)
}

// fresh value of a type
func (ex *Exec) freshVal(name string, T types.Type, st *State) *Val {
	var ts []*Term
	for _, l := range leaves(T) {
		x := Fresh(name+l.name, l.s)
		ts = append(ts, x)
	}
	v := fromLeaves(T, ts)
	if st != nil {
		for _, f := range ex.wfFacts(v, T, st.hp) {
			ex.facts = append(ex.facts, f)
		}
	}
	return v
}

// ---- Locations ----

type Loc struct {
	kind string // var, field, elem, ref (composite at reference), global ghost
	obj  types.Object
	ref  *Term
	key  string
	idx  *Term
	T    types.Type
	st   types.Type // struct type for field
	name string
}

func (ex *Exec) load(st *State, l Loc) *Val {
	switch l.kind {
	case "var":
		v, ok := st.vars[l.obj]
		if !ok {
			unsup("read of unknown variable %s", l.obj.Name())
		}
		return v
	case "field":
		var ts []*Term
		for _, lf := range leaves(l.T) {
			k := l.key + lf.name
			h := ex.heapGet(st, k, ArrS(RefS, lf.s))
			ts = append(ts, Select(h, l.ref))
		}
		v := fromLeaves(l.T, ts)
		ex.loadFacts(st, v, l.T)
		return v
	case "elem":
		var ts []*Term
		for _, lf := range leaves(l.T) {
			k := "A:" + typeKey(l.T) + lf.name
			h := ex.heapGet(st, k, ArrS(RefS, ArrS(idxSort(), lf.s)))
			ts = append(ts, Select(Select(h, l.ref), l.idx))
		}
		v := fromLeaves(l.T, ts)
		ex.loadFacts(st, v, l.T)
		return v
	case "ref":
		return ex.loadComposite(st, l.ref, l.T)
	}
	panic("load " + l.kind)
}

var specQuant int // >0 while evaluating under a quantifier

func (ex *Exec) loadFacts(st *State, v *Val, T types.Type) {
	fs := ex.wfFacts(v, T, st.hp)
	for _, f := range fs {
		if f == True {
			continue
		}
		if f.hasBV {
			if ex.quantFacts != nil {
				*ex.quantFacts = append(*ex.quantFacts, f)
			}
			continue
		}
		ex.facts = append(ex.facts, f)
	}
	if ex.quantFacts != nil {
		for _, t := range v.leafTerms() {
			if t.hasBV && t.S == IntS && t.lo != nil && t.hi != nil && !isNum(t) {
				*ex.quantFacts = append(*ex.quantFacts, mkop("<=", BoolS, BigC(t.lo), t), mkop("<=", BoolS, t, BigC(t.hi)))
			}
		}
	}
}

func (ex *Exec) loadComposite(st *State, ref *Term, T types.Type) *Val {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		v := &Val{T: T}
		for i := 0; i < u.NumFields(); i++ {
			v.c = append(v.c, ex.load(st, ex.fieldLoc(ref, T, i)))
		}
		return v
	case *types.Array:
		v := &Val{T: T}
		if isComposite(u.Elem()) {
			if u.Len() > 64 {
				unsup("array value with %d elements", u.Len())
			}
			for i := int64(0); i < u.Len(); i++ {
				v.c = append(v.c, ex.loadComposite(st, Elem(ref, idxC(i)), u.Elem()))
			}
			return v
		}
		for _, lf := range leaves(u.Elem()) {
			h := ex.heapGet(st, "A:"+typeKey(u.Elem())+lf.name, ArrS(RefS, ArrS(idxSort(), lf.s)))
			v.c = append(v.c, &Val{t: Select(h, ref)})
		}
		return v
	}
	panic("loadComposite")
}

func (ex *Exec) fieldLoc(ref *Term, T types.Type, i int) Loc {
	u := T.Underlying().(*types.Struct)
	f := u.Field(i)
	if isComposite(f.Type()) {
		return Loc{kind: "ref", ref: SubR(ref, fieldUID(T, i)), T: f.Type()}
	}
	return Loc{kind: "field", ref: ref, key: typeKey(T) + "." + f.Name(), T: f.Type(), st: T}
}

var fieldUIDs = map[string]int{}

func fieldUID(T types.Type, i int) int {
	k := fmt.Sprintf("%s#%d", typeKey(T), i)
	if n, ok := fieldUIDs[k]; ok {
		return n
	}
	n := len(fieldUIDs) + 1
	fieldUIDs[k] = n
	return n
}

func (ex *Exec) elemLoc(arr, idx *Term, elemT types.Type) Loc {
	if isComposite(elemT) {
		return Loc{kind: "ref", ref: Elem(arr, idx), T: elemT}
	}
	return Loc{kind: "elem", ref: arr, idx: idx, T: elemT}
}

func (ex *Exec) store(st *State, l Loc, v *Val) {
	switch l.kind {
	case "blank":
		return
	case "var":
		if ex.ws != nil {
			ex.ws.vars[l.obj] = true
		}
		nv := *v
		nv.T = l.T
		if _, isI := l.T.Underlying().(*types.Interface); isI && v.dyn == nil && v.T != nil {
			if _, vi := v.T.Underlying().(*types.Interface); !vi {
				nv.dyn = v.T
			}
		}
		st.vars[l.obj] = &nv
	case "field":
		ts := v.leafTerms()
		for i, lf := range leaves(l.T) {
			k := l.key + lf.name
			h := ex.heapGet(st, k, ArrS(RefS, lf.s))
			ex.heapSet(st, k, Store(h, l.ref, ts[i]), l.ref)
		}
	case "elem":
		ts := v.leafTerms()
		for i, lf := range leaves(l.T) {
			k := "A:" + typeKey(l.T) + lf.name
			h := ex.heapGet(st, k, ArrS(RefS, ArrS(idxSort(), lf.s)))
			ex.heapSet(st, k, Store(h, l.ref, Store(Select(h, l.ref), l.idx, ts[i])), l.ref)
		}
	case "ref":
		ex.storeComposite(st, l.ref, l.T, v)
	default:
		panic("store " + l.kind)
	}
}

func (ex *Exec) storeComposite(st *State, ref *Term, T types.Type, v *Val) {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			ex.store(st, ex.fieldLoc(ref, T, i), v.c[i])
		}
	case *types.Array:
		if isComposite(u.Elem()) {
			for i := int64(0); i < u.Len(); i++ {
				ex.storeComposite(st, Elem(ref, idxC(i)), u.Elem(), v.c[i])
			}
			return
		}
		for i, lf := range leaves(u.Elem()) {
			k := "A:" + typeKey(u.Elem()) + lf.name
			h := ex.heapGet(st, k, ArrS(RefS, ArrS(idxSort(), lf.s)))
			ex.heapSet(st, k, Store(h, ref, v.c[i].t), ref)
		}
	}
}

// allocation of a fresh object id
func (ex *Exec) alloc(st *State) *Term {
	r := Obj(st.hp)
	st.hp = Add(st.hp, IntC(1))
	if ex.ws != nil {
		ex.ws.alloc = true
	}
	return r
}

// zero value
func (ex *Exec) zero(T types.Type) *Val {
	var ts []*Term
	for _, l := range leaves(T) {
		ts = append(ts, zeroTerm(l.s, l))
	}
	return fromLeaves(T, ts)
}

func zeroTerm(s *Sort, l Leaf) *Term {
	switch s.K {
	case SBool:
		return False
	case SInt:
		return IntC(0)
	case SBV:
		return BVC(big.NewInt(0), s.N)
	case SRef:
		return Null()
	case SFP:
		if s.N == 32 {
			return fpLit(0, 32)
		}
		return fpLit(0, 64)
	case SArray:
		return ConstArr(s, zeroTerm(s.B, Leaf{s: s.B}))
	case SUnint:
		switch s.Name {
		case "Real":
			return TF.mk(Term{Op: "lit", Name: "0.0", S: RealS})
		case "Str":
			return App("str_empty", s)
		}
		return App("zero_"+s.Name, s)
	}
	panic("zeroTerm")
}

func fpLit(f float64, w int) *Term {
	if w == 32 {
		b := math.Float32bits(float32(f))
		return TF.mk(Term{Op: "lit", Name: fmt.Sprintf("(fp #b%01b #b%08b #b%023b)", b>>31, (b>>23)&0xff, b&0x7fffff), S: FP32S})
	}
	b := math.Float64bits(f)
	return TF.mk(Term{Op: "lit", Name: fmt.Sprintf("(fp #b%01b #b%011b #b%052b)", b>>63, (b>>52)&0x7ff, b&(1<<52-1)), S: FP64S})
}

func realLit(f float64) *Term {
	r := new(big.Rat).SetFloat64(f)
	if r == nil {
		unsup("non-finite real literal")
	}
	n, d := r.Num(), r.Denom()
	var s string
	if n.Sign() < 0 {
		s = fmt.Sprintf("(- (/ %s.0 %s.0))", new(big.Int).Neg(n), d)
	} else {
		s = fmt.Sprintf("(/ %s.0 %s.0)", n, d)
	}
	if f == 0 {
		s = "0.0"
	}
	return TF.mk(Term{Op: "lit", Name: s, S: RealS})
}

func floatConst(cv constant.Value, T types.Type) *Term {
	b := T.Underlying().(*types.Basic)
	is64 := b.Kind() == types.Float64 || b.Kind() == types.UntypedFloat
	var f float64
	if is64 {
		f, _ = constant.Float64Val(cv)
	} else {
		f32, _ := constant.Float32Val(cv)
		f = float64(f32)
	}
	switch floatMode {
	case "fp":
		if is64 {
			return fpLit(f, 64)
		}
		return fpLit(f, 32)
	case "real":
		return realLit(f)
	}
	s := floatSort(T)
	if f == 0 && !math.Signbit(f) {
		return App("zero_"+s.Name, s)
	}
	return App(fmt.Sprintf("lit_%s_%x", s.Name, math.Float64bits(f)), s)
}

func (ex *Exec) constVal(cv constant.Value, T types.Type) *Val {
	switch {
	case isBoolT(T):
		return &Val{T: T, t: BoolC(constant.BoolVal(cv))}
	case isStringT(T):
		s := constant.StringVal(cv)
		if s == "" {
			return &Val{T: T, t: App("str_empty", UnintS("Str"))}
		}
		return &Val{T: T, t: App("str_"+fmt.Sprintf("%x", s), UnintS("Str"))}
	case isFloatT(T):
		return &Val{T: T, t: floatConst(constant.ToFloat(cv), T)}
	case isIntT(T):
		i := constant.ToInt(cv)
		n, ok := new(big.Int).SetString(i.ExactString(), 10)
		if !ok {
			unsup("constant %v", cv)
		}
		return &Val{T: T, t: intConst(n, T)}
	}
	unsup("constant of type %v", T)
	return nil
}

func intConst(n *big.Int, T types.Type) *Term {
	if bvMode {
		w, _, _ := intInfo(T)
		return BVC(n, w)
	}
	return BigC(n)
}

// ---- merging ----

func mergeTerm(c, a, b *Term) *Term {
	return Ite(c, a, b)
}

func (ex *Exec) mergeVal(c *Term, a, b *Val) *Val {
	if a == b {
		return a
	}
	if a == nil || b == nil {
		return nil
	}
	ta, tb := a.leafTerms(), b.leafTerms()
	if len(ta) != len(tb) {
		return nil
	}
	if a.T == nil {
		return nil
	}
	if _, isTup := a.T.(*types.Tuple); !isTup && len(ta) == 0 {
		return a
	}
	ts := make([]*Term, len(ta))
	for i := range ta {
		if ta[i].S != tb[i].S {
			return nil
		}
		ts[i] = mergeTerm(c, ta[i], tb[i])
	}
	v := fromLeaves(a.T, ts)
	if a.dyn != nil && b.dyn != nil && types.Identical(a.dyn, b.dyn) {
		v.dyn = a.dyn
	}
	if a.fn == b.fn {
		v.fn = a.fn
	}
	if a.lit == b.lit {
		v.lit = a.lit
	}
	return v
}

func (ex *Exec) merge(a, b *State) *State {
	if a == nil || a.pc == False {
		return b
	}
	if b == nil || b.pc == False {
		return a
	}
	ca := conj(a.pc)
	inB := map[int]bool{}
	for _, x := range conj(b.pc) {
		inB[x.id] = true
	}
	var ra []*Term
	for _, x := range ca {
		if !inB[x.id] {
			ra = append(ra, x)
		}
	}
	c := And(ra...)
	n := &State{pc: orPC(a.pc, b.pc), vars: map[types.Object]*Val{}, heap: map[string]*Term{}, ghost: map[string]*Val{}}
	for k, v := range a.vars {
		w, ok := b.vars[k]
		if !ok {
			continue
		}
		if m := ex.mergeVal(c, v, w); m != nil {
			n.vars[k] = m
		}
	}
	keys := map[string]bool{}
	for k := range a.heap {
		keys[k] = true
	}
	for k := range b.heap {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		s := ex.heapSort[k]
		x, y := ex.heapGet(a, k, s), ex.heapGet(b, k, s)
		if x == y {
			n.heap[k] = x
			continue
		}
		n.heap[k] = ex.mergeHeap(c, x, y)
	}
	for k, v := range a.ghost {
		if w, ok := b.ghost[k]; ok {
			if m := ex.mergeVal(c, v, w); m != nil {
				n.ghost[k] = m
			}
		}
	}
	n.hp = Ite(c, a.hp, b.hp)
	if n.hp.Op == "ite" {
		h := Fresh("hp", IntS)
		ex.facts = append(ex.facts, Le(a.hp, h), Le(b.hp, h))
		TF.hpFrom[h.id] = []*Term{a.hp, b.hp}
		n.hp = h
	}
	if len(a.defers) > len(b.defers) {
		n.defers = a.defers
	} else {
		n.defers = b.defers
	}
	return n
}

// mergeHeap: when one is a store of the other push the ite into the stored value.
func (ex *Exec) mergeHeap(c, x, y *Term) *Term {
	if x.Op == "store" && x.Args[0] == y {
		return Store(y, x.Args[1], mergeInner(c, x.Args[2], Select(y, x.Args[1])))
	}
	if y.Op == "store" && y.Args[0] == x {
		return Store(x, y.Args[1], mergeInner(c, Select(x, y.Args[1]), y.Args[2]))
	}
	if x.Op == "store" && y.Op == "store" && x.Args[0] == y.Args[0] && x.Args[1] == y.Args[1] {
		return Store(x.Args[0], x.Args[1], mergeInner(c, x.Args[2], y.Args[2]))
	}
	return Ite(c, x, y)
}

func mergeInner(c, x, y *Term) *Term {
	if x.S.K == SArray && x != y {
		if x.Op == "store" && x.Args[0] == y {
			return Store(y, x.Args[1], mergeInner(c, x.Args[2], Select(y, x.Args[1])))
		}
		if y.Op == "store" && y.Args[0] == x {
			return Store(x, y.Args[1], mergeInner(c, Select(x, y.Args[1]), y.Args[2]))
		}
		if x.Op == "store" && y.Op == "store" && x.Args[0] == y.Args[0] && x.Args[1] == y.Args[1] {
			return Store(x.Args[0], x.Args[1], mergeInner(c, x.Args[2], y.Args[2]))
		}
	}
	return Ite(c, x, y)
}

func (ex *Exec) mergeAll(ss []*State) *State {
	var r *State
	for _, s := range ss {
		if s == nil || s.pc == False {
			continue
		}
		if r == nil {
			r = s
		} else {
			r = ex.merge(r, s)
		}
	}
	return r
}
