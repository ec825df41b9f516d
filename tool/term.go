package main

// Hash-consed SMT terms with light simplification and interval tracking.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type SortKind int

const (
	SBool SortKind = iota
	SInt
	SBV
	SFP // 32 or 64
	SArray
	SRef
	SUnint
	SRM
)

type Sort struct {
	K    SortKind
	N    int // width
	A, B *Sort
	Name string
	str  string
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	var str string
	switch s.K {
	case SBool:
		str = "Bool"
	case SInt:
		str = "Int"
	case SBV:
		str = fmt.Sprintf("(_ BitVec %d)", s.N)
	case SFP:
		if s.N == 32 {
			str = "(_ FloatingPoint 8 24)"
		} else {
			str = "(_ FloatingPoint 11 53)"
		}
	case SArray:
		str = "(Array " + s.A.str + " " + s.B.str + ")"
	case SRef:
		str = "Ref"
	case SUnint:
		str = s.Name
	case SRM:
		str = "RoundingMode"
	}
	if r, ok := sortTab[str]; ok {
		return r
	}
	s.str = str
	r := &s
	sortTab[str] = r
	return r
}

func (s *Sort) String() string { return s.str }

var (
	BoolS = mkSort(Sort{K: SBool})
	IntS  = mkSort(Sort{K: SInt})
	RefS  = mkSort(Sort{K: SRef})
	FP32S = mkSort(Sort{K: SFP, N: 32})
	FP64S = mkSort(Sort{K: SFP, N: 64})
)

func BVS(n int) *Sort          { return mkSort(Sort{K: SBV, N: n}) }
func ArrS(a, b *Sort) *Sort    { return mkSort(Sort{K: SArray, A: a, B: b}) }
func UnintS(name string) *Sort { return mkSort(Sort{K: SUnint, Name: name}) }

type Term struct {
	id      int
	Op      string // "const" (declared symbol), "num", "true","false", "bound", "forall","exists", or SMT operator
	Args    []*Term
	S       *Sort
	Name    string   // symbol name, or UF name
	Num     *big.Int // for num (Int or BV)
	Bound   []*Term  // for quantifiers
	Pats    [][]*Term
	lo      *big.Int // interval for Int-sorted
	hi      *big.Int
	hasBV   bool // contains bound variable
	offAtom bool // offset of a slice value (see Ix)
	maxSy   int  // maximal symbol index contained (for loop-invariance test)
	symIx   int
}

type TermFactory struct {
	tab      map[string]*Term
	n        int
	nsym     int
	decls    []*Term // declared constants in order
	funs     map[string]string
	funOrder []string
	funSort  map[string]*Sort
	axioms   []*Term
	apart    map[[2]int]bool // pairs of root terms known to differ
	below    map[int][]*Term // root term -> allocation marks it is known to lie below
	hpFrom   map[int][]*Term // allocation mark -> marks it is known not to lie below
}

var TF = newTF()

func newTF() *TermFactory {
	return &TermFactory{tab: map[string]*Term{}, funs: map[string]string{}, funSort: map[string]*Sort{}, apart: map[[2]int]bool{}, below: map[int][]*Term{}, hpFrom: map[int][]*Term{}}
}

func (f *TermFactory) mk(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.S.str)
	b.WriteByte('|')
	b.WriteString(t.Name)
	if t.Num != nil {
		b.WriteByte('#')
		b.WriteString(t.Num.String())
	}
	for _, a := range t.Args {
		fmt.Fprintf(&b, ",%d", a.id)
	}
	if len(t.Bound) > 0 {
		b.WriteString("|B")
		for _, a := range t.Bound {
			fmt.Fprintf(&b, ",%d", a.id)
		}
		for _, p := range t.Pats {
			b.WriteString("|P")
			for _, a := range p {
				fmt.Fprintf(&b, ",%d", a.id)
			}
		}
	}
	key := b.String()
	if r, ok := f.tab[key]; ok {
		return r
	}
	f.n++
	t.id = f.n
	for _, a := range t.Args {
		if a.hasBV {
			t.hasBV = true
		}
		if a.maxSy > t.maxSy {
			t.maxSy = a.maxSy
		}
	}
	if t.Op == "bound" {
		t.hasBV = true
	}
	if t.Op == "const" && t.symIx > t.maxSy {
		t.maxSy = t.symIx
	}
	r := &t
	f.tab[key] = r
	return r
}

// Fresh declares a new constant.
func Fresh(name string, s *Sort) *Term {
	TF.nsym++
	nm := fmt.Sprintf("%s!%d", sanitize(name), TF.nsym)
	t := TF.mk(Term{Op: "const", Name: nm, S: s, symIx: TF.nsym})
	TF.decls = append(TF.decls, t)
	return t
}

func sanitize(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func BoundVar(name string, s *Sort) *Term {
	TF.nsym++
	return TF.mk(Term{Op: "bound", Name: fmt.Sprintf("%s?%d", sanitize(name), TF.nsym), S: s})
}

// UF application
func App(name string, s *Sort, args ...*Term) *Term {
	name = sanitize(name)
	if _, ok := TF.funs[name]; !ok {
		var b strings.Builder
		b.WriteString("(declare-fun " + name + " (")
		for i, a := range args {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(a.S.str)
		}
		b.WriteString(") " + s.str + ")")
		TF.funs[name] = b.String()
		TF.funSort[name] = s
		TF.funOrder = append(TF.funOrder, name)
	}
	if len(args) == 0 {
		return TF.mk(Term{Op: "app", Name: name, S: s})
	}
	return TF.mk(Term{Op: "app", Name: name, S: s, Args: args})
}

func mkop(op string, s *Sort, args ...*Term) *Term {
	return TF.mk(Term{Op: op, S: s, Args: args})
}

var True = TF.mk(Term{Op: "true", S: BoolS})
var False = TF.mk(Term{Op: "false", S: BoolS})

func resetTerms() {
	TF = newTF()
	True = TF.mk(Term{Op: "true", S: BoolS})
	False = TF.mk(Term{Op: "false", S: BoolS})
}

func IntC(n int64) *Term { return BigC(big.NewInt(n)) }
func BigC(n *big.Int) *Term {
	return TF.mk(Term{Op: "num", S: IntS, Num: n, lo: n, hi: n})
}
func BVC(n *big.Int, w int) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	v := new(big.Int).Mod(n, m)
	return TF.mk(Term{Op: "num", S: BVS(w), Num: v})
}
func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func isNum(t *Term) bool { return t.Op == "num" }

func Not(a *Term) *Term {
	if a == True {
		return False
	}
	if a == False {
		return True
	}
	if a.Op == "not" {
		return a.Args[0]
	}
	return mkop("not", BoolS, a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True {
			return true
		}
		if a == False {
			return false
		}
		if a.Op == "and" {
			for _, x := range a.Args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].id] {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkop("and", BoolS, out...)
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[int]bool{}
	for _, a := range as {
		if a == True {
			return True
		}
		if a == False {
			continue
		}
		if a.Op == "or" {
			for _, x := range a.Args {
				if !seen[x.id] {
					seen[x.id] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[a.id] {
			seen[a.id] = true
			out = append(out, a)
		}
	}
	for _, a := range out {
		if a.Op == "not" && seen[a.Args[0].id] {
			return True
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkop("or", BoolS, out...)
}

// orPC joins path conditions, recognising (p and c) or (p and not c) = p.
func orPC(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	mb := map[int]bool{}
	for _, x := range cb {
		mb[x.id] = true
	}
	ma := map[int]bool{}
	for _, x := range ca {
		ma[x.id] = true
	}
	var common, ra, rb []*Term
	for _, x := range ca {
		if mb[x.id] {
			common = append(common, x)
		} else {
			ra = append(ra, x)
		}
	}
	for _, x := range cb {
		if !ma[x.id] {
			rb = append(rb, x)
		}
	}
	return And(append(common, Or(And(ra...), And(rb...)))...)
}

func conj(a *Term) []*Term {
	if a == True {
		return nil
	}
	if a.Op == "and" {
		return a.Args
	}
	return []*Term{a}
}

func Imp(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	if b.Op == "=>" {
		return Imp(And(a, b.Args[0]), b.Args[1])
	}
	return mkop("=>", BoolS, a, b)
}

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.S != b.S {
		panic(fmt.Sprintf("ite sort mismatch %v %v: %s / %s", a.S, b.S, a, b))
	}
	if a.S == BoolS {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	// ite(c, ite(c,x,y), z) = ite(c,x,z)
	if a.Op == "ite" && a.Args[0] == c {
		return Ite(c, a.Args[1], b)
	}
	if b.Op == "ite" && b.Args[0] == c {
		return Ite(c, a, b.Args[2])
	}
	if a.S.K == SArray {
		if r := mergeStores(c, a, b); r != nil {
			return r
		}
	}
	t := Term{Op: "ite", S: a.S, Args: []*Term{c, a, b}}
	if a.lo != nil && b.lo != nil {
		t.lo = bmin(a.lo, b.lo)
	}
	if a.hi != nil && b.hi != nil {
		t.hi = bmax(a.hi, b.hi)
	}
	return TF.mk(t)
}

// mergeStores: ite over two arrays that are short chains of stores over the
// same array becomes one chain whose values are chosen by the condition.
func mergeStores(c, a, b *Term) *Term {
	chain := func(t *Term) ([]*Term, *Term) {
		var is []*Term
		for t.Op == "store" && len(is) < 8 {
			is = append(is, t.Args[1])
			t = t.Args[0]
		}
		for i, j := 0, len(is)-1; i < j; i, j = i+1, j-1 {
			is[i], is[j] = is[j], is[i]
		}
		return is, t
	}
	ia, ba := chain(a)
	ib, bb := chain(b)
	if ba != bb || len(ia)+len(ib) > 6 {
		return nil
	}
	r := ba
	seen := map[*Term]bool{}
	for _, i := range append(append([]*Term{}, ia...), ib...) {
		if seen[i] {
			continue
		}
		seen[i] = true
		r = Store(r, i, Ite(c, Select(a, i), Select(b, i)))
	}
	return r
}

func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) <= 0 {
		return a
	}
	return b
}
func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) >= 0 {
		return a
	}
	return b
}

func distinctConsts(a, b *Term) bool {
	if isNum(a) && isNum(b) {
		return a.Num.Cmp(b.Num) != 0
	}
	if a.S == RefS {
		ka, kb := refCtor(a), refCtor(b)
		if ka != "" && kb != "" {
			if ka != kb {
				return true
			}
			switch ka {
			case "obj":
				return distinctConsts(a.Args[0], b.Args[0]) || diffConst(a.Args[0], b.Args[0])
			case "elem":
				return distinctConsts(a.Args[0], b.Args[0]) || (a.Args[0] == b.Args[0] && (distinctConsts(a.Args[1], b.Args[1]) || diffConst(a.Args[1], b.Args[1])))
			case "sub":
				return a.Args[1] != b.Args[1] || distinctConsts(a.Args[0], b.Args[0])
			}
		}
		if ka != "null" && kb != "null" && rootsApart(Root(a), Root(b)) {
			return true
		}
	}
	if a.S == BoolS {
		return a == True && b == False || a == False && b == True
	}
	if a.S == IntS {
		return diffConst(a, b)
	}
	return false
}

// rootsApart: two allocations known to be different, from facts that hold in
// every obligation (asserted without a path condition) or from their order in time.
func rootsApart(a, b *Term) bool {
	if a == b {
		return false
	}
	if TF.apart[[2]int{a.id, b.id}] {
		return true
	}
	return allocAfter(a, b) || allocAfter(b, a)
}

// allocAfter: a was allocated at or after a mark below which b lies.
func allocAfter(a, b *Term) bool {
	for _, m := range TF.below[b.id] {
		if markGE(a, m, 0) {
			return true
		}
	}
	return false
}

func markGE(a, m *Term, d int) bool {
	x, c := splitConst(a)
	if x == nil || c.Sign() < 0 || d > 200 {
		return false
	}
	if x == m {
		return true
	}
	for _, o := range TF.hpFrom[x.id] {
		if markGE(o, m, d+1) {
			return true
		}
	}
	return false
}

// noteApart records separation facts asserted without a path condition.
func noteApart(f *Term) {
	switch f.Op {
	case "and":
		for _, a := range f.Args {
			noteApart(a)
		}
	case "not":
		g := f.Args[0]
		isRoot := func(t *Term) bool { return t.Op == "app" && t.Name == "root" }
		switch {
		case g.Op == "=" && g.Args[0].S == IntS && isRoot(g.Args[0]) && isRoot(g.Args[1]):
			TF.apart[[2]int{g.Args[0].id, g.Args[1].id}] = true
			TF.apart[[2]int{g.Args[1].id, g.Args[0].id}] = true
		case g.Op == "<=" && isRoot(g.Args[1]):
			// mark <= root is false: the object lies below the mark
			TF.below[g.Args[1].id] = append(TF.below[g.Args[1].id], g.Args[0])
		}
	}
}

// diffConst reports whether a-b is a known non-zero constant (linear Int terms).
func diffConst(a, b *Term) bool {
	if a.S != IntS || b.S != IntS {
		return false
	}
	if isIx(a) || isIx(b) {
		if isIx(a) && isIx(b) && a.Args[0] == b.Args[0] {
			return diffConst(a.Args[1], b.Args[1])
		}
		d := Sub(a, b)
		return isNum(d) && d.Num.Sign() != 0
	}
	ba, ca := splitConst(a)
	bb, cb := splitConst(b)
	return ba == bb && ca.Cmp(cb) != 0
}

// splitConst splits t into base + constant.
func splitConst(t *Term) (*Term, *big.Int) {
	if isNum(t) {
		return nil, t.Num
	}
	if t.Op == "+" {
		last := t.Args[len(t.Args)-1]
		if isNum(last) {
			if len(t.Args) == 2 {
				return t.Args[0], last.Num
			}
			return addRaw(t.Args[:len(t.Args)-1]), last.Num
		}
	}
	return t, big.NewInt(0)
}

func addRaw(args []*Term) *Term {
	if len(args) == 1 {
		return args[0]
	}
	t := Term{Op: "+", S: IntS, Args: append([]*Term{}, args...)}
	setAddRange(&t)
	return TF.mk(t)
}

func setAddRange(t *Term) {
	lo, hi := new(big.Int), new(big.Int)
	for _, a := range t.Args {
		if lo != nil {
			if a.lo == nil {
				lo = nil
			} else {
				lo = new(big.Int).Add(lo, a.lo)
			}
		}
		if hi != nil {
			if a.hi == nil {
				hi = nil
			} else {
				hi = new(big.Int).Add(hi, a.hi)
			}
		}
	}
	t.lo, t.hi = lo, hi
}

func refCtor(t *Term) string {
	switch t.Op {
	case "null", "obj", "elem", "sub":
		return t.Op
	}
	return ""
}

func Eq(a, b *Term) *Term {
	if a == b {
		if a.S.K == SFP {
			// SMT "=" is structural equality; callers use fp.eq for Go ==
		}
		return True
	}
	if a.S != b.S {
		panic(fmt.Sprintf("eq sort mismatch %v %v: %s / %s", a.S, b.S, a, b))
	}
	if distinctConsts(a, b) {
		return False
	}
	if a.S == BoolS {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	// ite(c, k1, k2) = k
	if isNum(b) && a.Op == "ite" && isNum(a.Args[1]) && isNum(a.Args[2]) {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b))
	}
	if isNum(a) && b.Op == "ite" {
		return Eq(b, a)
	}
	if a.S == RefS && a.Op == b.Op {
		switch a.Op {
		case "obj":
			return Eq(a.Args[0], b.Args[0])
		case "elem":
			return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
		case "sub":
			return Eq(a.Args[0], b.Args[0])
		}
	}
	if isIx(a) || isIx(b) {
		if isIx(a) && isIx(b) && a.Args[0] == b.Args[0] {
			return Eq(a.Args[1], b.Args[1])
		}
		if d := Sub(a, b); isNum(d) {
			return BoolC(d.Num.Sign() == 0)
		}
	}
	if a.lo != nil && b.hi != nil && a.lo.Cmp(b.hi) > 0 {
		return False
	}
	if b.lo != nil && a.hi != nil && b.lo.Cmp(a.hi) > 0 {
		return False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkop("=", BoolS, a, b)
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

// ---- Int arithmetic, linear normal form ----

type lin struct {
	c     *big.Int
	terms map[int]*Term
	coef  map[int]*big.Int
}

func toLin(t *Term, k *big.Int, l *lin) {
	switch t.Op {
	case "num":
		l.c.Add(l.c, new(big.Int).Mul(k, t.Num))
		return
	case "app":
		if t.Name == "ix" {
			toLin(t.Args[0], k, l)
			toLin(t.Args[1], k, l)
			return
		}
	case "+":
		for _, a := range t.Args {
			toLin(a, k, l)
		}
		return
	case "*":
		if len(t.Args) == 2 && isNum(t.Args[0]) {
			toLin(t.Args[1], new(big.Int).Mul(k, t.Args[0].Num), l)
			return
		}
	}
	if c, ok := l.coef[t.id]; ok {
		c.Add(c, k)
	} else {
		l.coef[t.id] = new(big.Int).Set(k)
		l.terms[t.id] = t
	}
}

func newLin() *lin {
	return &lin{c: new(big.Int), terms: map[int]*Term{}, coef: map[int]*big.Int{}}
}

func (l *lin) build() *Term {
	var ids []int
	for id, c := range l.coef {
		if c.Sign() != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	var args []*Term
	for _, id := range ids {
		c := l.coef[id]
		if c.Cmp(big.NewInt(1)) == 0 {
			args = append(args, l.terms[id])
		} else {
			x := l.terms[id]
			t := Term{Op: "*", S: IntS, Args: []*Term{BigC(new(big.Int).Set(c)), x}}
			if c.Sign() > 0 {
				if x.lo != nil {
					t.lo = new(big.Int).Mul(c, x.lo)
				}
				if x.hi != nil {
					t.hi = new(big.Int).Mul(c, x.hi)
				}
			} else {
				if x.lo != nil {
					t.hi = new(big.Int).Mul(c, x.lo)
				}
				if x.hi != nil {
					t.lo = new(big.Int).Mul(c, x.hi)
				}
			}
			args = append(args, TF.mk(t))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigC(new(big.Int).Set(l.c)))
	}
	return addRaw(args)
}

func Add(a, b *Term) *Term {
	if a.S.K == SBV {
		if isNum(a) && isNum(b) {
			return BVC(new(big.Int).Add(a.Num, b.Num), a.S.N)
		}
		if isNum(a) && a.Num.Sign() == 0 {
			return b
		}
		if isNum(b) && b.Num.Sign() == 0 {
			return a
		}
		return mkop("bvadd", a.S, a, b)
	}
	l := newLin()
	toLin(a, big.NewInt(1), l)
	toLin(b, big.NewInt(1), l)
	return l.build()
}

// Ix is the position of element i of a slice whose first element is at position
// off of its array: off+i. It is kept as an application of its own, ix(o, k) with
// o the offset of the underlying slice value, so that quantifier patterns over
// elements contain no arithmetic; everywhere else it reads as the sum.
func Ix(off, i *Term) *Term {
	if off.S.K == SBV {
		return Add(off, i)
	}
	a, rest := splitOff(off)
	if a == nil {
		return Add(off, i)
	}
	return App("ix", IntS, a, Add(rest, i))
}

// splitOff writes off as an opaque offset term plus the rest.
func splitOff(off *Term) (*Term, *Term) {
	if off.S.K == SBV || isNum(off) {
		return nil, off
	}
	if off.Op != "+" && off.Op != "*" {
		off.offAtom = true
		return off, IntC(0)
	}
	if off.Op == "+" {
		var at *Term
		for _, x := range off.Args {
			if x.offAtom {
				if at != nil {
					return nil, off
				}
				at = x
			}
		}
		if at != nil {
			return at, Sub(off, at)
		}
	}
	return nil, off
}

// ixShift moves an element position by n.
func ixShift(p, n *Term) *Term {
	if isIx(p) {
		return Ix(p.Args[0], Add(p.Args[1], n))
	}
	return Add(p, n)
}

func isIx(t *Term) bool { return t.Op == "app" && t.Name == "ix" }

func Sub(a, b *Term) *Term {
	if a.S.K == SBV {
		if isNum(a) && isNum(b) {
			return BVC(new(big.Int).Sub(a.Num, b.Num), a.S.N)
		}
		return mkop("bvsub", a.S, a, b)
	}
	l := newLin()
	toLin(a, big.NewInt(1), l)
	toLin(b, big.NewInt(-1), l)
	return l.build()
}

func Neg(a *Term) *Term {
	if a.S.K == SBV {
		return mkop("bvneg", a.S, a)
	}
	return Sub(IntC(0), a)
}

func Mul(a, b *Term) *Term {
	if a.S.K == SBV {
		if isNum(a) && isNum(b) {
			return BVC(new(big.Int).Mul(a.Num, b.Num), a.S.N)
		}
		return mkop("bvmul", a.S, a, b)
	}
	if isNum(b) {
		a, b = b, a
	}
	if isNum(a) {
		l := newLin()
		toLin(b, a.Num, l)
		return l.build()
	}
	// distribute sums of few terms: (x+k)*y
	if a.Op == "+" || b.Op == "+" {
		if a.Op != "+" {
			a, b = b, a
		}
		if len(a.Args) <= 3 && !(b.Op == "+" && len(b.Args) > 3) {
			r := IntC(0)
			for _, x := range a.Args {
				r = Add(r, Mul(x, b))
			}
			return r
		}
	}
	if a.Op == "*" && isNum(a.Args[0]) {
		return Mul(a.Args[0], Mul(a.Args[1], b))
	}
	if b.Op == "*" && isNum(b.Args[0]) {
		return Mul(b.Args[0], Mul(a, b.Args[1]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	t := Term{Op: "*", S: IntS, Args: []*Term{a, b}}
	if a.lo != nil && a.hi != nil && b.lo != nil && b.hi != nil {
		ps := []*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
		t.lo, t.hi = ps[0], ps[0]
		for _, p := range ps {
			t.lo = bmin(t.lo, p)
			t.hi = bmax(t.hi, p)
		}
	} else if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() >= 0 {
		t.lo = new(big.Int).Mul(a.lo, b.lo)
	}
	return TF.mk(t)
}

// floor division by positive constant or general SMT div
func Div(a, b *Term) *Term {
	if isNum(a) && isNum(b) && b.Num.Sign() > 0 {
		q, m := new(big.Int).DivMod(a.Num, b.Num, new(big.Int))
		_ = m
		return BigC(q)
	}
	if isNum(b) && b.Num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	t := Term{Op: "div", S: IntS, Args: []*Term{a, b}}
	if isNum(b) && b.Num.Sign() > 0 {
		if a.lo != nil {
			t.lo = new(big.Int).Div(a.lo, b.Num)
		}
		if a.hi != nil {
			t.hi = new(big.Int).Div(a.hi, b.Num)
		}
	} else if a.lo != nil && a.lo.Sign() >= 0 && b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		t.hi = a.hi
	}
	if t.lo != nil && t.hi != nil && t.lo.Cmp(t.hi) == 0 {
		return BigC(t.lo)
	}
	return TF.mk(t)
}

func Mod(a, b *Term) *Term {
	if isNum(a) && isNum(b) && b.Num.Sign() > 0 {
		return BigC(new(big.Int).Mod(a.Num, b.Num))
	}
	if isNum(b) && a.lo != nil && a.hi != nil && a.lo.Sign() >= 0 && a.hi.Cmp(b.Num) < 0 {
		return a
	}
	t := Term{Op: "mod", S: IntS, Args: []*Term{a, b}}
	if isNum(b) && b.Num.Sign() > 0 {
		t.lo = big.NewInt(0)
		t.hi = new(big.Int).Sub(b.Num, big.NewInt(1))
	} else if b.lo != nil && b.lo.Sign() > 0 {
		t.lo = big.NewInt(0)
		if b.hi != nil {
			t.hi = new(big.Int).Sub(b.hi, big.NewInt(1))
		}
	}
	return TF.mk(t)
}

func Le(a, b *Term) *Term {
	if a == b {
		return True
	}
	l := newLin()
	toLin(b, big.NewInt(1), l)
	toLin(a, big.NewInt(-1), l)
	d := l.build()
	if d.lo != nil && d.lo.Sign() >= 0 {
		return True
	}
	if d.hi != nil && d.hi.Sign() < 0 {
		return False
	}
	return mkop("<=", BoolS, a, b)
}

func Lt(a, b *Term) *Term { return Not(Le(b, a)) }
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Not(Le(a, b)) }

func inRange(a *Term, lo, hi *big.Int) *Term {
	return And(Le(BigC(lo), a), Le(a, BigC(hi)))
}

func fits(a *Term, lo, hi *big.Int) bool {
	return a.lo != nil && a.hi != nil && a.lo.Cmp(lo) >= 0 && a.hi.Cmp(hi) <= 0
}

// ---- arrays ----

func Select(a, i *Term) *Term {
	if a.S.K != SArray {
		panic("select on non-array " + a.String())
	}
	if a.S.A != i.S {
		panic(fmt.Sprintf("select index sort: %v vs %v in %s", a.S.A, i.S, a))
	}
	x := a
	for n := 0; n < 2000; n++ {
		if x.Op == "store" {
			if x.Args[1] == i {
				return x.Args[2]
			}
			if distinctConsts(x.Args[1], i) {
				x = x.Args[0]
				continue
			}
		}
		if x.Op == "constarr" {
			return x.Args[0]
		}
		break
	}
	if x.Op == "ite" {
		// push select through ite when it simplifies on both sides
		l, r := Select(x.Args[1], i), Select(x.Args[2], i)
		if l == r {
			return l
		}
		if l.Op != "select" || r.Op != "select" || l.Args[0] != x.Args[1] || r.Args[0] != x.Args[2] {
			return Ite(x.Args[0], l, r)
		}
	}
	t := Term{Op: "select", S: a.S.B, Args: []*Term{x, i}}
	return TF.mk(t)
}

func Store(a, i, v *Term) *Term {
	if a.S.A != i.S || a.S.B != v.S {
		panic(fmt.Sprintf("store sort: %v [%v] := %v", a.S, i.S, v.S))
	}
	if a.Op == "store" && a.Args[1] == i {
		return Store(a.Args[0], i, v)
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mkop("store", a.S, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term {
	return mkop("constarr", s, v)
}

// ---- refs ----
func Null() *Term           { return mkop("null", RefS) }
func Obj(i *Term) *Term     { return mkop("obj", RefS, i) }
func Elem(a, i *Term) *Term { return mkop("elem", RefS, a, i) }
func EArr(r *Term) *Term {
	if r.Op == "elem" {
		return r.Args[0]
	}
	return mkop("earr", RefS, r)
}
func EIdx(r *Term) *Term {
	if r.Op == "elem" {
		return r.Args[1]
	}
	return mkop("eidx", idxSort(), r)
}
func SubR(a *Term, k int) *Term {
	return mkop("sub", RefS, a, IntC(int64(k)))
}
func Root(r *Term) *Term {
	for {
		switch r.Op {
		case "null":
			return IntC(-1)
		case "obj":
			return r.Args[0]
		case "elem", "sub":
			r = r.Args[0]
			continue
		case "ite":
			return Ite(r.Args[0], Root(r.Args[1]), Root(r.Args[2]))
		}
		break
	}
	return App("root", IntS, r)
}

func Forall(bs []*Term, body *Term, pats [][]*Term) *Term { return quant("forall", bs, body, pats) }
func Exists(bs []*Term, body *Term) *Term                 { return quant("exists", bs, body, nil) }

func quant(q string, bs []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(bs) == 0 {
		return body
	}
	t := TF.mk(Term{Op: q, S: BoolS, Args: []*Term{body}, Bound: bs, Pats: pats})
	// does it still contain free bound variables?
	t.hasBV = len(freeBound(t)) > 0
	return t
}

func freeBound(t *Term) map[*Term]bool {
	res := map[*Term]bool{}
	var rec func(t *Term, bound map[*Term]bool)
	rec = func(t *Term, bound map[*Term]bool) {
		if t.Op == "bound" {
			if !bound[t] {
				res[t] = true
			}
			return
		}
		if !t.hasBV {
			return
		}
		nb := bound
		if len(t.Bound) > 0 {
			nb = map[*Term]bool{}
			for k := range bound {
				nb[k] = true
			}
			for _, b := range t.Bound {
				nb[b] = true
			}
		}
		for _, a := range t.Args {
			rec(a, nb)
		}
	}
	// force descent at top
	nb := map[*Term]bool{}
	for _, b := range t.Bound {
		nb[b] = true
	}
	if t.Op == "bound" {
		res[t] = true
		return res
	}
	for _, a := range t.Args {
		rec(a, nb)
	}
	return res
}

// Subst replaces bound/const terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	cache := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if r, ok := cache[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, as, rec)
		}
		cache[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, as []*Term, rec func(*Term) *Term) *Term {
	if isIx(t) {
		return Ix(as[0], as[1])
	}
	switch t.Op {
	case "not":
		return Not(as[0])
	case "and":
		return And(as...)
	case "or":
		return Or(as...)
	case "=>":
		return Imp(as[0], as[1])
	case "ite":
		return Ite(as[0], as[1], as[2])
	case "=":
		return Eq(as[0], as[1])
	case "+":
		l := newLin()
		for _, a := range as {
			toLin(a, big.NewInt(1), l)
		}
		return l.build()
	case "*":
		return Mul(as[0], as[1])
	case "<=":
		return Le(as[0], as[1])
	case "div":
		return Div(as[0], as[1])
	case "mod":
		return Mod(as[0], as[1])
	case "select":
		return Select(as[0], as[1])
	case "store":
		return Store(as[0], as[1], as[2])
	case "forall", "exists":
		var pats [][]*Term
		for _, p := range t.Pats {
			var q []*Term
			for _, x := range p {
				q = append(q, rec(x))
			}
			pats = append(pats, q)
		}
		return quant(t.Op, t.Bound, as[0], pats)
	}
	n := *t
	n.Args = as
	n.hasBV = false
	n.maxSy = 0
	return TF.mk(n)
}

func (t *Term) String() string {
	var b strings.Builder
	printTerm(&b, t, nil, 0)
	s := b.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

func numStr(t *Term) string {
	if t.S.K == SBV {
		return fmt.Sprintf("(_ bv%s %d)", t.Num.String(), t.S.N)
	}
	if t.Num.Sign() < 0 {
		return "(- " + new(big.Int).Neg(t.Num).String() + ")"
	}
	return t.Num.String()
}

func symName(s string) string { return "|" + s + "|" }

func printTerm(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	if names != nil {
		if n, ok := names[t]; ok {
			b.WriteString(n)
			return
		}
	} else if depth > 12 {
		b.WriteString("…")
		return
	}
	printTermTop(b, t, names, depth)
}

// usablePats drops the patterns a solver cannot match: those with a
// conditional or a connective inside.
func usablePats(pats [][]*Term) [][]*Term {
	var out [][]*Term
	for _, p := range pats {
		ok := true
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			switch t.Op {
			case "ite", "not", "and", "or", "=>", "=", "distinct", "<", "<=", ">", ">=", "forall", "exists":
				ok = false
			}
			for _, a := range t.Args {
				walk(a)
			}
		}
		for _, x := range p {
			walk(x)
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

func printTermTop(b *strings.Builder, t *Term, names map[*Term]string, depth int) {
	switch t.Op {
	case "const", "bound":
		b.WriteString(symName(t.Name))
		return
	case "true", "false", "null":
		b.WriteString(t.Op)
		return
	case "num":
		b.WriteString(numStr(t))
		return
	case "lit":
		b.WriteString(t.Name)
		return
	case "app":
		if len(t.Args) == 0 {
			b.WriteString(symName(t.Name))
			return
		}
		b.WriteString("(" + symName(t.Name))
	case "constarr":
		b.WriteString("((as const " + t.S.str + ")")
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for i, v := range t.Bound {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString("(" + symName(v.Name) + " " + v.S.str + ")")
		}
		b.WriteString(") ")
		pats := usablePats(t.Pats)
		if len(pats) > 0 {
			b.WriteString("(! ")
		}
		printTerm(b, t.Args[0], names, depth+1)
		for _, p := range pats {
			b.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					b.WriteByte(' ')
				}
				printTerm(b, x, names, depth+1)
			}
			b.WriteString(")")
		}
		if len(pats) > 0 {
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	default:
		b.WriteString("(" + t.Op)
	}
	for _, a := range t.Args {
		b.WriteByte(' ')
		printTerm(b, a, names, depth+1)
	}
	b.WriteString(")")
}

// Script renders a satisfiability query for the conjunction of asserts.
func Script(asserts []*Term, extra string) string {
	// collect
	var rangeAsserts, extraRoot []*Term
	refs := map[*Term]int{}
	var order []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		for _, p := range t.Pats {
			for _, x := range p {
				visit(x)
			}
		}
		order = append(order, t)
	}
	for _, a := range asserts {
		visit(a)
	}
	usedFun := map[string]bool{}
	var consts []*Term
	unint := map[string]bool{}
	var noteSort func(s *Sort)
	noteSort = func(s *Sort) {
		if s == nil {
			return
		}
		if s.K == SUnint && s.Name != "Real" {
			unint[s.Name] = true
		}
		noteSort(s.A)
		noteSort(s.B)
	}
	for _, t := range order {
		noteSort(t.S)
		if t.Op == "const" {
			consts = append(consts, t)
		}
		if t.Op == "app" {
			usedFun[t.Name] = true
		}
		for _, b := range t.Bound {
			noteSort(b.S)
		}
	}
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	idx := "Int"
	if bvMode {
		idx = "(_ BitVec 64)"
	}
	b.WriteString("(declare-datatypes ((Ref 0)) (((null) (obj (oid Int)) (elem (earr Ref) (eidx " + idx + ")) (sub (sref Ref) (sfld Int)))))\n")
	var us []string
	for n := range unint {
		us = append(us, n)
	}
	sort.Strings(us)
	for _, n := range us {
		b.WriteString("(declare-sort " + n + " 0)\n")
	}
	for _, n := range TF.funOrder {
		if usedFun[n] {
			d := TF.funs[n]
			d = strings.Replace(d, "(declare-fun "+n+" ", "(declare-fun "+symName(n)+" ", 1)
			b.WriteString(d + "\n")
		}
	}
	sort.Slice(consts, func(i, j int) bool { return consts[i].symIx < consts[j].symIx })
	for _, c := range consts {
		b.WriteString("(declare-const " + symName(c.Name) + " " + c.S.str + ")\n")
	}
	hasQ := false
	for _, t := range order {
		if t.Op == "forall" || t.Op == "exists" {
			hasQ = true
		}
	}
	if usedFun["root"] && !hasQ {
		// ground instances of the root equations
		b.WriteString("(assert (= (|root| null) (- 1)))\n")
		for _, t := range order {
			if t.Op != "app" || t.Name != "root" {
				continue
			}
			x := t.Args[0]
			for d := 0; d < 3 && x.Op != "null"; d++ {
				isE := TF.mk(Term{Op: "(_ is elem)", S: BoolS, Args: []*Term{x}})
				isS := TF.mk(Term{Op: "(_ is sub)", S: BoolS, Args: []*Term{x}})
				isO := TF.mk(Term{Op: "(_ is obj)", S: BoolS, Args: []*Term{x}})
				up := TF.mk(Term{Op: "ite", S: RefS, Args: []*Term{isE, TF.mk(Term{Op: "earr", S: RefS, Args: []*Term{x}}), TF.mk(Term{Op: "sref", S: RefS, Args: []*Term{x}})}})
				rx := TF.mk(Term{Op: "app", Name: "root", S: IntS, Args: []*Term{x}})
				ru := TF.mk(Term{Op: "app", Name: "root", S: IntS, Args: []*Term{up}})
				extraRoot = append(extraRoot,
					TF.mk(Term{Op: "=>", S: BoolS, Args: []*Term{TF.mk(Term{Op: "or", S: BoolS, Args: []*Term{isE, isS}}), TF.mk(Term{Op: "=", S: BoolS, Args: []*Term{rx, ru}})}}),
					TF.mk(Term{Op: "=>", S: BoolS, Args: []*Term{isO, TF.mk(Term{Op: "=", S: BoolS, Args: []*Term{rx, TF.mk(Term{Op: "oid", S: IntS, Args: []*Term{x}})}})}}))
				x = up
			}
		}
	}
	if usedFun["root"] && hasQ {
		b.WriteString("(assert (forall ((a Ref) (i " + idx + ")) (! (= (|root| (elem a i)) (|root| a)) :pattern ((|root| (elem a i))))))\n")
		b.WriteString("(assert (forall ((a Ref) (i Int)) (! (= (|root| (sub a i)) (|root| a)) :pattern ((|root| (sub a i))))))\n")
		b.WriteString("(assert (forall ((i Int)) (! (= (|root| (obj i)) i) :pattern ((|root| (obj i))))))\n")
		b.WriteString("(assert (= (|root| null) (- 1)))\n")
	}
	rangeOf := func(t *Term) {
		if t.S != IntS || t.hasBV || (t.Op != "const" && t.Op != "select" && t.Op != "app") {
			return
		}
		if t.lo != nil {
			rangeAsserts = append(rangeAsserts, TF.mk(Term{Op: "<=", S: BoolS, Args: []*Term{BigC(t.lo), t}}))
		}
		if t.hi != nil {
			rangeAsserts = append(rangeAsserts, TF.mk(Term{Op: "<=", S: BoolS, Args: []*Term{t, BigC(t.hi)}}))
		}
	}
	for _, t := range order {
		rangeOf(t)
	}
	for _, t := range order {
		if t.Op == "app" && len(t.Args) == 2 && !t.hasBV && t.Args[0] != t.Args[1] && (strings.HasPrefix(t.Name, "fadd_") || strings.HasPrefix(t.Name, "fmul_")) {
			sw := TF.mk(Term{Op: "app", Name: t.Name, S: t.S, Args: []*Term{t.Args[1], t.Args[0]}})
			extraRoot = append(extraRoot, TF.mk(Term{Op: "=", S: BoolS, Args: []*Term{t, sw}}))
		}
	}
	if usedFun["ix"] {
		for _, t := range order {
			if isIx(t) {
				if !t.hasBV && !hasQ {
					extraRoot = append(extraRoot, TF.mk(Term{Op: "=", S: BoolS, Args: []*Term{t, TF.mk(Term{Op: "+", S: IntS, Args: []*Term{t.Args[0], t.Args[1]}})}}))
				}
			}
		}
		if hasQ {
			b.WriteString("(assert (forall ((o Int) (i Int)) (! (= (|ix| o i) (+ o i)) :pattern ((|ix| o i)))))\n")
		}
	}
	rangeAsserts = append(rangeAsserts, extraRoot...)
	for _, a := range rangeAsserts {
		visit(a)
	}
	asserts = append(append([]*Term{}, asserts...), rangeAsserts...)
	names := map[*Term]string{}
	for _, t := range order {
		if refs[t] > 1 && len(t.Args) > 0 && !t.hasBV {
			nm := fmt.Sprintf("t%d", t.id)
			b.WriteString("(define-fun " + nm + " () " + t.S.str + " ")
			printTermTop(&b, t, names, 0)
			b.WriteString(")\n")
			names[t] = nm
		}
	}
	for _, a := range asserts {
		b.WriteString("(assert ")
		printTerm(&b, a, names, 0)
		b.WriteString(")\n")
	}
	b.WriteString("(check-sat)\n")
	b.WriteString(extra)
	return b.String()
}

var bvMode bool

var intZero = big.NewInt(0)
var debugPanics bool
