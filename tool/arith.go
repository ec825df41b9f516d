package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

func (ex *Exec) oblige(st *State, kind, name string, pos token.Pos, goal *Term, src string) {
	if ex.noOblig > 0 || st.pc == False {
		return
	}
	if goal == True {
		ex.counts["trivial"]++
		return
	}
	if kind == "panic" && ex.c != nil && ex.c.MayPanic {
		ex.assume(st, goal)
		return
	}
	ex.obls = append(ex.obls, &Oblig{Name: name, Kind: kind, Pos: pos, NFacts: len(ex.facts), PC: st.pc, Goal: goal, Src: src})
	ex.assume(st, goal)
}

func (ex *Exec) posStr(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := ex.prog.Fset.Position(p)
	f := ps.Filename
	for _, m := range []string{"/detour/", "/recast/", "/sample/"} {
		if i := lastIndex(f, m); i >= 0 {
			f = f[i+1:]
			break
		}
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func lastIndex(s, sub string) int {
	for i := len(s) - len(sub); i >= 0; i-- {
		if s[i:i+len(sub)] == sub {
			return i
		}
	}
	return -1
}

// wrapInt reduces a mathematical integer term into the range of T.
func wrapInt(e *Term, T types.Type) *Term {
	w, s, _ := intInfo(T)
	lo, hi := intRange(w, s)
	if fits(e, lo, hi) {
		return e
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	if !s {
		// near range: single correction
		if e.lo != nil && e.hi != nil {
			if e.lo.Cmp(new(big.Int).Neg(m)) >= 0 && e.hi.Cmp(new(big.Int).Add(hi, m)) <= 0 {
				r := e
				if e.hi.Cmp(hi) > 0 {
					r = Ite(Gt(e, BigC(hi)), Sub(e, BigC(m)), e)
				}
				if e.lo.Sign() < 0 {
					r = Ite(Lt(e, IntC(0)), Add(e, BigC(m)), r)
				}
				r = clampRange(r, lo, hi)
				return r
			}
		}
		return Mod(e, BigC(m))
	}
	if e.lo != nil && e.hi != nil && e.lo.Cmp(new(big.Int).Sub(lo, m)) >= 0 && e.hi.Cmp(new(big.Int).Add(hi, m)) <= 0 {
		r := e
		if e.hi.Cmp(hi) > 0 {
			r = Ite(Gt(e, BigC(hi)), Sub(e, BigC(m)), e)
		}
		if e.lo.Cmp(lo) < 0 {
			r = Ite(Lt(e, BigC(lo)), Add(e, BigC(m)), r)
		}
		return clampRange(r, lo, hi)
	}
	// ((e - lo) mod m) + lo
	return clampRange(Add(Mod(Sub(e, BigC(lo)), BigC(m)), BigC(lo)), lo, hi)
}

func clampRange(t *Term, lo, hi *big.Int) *Term {
	if isNum(t) {
		return t
	}
	// record a range valid for this term (the caller guarantees it)
	if t.Op == "ite" || t.Op == "mod" {
		if t.lo == nil || t.lo.Cmp(lo) < 0 {
			t.lo = lo
		}
		if t.hi == nil || t.hi.Cmp(hi) > 0 {
			t.hi = hi
		}
	}
	return t
}

// arith: Go semantics of binary integer op at type T.
func (ex *Exec) intOp(st *State, op token.Token, a, b *Term, T types.Type, pos token.Pos, spec bool) *Term {
	if bvMode {
		return ex.bvOp(st, op, a, b, T, pos, spec)
	}
	w, signed, _ := intInfo(T)
	lo, hi := intRange(w, signed)
	fin := func(e *Term) *Term {
		if spec || fits(e, lo, hi) {
			return e
		}
		if signed && ex.c != nil && ex.c.Overflow == "check" {
			ex.oblige(st, "overflow", "no integer overflow", pos, inRange(e, lo, hi), op.String())
			return e
		}
		return wrapInt(e, T)
	}
	switch op {
	case token.ADD:
		return fin(Add(a, b))
	case token.SUB:
		return fin(Sub(a, b))
	case token.MUL:
		return fin(Mul(a, b))
	case token.QUO, token.REM:
		if !spec {
			ex.oblige(st, "panic", "division by zero", pos, Neq(b, IntC(0)), "")
		}
		nonneg := func(t *Term) bool { return t.lo != nil && t.lo.Sign() >= 0 }
		if spec || nonneg(a) && nonneg(b) || !signed {
			if op == token.QUO {
				return Div(a, b)
			}
			return Mod(a, b)
		}
		if isNum(b) && b.Num.Sign() > 0 {
			q := Ite(Ge(a, IntC(0)), Div(a, b), Neg(Div(Neg(a), b)))
			if op == token.QUO {
				return q
			}
			return Ite(Ge(a, IntC(0)), Mod(a, b), Neg(Mod(Neg(a), b)))
		}
		// truncated division via absolute values
		abs := func(t *Term) *Term { return Ite(Ge(t, IntC(0)), t, Neg(t)) }
		if op == token.QUO {
			q := Div(abs(a), abs(b))
			return fin(Ite(Eq(Ge(a, IntC(0)), Ge(b, IntC(0))), q, Neg(q)))
		}
		m := Mod(abs(a), abs(b))
		return Ite(Ge(a, IntC(0)), m, Neg(m))
	case token.SHL:
		if isNum(b) {
			if b.Num.Cmp(big.NewInt(64)) >= 0 {
				return IntC(0)
			}
			m := new(big.Int).Lsh(big.NewInt(1), uint(b.Num.Int64()))
			e := Mul(a, BigC(m))
			if spec {
				return e
			}
			return wrapInt(e, T)
		}
		p := pow2(b)
		e := Mul(a, p)
		if spec {
			return e
		}
		return wrapInt(e, T)
	case token.SHR:
		if isNum(b) {
			if b.Num.Cmp(big.NewInt(64)) >= 0 {
				return Ite(Ge(a, IntC(0)), IntC(0), IntC(-1))
			}
			m := new(big.Int).Lsh(big.NewInt(1), uint(b.Num.Int64()))
			return Div(a, BigC(m))
		}
		return Div(a, pow2(b))
	case token.AND:
		if isNum(a) {
			a, b = b, a
		}
		if isNum(b) && b.Num.Sign() >= 0 {
			return andConst(a, b.Num)
		}
		if isNum(b) && b.Num.Sign() < 0 && signed {
			// a & negative const = a - (a & ^const)
			return Sub(a, andConst(a, new(big.Int).Not(b.Num)))
		}
		if a == b {
			return a
		}
		r := App(fmt.Sprintf("bvand%d", w), IntS, a, b)
		markRange(r, T)
		ex.andFacts(r, a, b, signed)
		return r
	case token.OR:
		if isNum(a) {
			a, b = b, a
		}
		if isNum(b) && b.Num.Sign() >= 0 {
			return clampRange2(Add(Sub(a, andConst(a, b.Num)), b), lo, hi, spec)
		}
		if a == b {
			return a
		}
		r := App(fmt.Sprintf("bvor%d", w), IntS, a, b)
		markRange(r, T)
		bvLink(ex, "bvor", w, signed, r, a, b)
		return r
	case token.XOR:
		if isNum(a) {
			a, b = b, a
		}
		if isNum(b) && b.Num.Sign() >= 0 {
			return Sub(Add(a, b), Mul(IntC(2), andConst(a, b.Num)))
		}
		r := App(fmt.Sprintf("bvxor%d", w), IntS, a, b)
		markRange(r, T)
		bvLink(ex, "bvxor", w, signed, r, a, b)
		return r
	case token.AND_NOT:
		if isNum(b) && b.Num.Sign() >= 0 {
			return Sub(a, andConst(a, b.Num))
		}
		r := App(fmt.Sprintf("bvandnot%d", w), IntS, a, b)
		markRange(r, T)
		return r
	}
	unsup("integer operator %v", op)
	return nil
}

func clampRange2(t *Term, lo, hi *big.Int, spec bool) *Term {
	if spec || isNum(t) {
		return t
	}
	if t.lo == nil || t.lo.Cmp(lo) < 0 {
		t.lo = lo
	}
	if t.hi == nil || t.hi.Cmp(hi) > 0 {
		t.hi = hi
	}
	return t
}

// bvLink ties an uninterpreted bit operation to its bit-vector meaning.
func bvLink(ex *Exec, op string, w int, signed bool, r, a, b *Term) {
	if r.hasBV || signed {
		return
	}
	k := fmt.Sprintf("bvl:%d", r.id)
	if ex.globFacts[k] {
		return
	}
	ex.globFacts[k] = true
	conv := func(t *Term) *Term {
		return TF.mk(Term{Op: fmt.Sprintf("(_ int2bv %d)", w), S: BVS(w), Args: []*Term{t}})
	}
	ex.facts = append(ex.facts, Eq(r, mkop("bv2nat", IntS, mkop(op, BVS(w), conv(a), conv(b)))))
}

// andFacts: x & y is at most either operand that is not negative, and not
// negative itself then.
func (ex *Exec) andFacts(r, a, b *Term, signed bool) {
	fs := []*Term{mkop("<=", BoolS, IntC(0), r), mkop("<=", BoolS, r, a), mkop("<=", BoolS, r, b)}
	if signed {
		nn := func(x *Term) *Term { return mkop("<=", BoolS, IntC(0), x) }
		fs = []*Term{Imp(nn(a), And(nn(r), mkop("<=", BoolS, r, a))), Imp(nn(b), And(nn(r), mkop("<=", BoolS, r, b)))}
	}
	if containsApp(b, "pow2big") {
		// b may be a mask of low bits
		mask := False
		for k := uint(0); k <= 32; k++ {
			mask = Or(mask, Eq(b, BigC(new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), k), big.NewInt(1)))))
		}
		fs = append(fs, Imp(And(mask, mkop("<=", BoolS, IntC(0), a)), And(Imp(mkop("<=", BoolS, a, b), Eq(r, a)), Imp(Eq(a, Add(b, IntC(1))), Eq(r, IntC(0))))))
	}
	if r.hasBV {
		if ex.quantFacts != nil {
			*ex.quantFacts = append(*ex.quantFacts, fs...)
		}
		return
	}
	k := fmt.Sprintf("andf:%d", r.id)
	if !ex.globFacts[k] {
		ex.globFacts[k] = true
		ex.facts = append(ex.facts, fs...)
	}
}

func containsApp(t *Term, name string) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.Op == "app" && t.Name == name {
			return true
		}
		for _, x := range t.Args {
			if rec(x) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func pow2(b *Term) *Term {
	// ite chain over 0..31 then UF
	r := App("pow2big", IntS, b)
	for i := 31; i >= 0; i-- {
		r = Ite(Eq(b, IntC(int64(i))), BigC(new(big.Int).Lsh(big.NewInt(1), uint(i))), r)
	}
	return r
}

// andConst: a & m for constant m >= 0 (exact also for negative a in two's complement)
func andConst(a *Term, m *big.Int) *Term {
	if isNum(a) && a.Num.Sign() >= 0 {
		return BigC(new(big.Int).And(a.Num, m))
	}
	r := IntC(0)
	i := 0
	n := m.BitLen()
	for i < n {
		if m.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && m.Bit(j) == 1 {
			j++
		}
		// bits i..j-1
		lowM := new(big.Int).Lsh(big.NewInt(1), uint(i))
		ln := new(big.Int).Lsh(big.NewInt(1), uint(j-i))
		x := a
		if i > 0 {
			x = Div(a, BigC(lowM))
		}
		if a.lo != nil && a.lo.Sign() >= 0 && a.hi != nil && a.hi.Cmp(new(big.Int).Lsh(big.NewInt(1), uint(j))) < 0 {
			// no higher bits
		} else {
			x = Mod(x, BigC(ln))
		}
		r = Add(r, Mul(BigC(lowM), x))
		i = j
	}
	return r
}

func (ex *Exec) bvOp(st *State, op token.Token, a, b *Term, T types.Type, pos token.Pos, spec bool) *Term {
	_, signed, _ := intInfo(T)
	s := a.S
	zero := BVC(big.NewInt(0), s.N)
	fold := func(f func(x, y *big.Int) *big.Int) *Term {
		if isNum(a) && isNum(b) {
			return BVC(f(a.Num, b.Num), s.N)
		}
		return nil
	}
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Sub(a, b)
	case token.MUL:
		return Mul(a, b)
	case token.AND:
		if r := fold(func(x, y *big.Int) *big.Int { return new(big.Int).And(x, y) }); r != nil {
			return r
		}
		return mkop("bvand", s, a, b)
	case token.OR:
		if r := fold(func(x, y *big.Int) *big.Int { return new(big.Int).Or(x, y) }); r != nil {
			return r
		}
		return mkop("bvor", s, a, b)
	case token.XOR:
		if r := fold(func(x, y *big.Int) *big.Int { return new(big.Int).Xor(x, y) }); r != nil {
			return r
		}
		return mkop("bvxor", s, a, b)
	case token.AND_NOT:
		return mkop("bvand", s, a, mkop("bvnot", s, b))
	case token.QUO, token.REM:
		if !spec {
			ex.oblige(st, "panic", "division by zero", pos, Neq(b, zero), "")
		}
		o := map[token.Token]string{token.QUO: "bvudiv", token.REM: "bvurem"}[op]
		if signed {
			o = map[token.Token]string{token.QUO: "bvsdiv", token.REM: "bvsrem"}[op]
		}
		return mkop(o, s, a, b)
	case token.SHL, token.SHR:
		// b already converted to the width of a, saturated
		if isNum(a) && isNum(b) && b.Num.IsInt64() && b.Num.Int64() < int64(s.N) {
			if op == token.SHL {
				return BVC(new(big.Int).Lsh(a.Num, uint(b.Num.Int64())), s.N)
			}
			if !signed {
				return BVC(new(big.Int).Rsh(a.Num, uint(b.Num.Int64())), s.N)
			}
		}
		o := "bvshl"
		if op == token.SHR {
			o = "bvlshr"
			if signed {
				o = "bvashr"
			}
		}
		return mkop(o, s, a, b)
	}
	unsup("bv operator %v", op)
	return nil
}

func (ex *Exec) intCmp(op token.Token, a, b *Term, T types.Type) *Term {
	switch op {
	case token.EQL:
		return Eq(a, b)
	case token.NEQ:
		return Neq(a, b)
	}
	if bvMode {
		_, signed, _ := intInfo(T)
		le, lt := "bvule", "bvult"
		if signed {
			le, lt = "bvsle", "bvslt"
		}
		switch op {
		case token.LSS:
			return bvcmp(lt, a, b)
		case token.LEQ:
			return bvcmp(le, a, b)
		case token.GTR:
			return bvcmp(lt, b, a)
		case token.GEQ:
			return bvcmp(le, b, a)
		}
	}
	switch op {
	case token.LSS:
		return Lt(a, b)
	case token.LEQ:
		return Le(a, b)
	case token.GTR:
		return Gt(a, b)
	case token.GEQ:
		return Ge(a, b)
	}
	panic("intCmp")
}

func rne() *Term { return TF.mk(Term{Op: "lit", Name: "RNE", S: mkSort(Sort{K: SRM})}) }

func (ex *Exec) floatOp(op token.Token, a, b *Term) *Term {
	names := map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}
	n, ok := names[op]
	if !ok {
		unsup("float operator %v", op)
	}
	if floatMode == "fp" {
		return mkop("fp."+n, a.S, rne(), a, b)
	}
	if (op == token.ADD || op == token.MUL) && a.id > b.id {
		a, b = b, a // IEEE addition and multiplication commute (NaN payloads aside)
	}
	return App("f"+n+"_"+a.S.Name, a.S, a, b)
}

func (ex *Exec) floatNeg(a *Term) *Term {
	if floatMode == "fp" {
		return mkop("fp.neg", a.S, a)
	}
	if floatMode == "real" {
		return mkop("-", a.S, a)
	}
	return App("fneg_"+a.S.Name, a.S, a)
}

func (ex *Exec) floatCmp(op token.Token, a, b *Term) *Term {
	switch floatMode {
	case "fp":
		switch op {
		case token.EQL:
			return mkop("fp.eq", BoolS, a, b)
		case token.NEQ:
			return Not(mkop("fp.eq", BoolS, a, b))
		case token.LSS:
			return mkop("fp.lt", BoolS, a, b)
		case token.LEQ:
			return mkop("fp.leq", BoolS, a, b)
		case token.GTR:
			return mkop("fp.lt", BoolS, b, a)
		case token.GEQ:
			return mkop("fp.leq", BoolS, b, a)
		}
	case "real":
		switch op {
		case token.EQL:
			return Eq(a, b)
		case token.NEQ:
			return Neq(a, b)
		case token.LSS:
			return mkop("<", BoolS, a, b)
		case token.LEQ:
			return mkop("<=", BoolS, a, b)
		case token.GTR:
			return mkop("<", BoolS, b, a)
		case token.GEQ:
			return mkop("<=", BoolS, b, a)
		}
	}
	// IEEE comparisons: NaN compares with nothing, everything else is totally
	// ordered by a rank (the two zeros share one).
	ord := And(Not(fNaN(a)), Not(fNaN(b)))
	ra, rb := fRank(a), fRank(b)
	switch op {
	case token.EQL:
		return And(ord, Eq(ra, rb))
	case token.NEQ:
		return Not(And(ord, Eq(ra, rb)))
	case token.LSS:
		return And(ord, mkop("<", BoolS, ra, rb))
	case token.LEQ:
		return And(ord, mkop("<=", BoolS, ra, rb))
	case token.GTR:
		return And(ord, mkop("<", BoolS, rb, ra))
	case token.GEQ:
		return And(ord, mkop("<=", BoolS, rb, ra))
	}
	panic("floatCmp")
}

func fNaN(a *Term) *Term {
	if _, ok := floatLitVal(a); ok {
		return False
	}
	return App("fnan_"+a.S.Name, BoolS, a)
}

func fRank(a *Term) *Term { return App("frk_"+a.S.Name, IntS, a) }

// floatLitVal returns the value of a literal of an uninterpreted float sort.
func floatLitVal(a *Term) (float64, bool) {
	if a.Op != "app" || len(a.Args) != 0 {
		return 0, false
	}
	if strings.HasPrefix(a.Name, "zero_") {
		return 0, true
	}
	if strings.HasPrefix(a.Name, "lit_"+a.S.Name+"_") {
		u, err := strconv.ParseUint(a.Name[len("lit_"+a.S.Name+"_"):], 16, 64)
		if err == nil {
			f := math.Float64frombits(u)
			return f, f == f
		}
	}
	return 0, false
}

// floatLitFacts orders the float literals that occur in the given terms.
func floatLitFacts(as []*Term) []*Term {
	lits := map[string][]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if _, ok := floatLitVal(t); ok {
			lits[t.S.Name] = append(lits[t.S.Name], t)
		}
		for _, x := range t.Args {
			rec(x)
		}
	}
	for _, a := range as {
		rec(a)
	}
	var out []*Term
	var sorts []string
	for n := range lits {
		sorts = append(sorts, n)
	}
	sort.Strings(sorts)
	for _, n := range sorts {
		l := lits[n]
		sort.Slice(l, func(i, j int) bool {
			a, _ := floatLitVal(l[i])
			b, _ := floatLitVal(l[j])
			return a < b
		})
		for _, x := range l {
			out = append(out, Not(App("fnan_"+x.S.Name, BoolS, x)))
		}
		for i := 0; i+1 < len(l); i++ {
			a, _ := floatLitVal(l[i])
			b, _ := floatLitVal(l[i+1])
			if a < b {
				out = append(out, mkop("<", BoolS, fRank(l[i]), fRank(l[i+1])))
			} else {
				out = append(out, Eq(fRank(l[i]), fRank(l[i+1])))
			}
		}
	}
	return out
}

// conversion between numeric types
func (ex *Exec) convNum(st *State, v *Val, to types.Type, spec bool) *Term {
	from := v.T
	if isIntT(from) && isIntT(to) {
		wf, sf, _ := intInfo(from)
		wt, _, _ := intInfo(to)
		if bvMode {
			return bvResize(v.t, wf, wt, sf)
		}
		if spec {
			// mathematical unless it really narrows: apply the Go meaning
			lo, hi := intRange(wt, func() bool { _, s, _ := intInfo(to); return s }())
			if fits(v.t, lo, hi) {
				return v.t
			}
			return wrapInt(v.t, to)
		}
		return wrapInt(v.t, to)
	}
	if isFloatT(from) && isFloatT(to) {
		sf, stt := floatSort(from), floatSort(to)
		if sf == stt {
			if floatMode == "real" && types.Identical(from.Underlying(), to.Underlying()) {
				return v.t
			}
			if floatMode != "real" {
				return v.t
			}
			// real mode: float64 -> float32 rounds
			if fb, tb := from.Underlying().(*types.Basic), to.Underlying().(*types.Basic); fb.Kind() == types.Float64 && tb.Kind() == types.Float32 {
				return App("fround32", RealS, v.t)
			}
			return v.t
		}
		if floatMode == "fp" {
			n := "(_ to_fp 8 24)"
			if stt == FP64S {
				n = "(_ to_fp 11 53)"
			}
			return TF.mk(Term{Op: n, S: stt, Args: []*Term{rne(), v.t}})
		}
		return App("fconv_"+sf.Name+"_"+stt.Name, stt, v.t)
	}
	if isIntT(from) && isFloatT(to) {
		stt := floatSort(to)
		if floatMode == "fp" && bvMode {
			n := "(_ to_fp 8 24)"
			_, s, _ := intInfo(from)
			if !s {
				n = "(_ to_fp_unsigned 8 24)"
			}
			if stt == FP64S {
				n = "(_ to_fp 11 53)"
				if !s {
					n = "(_ to_fp_unsigned 11 53)"
				}
			}
			return TF.mk(Term{Op: n, S: stt, Args: []*Term{rne(), v.t}})
		}
		if isNum(v.t) && !bvMode {
			f := new(big.Float).SetInt(v.t.Num)
			x, acc := f.Float32()
			if acc == big.Exact {
				switch floatMode {
				case "fp":
					if stt == FP32S {
						return fpLit(float64(x), 32)
					}
					return fpLit(float64(x), 64)
				case "real":
					return realLit(float64(x))
				}
			}
		}
		return App("i2f_"+sanitize(v.t.S.String())+"_"+sanitize(stt.String()), stt, v.t)
	}
	if isFloatT(from) && isIntT(to) {
		wt, s, _ := intInfo(to)
		if floatMode == "fp" && bvMode {
			o := fmt.Sprintf("(_ fp.to_sbv %d)", wt)
			if !s {
				o = fmt.Sprintf("(_ fp.to_ubv %d)", wt)
			}
			return TF.mk(Term{Op: o, S: BVS(wt), Args: []*Term{TF.mk(Term{Op: "lit", Name: "RTZ", S: mkSort(Sort{K: SRM})}), v.t}})
		}
		r := App(fmt.Sprintf("f2i_%s_%s", sanitize(v.t.S.String()), typeKey(to.Underlying())), scalarSort(to), v.t)
		markRange(r, to)
		return r
	}
	unsup("conversion %v -> %v", from, to)
	return nil
}

func bvResize(t *Term, wf, wt int, signed bool) *Term {
	if t.S.K != SBV {
		panic("bvResize non-bv")
	}
	wf = t.S.N
	if wf == wt {
		return t
	}
	if isNum(t) {
		n := new(big.Int).Set(t.Num)
		if signed && t.Num.Bit(wf-1) == 1 {
			n.Sub(n, new(big.Int).Lsh(big.NewInt(1), uint(wf)))
		}
		return BVC(n, wt)
	}
	if wt < wf {
		if (t.Op == fmt.Sprintf("(_ zero_extend %d)", wf-wt) || t.Op == fmt.Sprintf("(_ sign_extend %d)", wf-wt)) && t.Args[0].S.N == wt {
			return t.Args[0]
		}
		return TF.mk(Term{Op: fmt.Sprintf("(_ extract %d 0)", wt-1), S: BVS(wt), Args: []*Term{t}})
	}
	o := "zero_extend"
	if signed {
		o = "sign_extend"
	}
	return TF.mk(Term{Op: fmt.Sprintf("(_ %s %d)", o, wt-wf), S: BVS(wt), Args: []*Term{t}})
}
