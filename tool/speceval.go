package main

// Evaluation of contract expressions.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"
)

type SpecCtx struct {
	outer *SpecCtx // context of the enclosing old()
	ex       *Exec
	st       *State
	old      *State
	before   *State
	iter     *State
	loop     *loopDesc
	loopPos  token.Pos
	binds    map[string]*Val
	callee   *types.Func // names resolve in this function's package
	noLocals bool
	pol      int  // +1 goal, -1 assumption, 0 neutral
	params   bool // parameter names denote entry values (postconditions)
	pkg      *Pkg
	depth    int
}

func (c *SpecCtx) with(name string, v *Val) *SpecCtx {
	n := *c
	n.binds = map[string]*Val{}
	for k, x := range c.binds {
		n.binds[k] = x
	}
	n.binds[name] = v
	return &n
}

func (c *SpecCtx) flip() *SpecCtx    { n := *c; n.pol = -c.pol; return &n }
func (c *SpecCtx) neutral() *SpecCtx { n := *c; n.pol = 0; return &n }

func (c *SpecCtx) at(st *State) *SpecCtx { n := *c; n.st = st; return &n }

func specErr(f string, a ...interface{}) { unsup("contract: "+f, a...) }

// checkSpec: obligation for a clause.
func (ex *Exec) checkSpec(st *State, ctx *SpecCtx, cl Clause, name string, pos token.Pos) {
	if ex.noOblig > 0 || st.pc == False {
		return
	}
	c := *ctx
	c.st = st
	c.pol = 1
	for i, e := range splitConj(ex, cl.E, 0) {
		v := ex.specEval(&c, e)
		nm := name
		if i > 0 {
			nm = fmt.Sprintf("%s (part %d)", name, i+1)
		}
		src := cl.Src
		if cl.Line != "" {
			src = cl.Line + ": " + src
		}
		ex.oblige(st, "spec", nm, pos, v.t, src)
	}
}

// splitConj splits a clause into conjuncts (also expanding non-recursive predicates of conjunctions).
func splitConj(ex *Exec, e *SExpr, d int) []*SExpr {
	if e.Kind == "binary" && e.Name == "&&" {
		return append(splitConj(ex, e.Args[0], d), splitConj(ex, e.Args[1], d)...)
	}
	if e.Kind == "binary" && e.Name == "==>" {
		ps := splitConj(ex, e.Args[1], d)
		if len(ps) > 1 {
			var out []*SExpr
			for _, p := range ps {
				q := *e
				q.Args = []*SExpr{e.Args[0], p}
				out = append(out, &q)
			}
			return out
		}
	}
	if e.Kind == "call" && d < 4 {
		if f, ok := ex.specs.Fns[e.Name]; ok && f.Body != nil && !f.Rec && f.Ret == "bool" && f.Body.Kind == "binary" && f.Body.Name == "&&" && len(f.Params) == len(e.Args) {
			// only when arguments are simple (no capture problems): substitute syntactically
			m := map[string]*SExpr{}
			ok := true
			for i, p := range f.Params {
				m[p.Name] = e.Args[i]
				if !simpleArg(e.Args[i]) {
					ok = false
				}
			}
			if ok && !hasBinder(f.Body) {
				return splitConj(ex, substExpr(f.Body, m), d+1)
			}
			if ok {
				var out []*SExpr
				for _, p := range splitTop(f.Body) {
					out = append(out, &SExpr{Kind: "apply", Vars: f.Params, Args: append([]*SExpr{p}, e.Args...), Name: f.Pkg})
				}
				return out
			}
		}
	}
	return []*SExpr{e}
}

func splitTop(e *SExpr) []*SExpr {
	if e.Kind == "binary" && e.Name == "&&" {
		return append(splitTop(e.Args[0]), splitTop(e.Args[1])...)
	}
	return []*SExpr{e}
}

func simpleArg(e *SExpr) bool {
	switch e.Kind {
	case "ident", "int", "sel", "nil", "bool", "deref", "index", "slice", "call", "binary", "unary":
		for _, a := range e.Args {
			if a != nil && !simpleArg(a) {
				return false
			}
		}
		return true
	}
	return false
}

func hasBinder(e *SExpr) bool {
	if e == nil {
		return false
	}
	if e.Kind == "quant" || e.Kind == "let" || e.Kind == "seq" {
		return true
	}
	for _, a := range e.Args {
		if hasBinder(a) {
			return true
		}
	}
	return false
}

func substExpr(e *SExpr, m map[string]*SExpr) *SExpr {
	if e == nil {
		return nil
	}
	if e.Kind == "ident" {
		if r, ok := m[e.Name]; ok {
			return r
		}
		return e
	}
	n := *e
	n.Args = make([]*SExpr, len(e.Args))
	for i, a := range e.Args {
		n.Args[i] = substExpr(a, m)
	}
	return &n
}

func (ex *Exec) assumeSpec(st *State, ctx *SpecCtx, cl Clause) {
	c := *ctx
	c.st = st
	c.pol = -1
	v := ex.specEval(&c, cl.E)
	ex.assume(st, v.t)
}

func (ex *Exec) freshGhost(ty, name string) *Val {
	T := ex.specType(&SpecCtx{ex: ex}, ty)
	v := ex.freshVal(name, T, nil)
	return v
}

// ghostAssign converts a spec value to the declared type of a ghost variable.
func (ex *Exec) ghostAssign(st *State, name string, v *Val) *Val {
	if v.untyped != nil {
		v = ex.specConst(v, types.Typ[types.Int])
	}
	cur, ok := st.ghost[name]
	if ok && cur.T != nil {
		n := *v
		if isIntT(cur.T) && isIntT(v.T) && bvMode && cur.t != nil && cur.t.S != v.t.S {
			_, s, _ := intInfo(v.T)
			n.t = bvResize(v.t, v.t.S.N, cur.t.S.N, s)
		}
		n.T = cur.T
		return &n
	}
	return v
}

// specType resolves a type name of the contract language.
func (ex *Exec) specType(ctx *SpecCtx, s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case s == "int" || s == "":
		return types.Typ[types.Int]
	case s == "ref":
		return &RefT{}
	case strings.HasPrefix(s, "seq "):
		return &SeqT{ex.specType(ctx, s[4:])}
	case strings.HasPrefix(s, "seq["):
		return &SeqT{ex.specType(ctx, strings.TrimSuffix(s[4:], "]"))}
	case strings.HasPrefix(s, "rmap "):
		return &MapRT{ex.specType(ctx, s[5:])}
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(ex.specType(ctx, s[2:]))
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(ex.specType(ctx, s[1:]))
	case strings.HasPrefix(s, "["):
		i := strings.Index(s, "]")
		n, err := strconv.Atoi(s[1:i])
		if err != nil {
			specErr("array type %s", s)
		}
		return types.NewArray(ex.specType(ctx, s[i+1:]), int64(n))
	}
	if t := types.Universe.Lookup(s); t != nil {
		if tn, ok := t.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if T := ex.lookupNamed(ctx, s); T != nil {
		return T
	}
	specErr("unknown type %s", s)
	return nil
}

func (ex *Exec) ctxPkgs(ctx *SpecCtx) []*types.Package {
	var ps []*types.Package
	if ctx != nil && ctx.pkg != nil {
		ps = append(ps, ctx.pkg.Types)
	}
	if ctx != nil && ctx.callee != nil && ctx.callee.Pkg() != nil {
		ps = append(ps, ctx.callee.Pkg())
	}
	for f := ex.frame; f != nil; f = f.parent {
		if f.pkg != nil {
			ps = append(ps, f.pkg.Types)
		}
	}
	return ps
}

func (ex *Exec) lookupNamed(ctx *SpecCtx, s string) types.Type {
	if i := strings.LastIndex(s, "."); i >= 0 {
		for _, p := range ex.prog.Pkgs {
			if p.Name == s[:i] {
				if tn, ok := p.Types.Scope().Lookup(s[i+1:]).(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		return nil
	}
	for _, p := range ex.ctxPkgs(ctx) {
		if tn, ok := p.Scope().Lookup(s).(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return nil
}

func (c *SpecCtx) lookup(name string) *Val {
	if v, ok := c.binds[name]; ok {
		return v
	}
	ex := c.ex
	if c.st != nil {
		if v, ok := c.st.ghost[name]; ok && !strings.HasPrefix(name, "$ret") {
			return v
		}
	}
	if ex.letVals != nil && !c.noLocals {
		if v, ok := ex.letVals[name]; ok {
			return v
		}
	}
	if c.noLocals {
		return nil
	}
	if name == "$i" && c.loop != nil && c.loop.idx != nil {
		return c.loop.idx(c.st)
	}
	if c.params && ex.rootFrame != nil {
		if v, ok := ex.rootFrame.entry[name]; ok {
			return v
		}
	}
	pos := c.loopPos
	for f := ex.frame; f != nil; f = f.parent {
		if v := ex.findLocal(c.st, f, name, pos); v != nil {
			return v
		}
		pos = token.NoPos
	}
	if c.outer != nil {
		// a local that did not exist in the old state: its present value
		return c.outer.lookup(name)
	}
	return nil
}

// findLocal finds the innermost visible local variable of the given name.
func (ex *Exec) findLocal(st *State, f *Frame, name string, pos token.Pos) *Val {
	if st == nil || f.pkg == nil {
		return nil
	}
	var best *types.Var
	var bestScope *types.Scope
	for o := range st.vars {
		v, ok := o.(*types.Var)
		if !ok || v.Name() != name {
			continue
		}
		var lo, hi token.Pos
		if f.decl != nil {
			lo, hi = f.decl.Pos(), f.decl.End()
		} else if f.lit != nil {
			lo, hi = f.lit.Pos(), f.lit.End()
		}
		if v.Pos() < lo || v.Pos() > hi {
			continue
		}
		sc := v.Parent()
		if pos.IsValid() && sc != nil && !sc.Contains(pos) && sc.End() != pos {
			// not visible at the loop: keep only as a last resort
			if best == nil || (bestScope == nil && v.Pos() > best.Pos()) {
				best = v
				bestScope = nil
			}
			continue
		}
		if best == nil || bestScope == nil || (sc != nil && scopeDepth(sc) > scopeDepth(bestScope)) || (scopeDepth(sc) == scopeDepth(bestScope) && v.Pos() > best.Pos()) {
			best = v
			bestScope = sc
		}
	}
	if best == nil {
		return nil
	}
	save := ex.frame
	ex.frame = f
	defer func() { ex.frame = save }()
	v := ex.load(st, ex.varLoc(st, best))
	n := *v
	n.T = best.Type()
	return &n
}

func scopeDepth(s *types.Scope) int {
	n := 0
	for s != nil {
		n++
		s = s.Parent()
	}
	return n
}

// localLoc: location of a composite local variable.
func (c *SpecCtx) localLoc(name string) (Loc, bool) {
	if _, ok := c.binds[name]; ok || c.noLocals {
		return Loc{}, false
	}
	ex := c.ex
	if c.params && ex.rootFrame != nil {
		if _, ok := ex.rootFrame.entry[name]; ok {
			return Loc{}, false
		}
	}
	pos := c.loopPos
	for f := ex.frame; f != nil; f = f.parent {
		var best *types.Var
		for o := range c.st.vars {
			v, ok := o.(*types.Var)
			if !ok || v.Name() != name {
				continue
			}
			if f.decl == nil || v.Pos() < f.decl.Pos() || v.Pos() > f.decl.End() {
				continue
			}
			if pos.IsValid() && v.Parent() != nil && !v.Parent().Contains(pos) {
				continue
			}
			if best == nil || scopeDepth(v.Parent()) > scopeDepth(best.Parent()) || (scopeDepth(v.Parent()) == scopeDepth(best.Parent()) && v.Pos() > best.Pos()) {
				best = v
			}
		}
		if best != nil {
			save := ex.frame
			ex.frame = f
			l := ex.varLoc(c.st, best)
			ex.frame = save
			if l.kind == "ref" || l.kind == "elem" {
				return l, true
			}
			return Loc{}, false
		}
		pos = token.NoPos
	}
	return Loc{}, false
}

func (ex *Exec) specConst(v *Val, T types.Type) *Val {
	if v.untyped == nil {
		return v
	}
	if isFloatT(T) {
		return &Val{T: T, t: floatConst(constant.ToFloat(v.untyped), T)}
	}
	if isIntT(T) {
		n, ok := new(big.Int).SetString(constant.ToInt(v.untyped).ExactString(), 10)
		if !ok {
			specErr("constant %v as %v", v.untyped, T)
		}
		return &Val{T: T, t: intConst(n, T)}
	}
	specErr("constant %v as %v", v.untyped, T)
	return nil
}

// num makes sure an untyped constant has a term (default int).
func (ex *Exec) num(v *Val) *Val {
	if v.untyped != nil {
		if v.untyped.Kind() == constant.Float {
			return ex.specConst(v, types.Typ[types.Float32])
		}
		return ex.specConst(v, types.Typ[types.Int])
	}
	return v
}

func (ex *Exec) specBool(ctx *SpecCtx, e *SExpr) *Term {
	v := ex.specEval(ctx, e)
	if v.t == nil || v.t.S != BoolS {
		specErr("boolean expected: %s", sexprStr(e))
	}
	return v.t
}

func sexprStr(e *SExpr) string {
	if e == nil {
		return ""
	}
	s := e.Kind + ":" + e.Name
	if len(e.Args) > 0 {
		s += "("
		for i, a := range e.Args {
			if i > 0 {
				s += ","
			}
			s += sexprStr(a)
		}
		s += ")"
	}
	return s
}

func boolVal(t *Term) *Val { return &Val{T: types.Typ[types.Bool], t: t} }
func mintVal(t *Term) *Val { return &Val{T: types.Typ[types.Int], t: t} }

// specIdx: an expression as an index term.
func (ex *Exec) specIdx(ctx *SpecCtx, e *SExpr) *Term {
	v := ex.num(ex.specEval(ctx, e))
	return toIdx(v)
}

func (ex *Exec) specLoc(ctx *SpecCtx, e *SExpr) (Loc, bool) {
	switch e.Kind {
	case "ident":
		if l, ok := ctx.localLoc(e.Name); ok {
			return l, true
		}
		if ctx.lookup(e.Name) == nil {
			// package variable
			for _, p := range ex.ctxPkgs(ctx) {
				if v, ok := p.Scope().Lookup(e.Name).(*types.Var); ok {
					return ex.globalLoc(ctx.st, v), true
				}
			}
		}
		if v := ctx.lookup(e.Name); v != nil && v.loc != nil {
			return *v.loc, true
		}
	case "sel":
		base := e.Args[0]
		if l, ok := ex.specLoc(ctx, base); ok && l.kind == "ref" && isStructT(l.T) {
			if r, ok := ex.fieldByName(ctx, l.ref, l.T, e.Name); ok {
				return r, true
			}
			return Loc{}, false
		}
		v := ex.specEval(ctx, base)
		if v.T == nil {
			return Loc{}, false
		}
		if p, ok := v.T.Underlying().(*types.Pointer); ok && isComposite(p.Elem()) && v.t != nil {
			if r, ok := ex.fieldByName(ctx, v.t, p.Elem(), e.Name); ok {
				return r, true
			}
		}
	case "index":
		base := e.Args[0]
		if l, ok := ex.specLoc(ctx, base); ok && l.kind == "ref" {
			if at, ok := l.T.Underlying().(*types.Array); ok {
				return ex.elemLoc(l.ref, ex.specIdx(ctx, e.Args[1]), at.Elem()), true
			}
		}
		v := ex.specEval(ctx, base)
		if v.T != nil && isSlice(v.T) {
			return ex.elemLoc(v.arr(), Ix(v.off(), ex.specIdx(ctx, e.Args[1])), elemTypeOf(v.T)), true
		}
		if p, ok := v.T.Underlying().(*types.Pointer); ok && v.t != nil {
			if at, ok := p.Elem().Underlying().(*types.Array); ok {
				return ex.elemLoc(v.t, ex.specIdx(ctx, e.Args[1]), at.Elem()), true
			}
		}
	case "deref":
		v := ex.specEval(ctx, e.Args[0])
		if p, ok := v.T.Underlying().(*types.Pointer); ok {
			if isComposite(p.Elem()) {
				return Loc{kind: "ref", ref: v.t, T: p.Elem()}, true
			}
			return Loc{kind: "elem", ref: v.c[0].t, idx: v.c[1].t, T: p.Elem()}, true
		}
	}
	return Loc{}, false
}

func isStructT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func (ex *Exec) fieldByName(ctx *SpecCtx, ref *Term, T types.Type, name string) (Loc, bool) {
	u, ok := T.Underlying().(*types.Struct)
	if !ok {
		return Loc{}, false
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == name {
			return ex.fieldLoc(ref, T, i), true
		}
	}
	// promoted
	for i := 0; i < u.NumFields(); i++ {
		if !u.Field(i).Embedded() {
			continue
		}
		l := ex.fieldLoc(ref, T, i)
		if l.kind == "ref" {
			if r, ok := ex.fieldByName(ctx, l.ref, l.T, name); ok {
				return r, true
			}
			continue
		}
		if p, isP := l.T.Underlying().(*types.Pointer); isP && isComposite(p.Elem()) {
			v := ex.load(ctx.st, l)
			if r, ok := ex.fieldByName(ctx, v.t, p.Elem(), name); ok {
				return r, true
			}
		}
	}
	return Loc{}, false
}

func (ex *Exec) specEval(ctx *SpecCtx, e *SExpr) *Val {
	ex.noOblig++
	saveWS := ex.ws
	ex.ws = nil
	defer func() { ex.noOblig--; ex.ws = saveWS }()
	return ex.sev(ctx, e)
}

func (ex *Exec) sev(ctx *SpecCtx, e *SExpr) *Val {
	switch e.Kind {
	case "int":
		n, ok := new(big.Int).SetString(e.Name, 0)
		if !ok {
			specErr("integer %s", e.Name)
		}
		return &Val{untyped: constant.Make(n)}
	case "float":
		return &Val{untyped: constant.MakeFromLiteral(e.Name, token.FLOAT, 0)}
	case "bool":
		return boolVal(BoolC(e.Name == "true"))
	case "nil":
		return &Val{T: types.Typ[types.UntypedNil], t: Null()}
	case "string":
		return ex.constVal(constant.MakeString(e.Name), types.Typ[types.String])
	case "ident":
		return ex.sevIdent(ctx, e)
	case "sel":
		// qualified constant pkg.Name
		if e.Args[0].Kind == "ident" && ctx.lookup(e.Args[0].Name) == nil {
			if v := ex.pkgMember(ctx, e.Args[0].Name, e.Name); v != nil {
				return v
			}
		}
		if l, ok := ex.specLoc(ctx, e); ok {
			v := ex.load(ctx.st, l)
			n := *v
			n.T = l.T
			return &n
		}
		v := ex.sev(ctx, e.Args[0])
		if v.T != nil {
			if u, ok := v.T.Underlying().(*types.Struct); ok {
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() == e.Name {
						n := *v.c[i]
						n.T = u.Field(i).Type()
						return &n
					}
				}
			}
		}
		specErr("no field %s in %s (type %v)", e.Name, sexprStr(e.Args[0]), v.T)
	case "index":
		if l, ok := ex.specLoc(ctx, e); ok {
			v := ex.load(ctx.st, l)
			n := *v
			n.T = l.T
			return &n
		}
		v := ex.sev(ctx, e.Args[0])
		switch u := v.T.Underlying().(type) {
		case *SeqT:
			r := &Val{T: u.Elem, t: Select(v.t, ex.specIdx(ctx, e.Args[1]))}
			if heapRow(v.t) {
				ex.loadFacts(ctx.st, r, u.Elem)
			}
			return r
		case *MapRT:
			k := ex.sev(ctx, e.Args[1])
			return &Val{T: u.Elem, t: Select(v.t, k.t)}
		case *types.Array:
			if isComposite(u.Elem()) {
				ix := ex.specIdx(ctx, e.Args[1])
				if isNum(ix) {
					r := *v.c[ix.Num.Int64()]
					r.T = u.Elem()
					return &r
				}
				specErr("symbolic index of composite array value")
			}
			ix := ex.specIdx(ctx, e.Args[1])
			var ts []*Term
			for _, c := range v.c {
				ts = append(ts, Select(c.t, ix))
			}
			r := fromLeaves(u.Elem(), ts)
			ex.loadFacts(ctx.st, r, u.Elem())
			return r
		}
		specErr("index of %v", v.T)
	case "slice":
		v := ex.sev(ctx, e.Args[0])
		if at, ok := v.T.Underlying().(*types.Array); ok {
			l, ok := ex.specLoc(ctx, e.Args[0])
			if !ok || l.kind != "ref" {
				specErr("slice of array value")
			}
			v = sliceVal(types.NewSlice(at.Elem()), l.ref, idxC(0), idxC(at.Len()), idxC(at.Len()))
		}
		splitOff(v.off())
		lo, hi := idxC(0), v.ln()
		if e.Args[1] != nil {
			lo = ex.specIdx(ctx, e.Args[1])
		}
		if e.Args[2] != nil {
			hi = ex.specIdx(ctx, e.Args[2])
		}
		return sliceVal(v.T, v.arr(), Add(v.off(), lo), Sub(hi, lo), Sub(v.cp(), lo))
	case "deref":
		l, ok := ex.specLoc(ctx, e)
		if !ok {
			specErr("deref")
		}
		v := ex.load(ctx.st, l)
		n := *v
		n.T = l.T
		return &n
	case "unary":
		switch e.Name {
		case "!":
			return boolVal(Not(ex.specBool(ctx.flip(), e.Args[0])))
		case "&":
			l, ok := ex.specLoc(ctx, e.Args[0])
			if !ok {
				specErr("address of %s", sexprStr(e.Args[0]))
			}
			return ex.addrOf(l, types.NewPointer(l.T))
		case "-":
			v := ex.sev(ctx, e.Args[0])
			if v.untyped != nil {
				return &Val{untyped: constant.UnaryOp(token.SUB, v.untyped, 0)}
			}
			if isFloatT(v.T) {
				return &Val{T: v.T, t: ex.floatNeg(v.t)}
			}
			return &Val{T: v.T, t: Neg(v.t)}
		case "^":
			v := ex.num(ex.sev(ctx, e.Args[0]))
			if bvMode {
				return &Val{T: v.T, t: mkop("bvnot", v.t.S, v.t)}
			}
			w, s, _ := intInfo(v.T)
			if s {
				return &Val{T: v.T, t: Sub(IntC(-1), v.t)}
			}
			_, hi := intRange(w, false)
			return &Val{T: v.T, t: Sub(BigC(hi), v.t)}
		}
	case "binary":
		return ex.sevBinary(ctx, e)
	case "cond":
		c := ex.specBool(ctx.neutral(), e.Args[0])
		a := ex.sev(ctx, e.Args[1])
		b := ex.sev(ctx, e.Args[2])
		a, b = ex.unify(a, b)
		if a.untyped != nil {
			a, b = ex.num(a), ex.num(b)
		}
		if m := ex.mergeVal(c, a, b); m != nil {
			return m
		}
		specErr("conditional branches differ: %v %v", a.T, b.T)
	case "let":
		v := ex.sev(ctx.neutral(), e.Args[0])
		return ex.sev(ctx.with(e.Name, v), e.Args[1])
	case "apply":
		c2 := *ctx
		c2.binds = map[string]*Val{}
		for k, v := range ctx.binds {
			c2.binds[k] = v
		}
		for i, p := range e.Vars {
			c2.binds[p.Name] = ex.coerce(ctx, ex.sev(ctx.neutral(), e.Args[i+1]), p.Type)
		}
		return ex.sev(&c2, e.Args[0])
	case "quant":
		return ex.sevQuant(ctx, e)
	case "seq":
		i := BoundVar(e.Name, idxSort())
		var qf []*Term
		save := ex.quantFacts
		ex.quantFacts = &qf
		v := ex.num(ex.sev(ctx.with(e.Name, &Val{T: types.Typ[types.Int], t: i}), e.Args[0]))
		ex.quantFacts = save
		s := ArrS(idxSort(), v.t.S)
		nm := Fresh("seq", s)
		sel := TF.mk(Term{Op: "select", S: v.t.S, Args: []*Term{nm, i}})
		f := Forall([]*Term{i}, And(append(qf, Eq(sel, v.t))...), [][]*Term{{sel}})
		if f.hasBV {
			specErr("seq comprehension under a quantifier")
		}
		ex.facts = append(ex.facts, f)
		return &Val{T: &SeqT{v.T}, t: nm}
	case "call":
		return ex.sevCall(ctx, e)
	}
	specErr("expression kind %s", e.Kind)
	return nil
}

func (ex *Exec) sevIdent(ctx *SpecCtx, e *SExpr) *Val {
	if v := ctx.lookup(e.Name); v != nil {
		return v
	}
	// constants and package variables
	for _, p := range ex.ctxPkgs(ctx) {
		if v := ex.scopeMember(ctx, p, e.Name); v != nil {
			return v
		}
	}
	if f, ok := ex.specs.Fns[e.Name]; ok && len(f.Params) == 0 {
		return ex.sevCall(ctx, &SExpr{Kind: "call", Name: e.Name})
	}
	// a missing induction name in a range loop denotes the hidden index
	if ctx.loop != nil && ctx.loop.idx != nil && strings.HasPrefix(e.Name, "$") {
		return ctx.loop.idx(ctx.st)
	}
	specErr("unknown name %s", e.Name)
	return nil
}

func (ex *Exec) scopeMember(ctx *SpecCtx, p *types.Package, name string) *Val {
	switch o := p.Scope().Lookup(name).(type) {
	case *types.Const:
		if b, ok := o.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			if b.Kind() == types.UntypedBool {
				return boolVal(BoolC(constant.BoolVal(o.Val())))
			}
			return &Val{untyped: o.Val()}
		}
		return ex.constVal(o.Val(), o.Type())
	case *types.Var:
		v := ex.load(ctx.st, ex.globalLoc(ctx.st, o))
		n := *v
		n.T = o.Type()
		return &n
	case *types.Func:
		return &Val{T: o.Type(), fn: o, t: Null()}
	}
	return nil
}

func (ex *Exec) pkgMember(ctx *SpecCtx, pkg, name string) *Val {
	for _, p := range ex.prog.Pkgs {
		if p.Name == pkg {
			if v := ex.scopeMember(ctx, p.Types, name); v != nil {
				return v
			}
		}
	}
	if pkg == "math" {
		switch name {
		case "Pi":
			return &Val{untyped: constant.MakeFromLiteral("3.14159265358979323846264338327950288419716939937510582097494459", token.FLOAT, 0)}
		case "MaxFloat32":
			return &Val{untyped: constant.MakeFloat64(math.MaxFloat32)}
		}
	}
	return nil
}

// unify gives both operands compatible types.
func (ex *Exec) unify(a, b *Val) (*Val, *Val) {
	if a.untyped != nil && b.untyped != nil {
		return a, b
	}
	if a.untyped != nil {
		if isIntT(b.T) && !bvMode {
			return &Val{T: b.T, t: ex.bigConst(a)}, b
		}
		return ex.specConst(a, b.T), b
	}
	if b.untyped != nil {
		if isIntT(a.T) && !bvMode {
			return a, &Val{T: a.T, t: ex.bigConst(b)}
		}
		return a, ex.specConst(b, a.T)
	}
	if isUntypedNil(a.T) && !isUntypedNil(b.T) {
		return ex.zero(b.T), b
	}
	if isUntypedNil(b.T) && !isUntypedNil(a.T) {
		return a, ex.zero(a.T)
	}
	if bvMode && isIntT(a.T) && isIntT(b.T) && a.t.S != b.t.S {
		// widen the narrower operand
		if a.t.S.N < b.t.S.N {
			_, s, _ := intInfo(a.T)
			return &Val{T: b.T, t: bvResize(a.t, a.t.S.N, b.t.S.N, s)}, b
		}
		_, s, _ := intInfo(b.T)
		return a, &Val{T: a.T, t: bvResize(b.t, b.t.S.N, a.t.S.N, s)}
	}
	return a, b
}

func (ex *Exec) bigConst(a *Val) *Term {
	n, ok := new(big.Int).SetString(constant.ToInt(a.untyped).ExactString(), 10)
	if !ok {
		specErr("integer constant %v", a.untyped)
	}
	return BigC(n)
}

var specOps = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT,
	"==": token.EQL, "!=": token.NEQ, "<": token.LSS, "<=": token.LEQ, ">": token.GTR, ">=": token.GEQ}

func (ex *Exec) sevBinary(ctx *SpecCtx, e *SExpr) *Val {
	switch e.Name {
	case "&&":
		a := ex.specBool(ctx, e.Args[0])
		if a == False {
			return boolVal(False)
		}
		return boolVal(And(a, ex.specBool(ctx, e.Args[1])))
	case "||":
		a := ex.specBool(ctx, e.Args[0])
		if a == True {
			return boolVal(True)
		}
		return boolVal(Or(a, ex.specBool(ctx, e.Args[1])))
	case "==>":
		a := ex.specBool(ctx.flip(), e.Args[0])
		if a == False {
			return boolVal(True)
		}
		return boolVal(Imp(a, ex.specBool(ctx, e.Args[1])))
	case "<==>":
		return boolVal(Eq(ex.specBool(ctx.neutral(), e.Args[0]), ex.specBool(ctx.neutral(), e.Args[1])))
	}
	op := specOps[e.Name]
	a := ex.sev(ctx.neutral(), e.Args[0])
	b := ex.sev(ctx.neutral(), e.Args[1])
	if op == token.SHL || op == token.SHR {
		if a.untyped != nil && b.untyped != nil {
			n, _ := constant.Uint64Val(constant.ToInt(b.untyped))
			return &Val{untyped: constant.Shift(constant.ToInt(a.untyped), op, uint(n))}
		}
		a, b = ex.num(a), ex.num(b)
		bt := b.t
		if bvMode {
			bt = bvShiftCount(b, a.t.S.N)
		}
		return &Val{T: a.T, t: ex.intOp(ctx.st, op, a.t, bt, a.T, token.NoPos, true)}
	}
	a, b = ex.unify(a, b)
	if a.untyped != nil && b.untyped != nil {
		switch op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
			return boolVal(BoolC(constant.Compare(a.untyped, op, b.untyped)))
		}
		x, y := a.untyped, b.untyped
		if op == token.QUO && x.Kind() == constant.Int && y.Kind() == constant.Int {
			op = token.QUO_ASSIGN
		}
		return &Val{untyped: constant.BinaryOp(x, op, y)}
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		if op == token.EQL || op == token.NEQ {
			var r *Term
			if isFloatT(a.T) {
				// specification equality on floats is bit identity
				r = Eq(a.t, b.t)
			} else {
				r = ex.specEq(ctx, a, b)
			}
			if op == token.NEQ {
				r = Not(r)
			}
			return boolVal(r)
		}
		if isFloatT(a.T) {
			return boolVal(ex.floatCmp(op, a.t, b.t))
		}
		if a.t == nil || b.t == nil || a.t.S != b.t.S {
			specErr("comparison of %v and %v in %s", a.T, b.T, sexprStr(e))
		}
		T := a.T
		if bvMode {
			_, sa, _ := intInfo(a.T)
			_, sb, _ := intInfo(b.T)
			if sa != sb {
				T = a.T
			}
		}
		return boolVal(ex.intCmp(op, a.t, b.t, T))
	}
	if a.T != nil && isStringT(a.T) && op == token.ADD {
		return &Val{T: a.T, t: App("strcat", UnintS("Str"), a.t, b.t)}
	}
	if isFloatT(a.T) {
		return &Val{T: a.T, t: ex.floatOp(op, a.t, b.t)}
	}
	if a.t == nil || b.t == nil || a.t.S != b.t.S {
		specErr("operator %s on %v and %v", e.Name, a.T, b.T)
	}
	T := a.T
	if !bvMode {
		switch op {
		case token.ADD, token.SUB, token.MUL:
			T = types.Typ[types.Int]
		}
	}
	return &Val{T: T, t: ex.intOp(ctx.st, op, a.t, b.t, a.T, token.NoPos, true)}
}

// specEq: structural equality.
func (ex *Exec) specEq(ctx *SpecCtx, a, b *Val) *Term {
	x, y := a.leafTerms(), b.leafTerms()
	if len(x) != len(y) {
		specErr("equality of %v and %v", a.T, b.T)
	}
	if a.T != nil && isSlice(a.T) {
		if x[0] == Null() || y[0] == Null() {
			return Eq(x[0], y[0])
		}
		return And(Eq(x[0], y[0]), Eq(x[1], y[1]), Eq(x[2], y[2]))
	}
	if a.T != nil {
		if at, ok := a.T.Underlying().(*types.Array); ok && !isComposite(at.Elem()) {
			var cs []*Term
			if at.Len() > 32 {
				specErr("equality of large arrays: quantify instead")
			}
			for i := int64(0); i < at.Len(); i++ {
				for k := range x {
					cs = append(cs, Eq(Select(x[k], idxC(i)), Select(y[k], idxC(i))))
				}
			}
			return And(cs...)
		}
	}
	var cs []*Term
	for i := range x {
		if x[i].S != y[i].S {
			specErr("equality of %v and %v", a.T, b.T)
		}
		cs = append(cs, Eq(x[i], y[i]))
	}
	return And(cs...)
}

func (ex *Exec) sevQuant(ctx *SpecCtx, e *SExpr) *Val {
	var bs []*Term
	c := *ctx
	c.binds = map[string]*Val{}
	for k, v := range ctx.binds {
		c.binds[k] = v
	}
	var rng []*Term
	for _, v := range e.Vars {
		T := ex.specType(ctx, v.Type)
		var val *Val
		if isComposite(T) {
			specErr("quantification over composite type")
		}
		var ts []*Term
		for _, l := range leaves(T) {
			b := BoundVar(v.Name+l.name, l.s)
			bs = append(bs, b)
			ts = append(ts, b)
		}
		val = fromLeaves(T, ts)
		val.T = T
		if !bvMode && isIntT(T) && v.Type != "int" && v.Type != "" {
			w, s, _ := intInfo(T)
			lo, hi := intRange(w, s)
			rng = append(rng, mkop("<=", BoolS, BigC(lo), ts[0]), mkop("<=", BoolS, ts[0], BigC(hi)))
		}
		c.binds[v.Name] = val
	}
	var qf []*Term
	save := ex.quantFacts
	ex.quantFacts = &qf
	body := ex.specBool(&c, e.Args[0])
	var pats [][]*Term
	for _, tg := range e.Trig {
		var ps []*Term
		for _, t := range tg {
			v := ex.sev(c.neutral(), t)
			for _, lt := range v.leafTerms() {
				if lt.hasBV && lt.Op != "bound" {
					ps = append(ps, lt)
				}
			}
		}
		if len(ps) > 0 {
			pats = append(pats, ps)
		}
	}
	ex.quantFacts = save
	// distribute the collected facts
	mine := map[*Term]bool{}
	for _, b := range bs {
		mine[b] = true
	}
	var local []*Term
	seen := map[*Term]bool{}
	for _, f := range qf {
		if seen[f] {
			continue
		}
		seen[f] = true
		has := false
		for b := range freeBound(f) {
			if mine[b] {
				has = true
			}
		}
		if has {
			local = append(local, f)
			continue
		}
		if f.hasBV && save != nil {
			*save = append(*save, f)
		} else if !f.hasBV {
			ex.facts = append(ex.facts, f)
		}
	}
	rg := And(rng...)
	F := And(local...)
	var r *Term
	if e.Name == "forall" {
		switch {
		case ctx.pol > 0:
			r = Forall(bs, Imp(And(rg, F), body), pats)
		case ctx.pol < 0:
			r = Forall(bs, Imp(rg, And(F, body)), pats)
		default:
			r = Forall(bs, Imp(And(rg, F), body), pats)
		}
	} else {
		switch {
		case ctx.pol < 0:
			r = Exists(bs, And(rg, F, body))
		case ctx.pol > 0:
			r = Exists(bs, And(rg, Imp(F, body)))
		default:
			r = Exists(bs, And(rg, F, body))
		}
	}
	return boolVal(r)
}

// heapRow: contents of an actual array in memory (well-typed by construction),
// not an arbitrary sequence.
func heapRow(t *Term) bool {
	for t.Op == "store" {
		t = t.Args[0]
	}
	return t.Op == "select" && t.Args[0].S.K == SArray && t.Args[0].S.A == RefS && !t.hasBV
}

func (ex *Exec) coerce(ctx *SpecCtx, v *Val, ty string) *Val {
	T := ex.specType(ctx, ty)
	if v.untyped != nil {
		return ex.specConst(v, T)
	}
	if v.T != nil && isUntypedNil(v.T) {
		return ex.zero(T)
	}
	if bvMode && v.t != nil && isIntT(T) && v.T != nil && isIntT(v.T) {
		w, _, _ := intInfo(T)
		_, s, _ := intInfo(v.T)
		return &Val{T: T, t: bvResize(v.t, v.t.S.N, w, s)}
	}
	n := *v
	if v.T != nil && (isIntT(v.T) && isIntT(T)) {
		// keep the mathematical value, note the declared type
		n.T = T
		return &n
	}
	return &n
}

func (ex *Exec) sevCall(ctx *SpecCtx, e *SExpr) *Val {
	arg := func(i int) *Val { return ex.sev(ctx.neutral(), e.Args[i]) }
	switch e.Name {
	case "old":
		if ctx.old == nil {
			specErr("old() has no pre-state here")
		}
		c := *ctx
		c.st = ctx.old
		c.outer = ctx
		c.loopPos = token.NoPos
		if !ctx.noLocals {
			c.params = true
		}
		return ex.sev(&c, e.Args[0])
	case "pre", "before":
		if ctx.before == nil {
			specErr("before() outside a loop")
		}
		return ex.sev(ctx.at(ctx.before), e.Args[0])
	case "iter":
		if ctx.iter == nil {
			specErr("iter() outside a loop step")
		}
		return ex.sev(ctx.at(ctx.iter), e.Args[0])
	case "len", "cap":
		v := arg(0)
		if at, ok := v.T.Underlying().(*types.Array); ok {
			return mintVal(idxC(at.Len()))
		}
		if !isSlice(v.T) {
			specErr("%s of %v", e.Name, v.T)
		}
		if e.Name == "len" {
			return mintVal(v.ln())
		}
		return mintVal(v.cp())
	case "off":
		return mintVal(arg(0).off())
	case "arr":
		v := arg(0)
		if isSlice(v.T) {
			return &Val{T: &RefT{}, t: v.arr()}
		}
		return &Val{T: &RefT{}, t: v.leafTerms()[0]}
	case "ref":
		l, ok := ex.specLoc(ctx, e.Args[0])
		if ok && l.kind == "ref" {
			return &Val{T: &RefT{}, t: l.ref}
		}
		return &Val{T: &RefT{}, t: arg(0).leafTerms()[0]}
	case "root":
		return mintVal(Root(arg(0).leafTerms()[0]))
	case "raw":
		// contents of the backing array of a slice of scalars (or an array) as a sequence
		if l, ok := ex.specLoc(ctx, e.Args[0]); ok && l.kind == "ref" {
			if at, ok := l.T.Underlying().(*types.Array); ok {
				k := "A:" + typeKey(at.Elem())
				h := ex.heapGet(ctx.st, k, ArrS(RefS, ArrS(idxSort(), scalarSort(at.Elem()))))
				return &Val{T: &SeqT{at.Elem()}, t: Select(h, l.ref)}
			}
		}
		v := arg(0)
		if isSlice(v.T) {
			et := elemTypeOf(v.T)
			k := "A:" + typeKey(et)
			h := ex.heapGet(ctx.st, k, ArrS(RefS, ArrS(idxSort(), scalarSort(et))))
			return &Val{T: &SeqT{et}, t: Select(h, v.arr())}
		}
		if at, ok := v.T.Underlying().(*types.Array); ok {
			return &Val{T: &SeqT{at.Elem()}, t: v.c[0].t}
		}
		specErr("raw of %v", v.T)
	case "fresh":
		v := arg(0)
		base := IntC(0)
		if ctx.old != nil {
			base = ctx.old.hp
		}
		return boolVal(Le(base, Root(v.leafTerms()[0])))
	case "allocated":
		v := arg(0)
		return boolVal(Lt(Root(v.leafTerms()[0]), ctx.st.hp))
	case "disjoint":
		a, b := arg(0), arg(1)
		return boolVal(Neq(Root(a.leafTerms()[0]), Root(b.leafTerms()[0])))
	case "update":
		s := arg(0)
		i := ex.num(arg(1))
		v := arg(2)
		sq, ok := s.T.Underlying().(*SeqT)
		if !ok {
			if mr, ok := s.T.Underlying().(*MapRT); ok {
				if v.untyped != nil {
					v = ex.specConst(v, mr.Elem)
				}
				return &Val{T: s.T, t: Store(s.t, i.t, v.t)}
			}
			specErr("update of %v", s.T)
		}
		if v.untyped != nil {
			v = ex.specConst(v, sq.Elem)
		}
		return &Val{T: s.T, t: Store(s.t, toIdx(i), v.t)}
	case "constseq":
		v := ex.num(arg(0))
		return &Val{T: &SeqT{v.T}, t: ConstArr(ArrS(idxSort(), v.t.S), v.t)}
	case "abs":
		v := ex.num(arg(0))
		if isFloatT(v.T) {
			break
		}
		return &Val{T: v.T, t: Ite(ex.intCmp(token.LSS, v.t, intConst(big.NewInt(0), v.T), v.T), Neg(v.t), v.t)}
	case "min", "max":
		a, b := ex.unify(arg(0), arg(1))
		if a.untyped != nil {
			a, b = ex.num(a), ex.num(b)
		}
		op := token.LEQ
		if e.Name == "max" {
			op = token.GEQ
		}
		return &Val{T: a.T, t: Ite(ex.intCmp(op, a.t, b.t, a.T), a.t, b.t)}
	case "ite":
		return ex.sev(ctx, &SExpr{Kind: "cond", Args: e.Args})
	case "feq", "flt", "fle":
		a, b := ex.unify(arg(0), arg(1))
		op := map[string]token.Token{"feq": token.EQL, "flt": token.LSS, "fle": token.LEQ}[e.Name]
		return boolVal(ex.floatCmp(op, a.t, b.t))
	case "isnan":
		v := arg(0)
		if floatMode == "fp" {
			return boolVal(mkop("fp.isNaN", BoolS, v.t))
		}
		return boolVal(fNaN(v.t))
	case "isinf":
		v := arg(0)
		return boolVal(mkop("fp.isInfinite", BoolS, v.t))
	case "isnegzero":
		v := arg(0)
		return boolVal(And(mkop("fp.isZero", BoolS, v.t), mkop("fp.isNegative", BoolS, v.t)))
	case "typeok":
		// value lies in the range of its Go type
		v := arg(0)
		w, s, ok := intInfo(v.T)
		if !ok || bvMode {
			return boolVal(True)
		}
		lo, hi := intRange(w, s)
		return boolVal(And(mkop("<=", BoolS, BigC(lo), v.t), mkop("<=", BoolS, v.t, BigC(hi))))
	case "bool":
		return arg(0)
	}
	// spec functions
	if f, ok := ex.specs.Fns[e.Name]; ok {
		return ex.sevFn(ctx, f, e)
	}
	if e.Name == "math.Float32bits" || e.Name == "math.Float32frombits" {
		T, v := types.Type(types.Typ[types.Uint32]), arg(0)
		if floatMode == "fp" {
			unsup("%s in a contract with floats fp", e.Name)
		}
		ex.bitsAxiom()
		if e.Name == "math.Float32frombits" {
			T = types.Typ[types.Float32]
			return &Val{T: T, t: App("f32frombits", floatSort(T), v.t)}
		}
		r := App("f32bits", scalarSort(T), v.t)
		markRange(r, T)
		return &Val{T: T, t: r}
	}
	if strings.HasPrefix(e.Name, "math32.") || strings.HasPrefix(e.Name, "math.") {
		T := types.Type(types.Typ[types.Float32])
		if strings.HasPrefix(e.Name, "math.") {
			T = types.Typ[types.Float64]
		}
		rt := T
		if strings.Contains(e.Name, ".Is") {
			rt = types.Typ[types.Bool]
		}
		var vs []*Val
		for i := range e.Args {
			v := arg(i)
			if v.untyped != nil {
				v = ex.specConst(v, T)
			}
			vs = append(vs, v)
		}
		if r := ex.mathCall(e.Name[strings.Index(e.Name, ".")+1:], vs, rt); r != nil {
			return r
		}
	}
	// conversions
	if len(e.Args) == 1 {
		if T := ex.convType(ctx, e.Name); T != nil {
			v := arg(0)
			if v.untyped != nil {
				return ex.specConst(v, T)
			}
			if e.Name == "int" && !bvMode && isIntT(v.T) {
				n := *v
				n.T = types.Typ[types.Int]
				return &n
			}
			return ex.convVal(ctx.st, v, T, true)
		}
	}
	// Go function, evaluated symbolically on a scratch state
	if v := ex.sevGoCall(ctx, e); v != nil {
		return v
	}
	specErr("unknown function %s", e.Name)
	return nil
}

func (ex *Exec) convType(ctx *SpecCtx, name string) types.Type {
	if t, ok := types.Universe.Lookup(name).(*types.TypeName); ok {
		return t.Type()
	}
	return ex.lookupNamed(ctx, name)
}

func (ex *Exec) sevFn(ctx *SpecCtx, f *SpecFn, e *SExpr) *Val {
	if len(e.Args) != len(f.Params) {
		specErr("%s expects %d arguments", f.Name, len(f.Params))
	}
	var vs []*Val
	c2 := *ctx
	for _, p := range ex.prog.Pkgs {
		if p.Name == f.Pkg {
			c2.pkg = p
		}
	}
	for i, p := range f.Params {
		v := ex.sev(ctx.neutral(), e.Args[i])
		// struct locations pass by location
		cv := ex.coerce(&c2, v, p.Type)
		if l, ok := ex.specLocQuiet(ctx, e.Args[i]); ok && l.kind == "ref" {
			x := *cv
			x.loc = &l
			cv = &x
		}
		vs = append(vs, cv)
	}
	if f.Body != nil && !f.Rec && (!f.Opaque || ex.openFns[f.Name]) {
		if ctx.depth > 40 {
			specErr("predicate expansion too deep at %s", f.Name)
		}
		c2.depth++
		c2.binds = map[string]*Val{}
		for i, p := range f.Params {
			c2.binds[p.Name] = vs[i]
		}
		c2.noLocals = true
		r := ex.sev(&c2, f.Body)
		if r.untyped != nil && f.Ret != "bool" {
			r = ex.specConst(r, ex.specType(&c2, f.Ret))
		}
		return r
	}
	var ts []*Term
	for _, v := range vs {
		if f.Opaque {
			// the body may depend on its parameters only, so they must be plain values
			if _, isSeq := v.T.(*SeqT); isSeq {
				// a mathematical value
			} else if b, ok := v.T.Underlying().(*types.Basic); !ok || b.Info()&types.IsString != 0 {
				specErr("opaque %s: parameters must be scalars", f.Name)
			}
		}
		ts = append(ts, v.leafTerms()...)
	}
	RT := types.Type(types.Typ[types.Bool])
	if f.Ret != "bool" {
		RT = ex.specType(&c2, f.Ret)
	}
	s := BoolS
	if f.Ret != "bool" {
		s = scalarSort(RT)
	}
	nm := "sf_" + f.Name
	if f.Rec {
		if ex.recDepth > 0 {
			nm = "sf0_" + f.Name
		}
		ex.recAxiom(ctx, f, RT, s)
	}
	t := App(nm, s, ts...)
	if !bvMode && f.Ret != "int" && f.Ret != "bool" {
		markRange(t, RT)
	}
	return &Val{T: RT, t: t}
}

func (ex *Exec) specLocQuiet(ctx *SpecCtx, e *SExpr) (l Loc, ok bool) {
	switch e.Kind {
	case "ident", "sel", "index", "deref":
		return ex.specLoc(ctx, e)
	}
	return Loc{}, false
}

// recAxiom: one unfolding of a recursive spec function per mention.
func (ex *Exec) recAxiom(ctx *SpecCtx, f *SpecFn, RT types.Type, s *Sort) {
	k := "rec:" + f.Name
	if ex.axDone[k] {
		return
	}
	ex.axDone[k] = true
	var bs, ts []*Term
	binds := map[string]*Val{}
	for _, p := range f.Params {
		T := ex.specType(ctx, p.Type)
		var ls []*Term
		for _, l := range leaves(T) {
			b := BoundVar(p.Name+l.name, l.s)
			bs = append(bs, b)
			ls = append(ls, b)
		}
		ts = append(ts, ls...)
		v := fromLeaves(T, ls)
		v.T = T
		binds[p.Name] = v
	}
	ex.recDepth++
	var qf []*Term
	save := ex.quantFacts
	ex.quantFacts = &qf
	body := ex.num2(ex.sev(&SpecCtx{ex: ex, st: ctx.st, binds: binds, noLocals: true, pkg: ctx.pkg}, f.Body), RT)
	ex.quantFacts = save
	ex.recDepth--
	l1 := App("sf_"+f.Name, s, ts...)
	l0 := App("sf0_"+f.Name, s, ts...)
	ex.prologue = append(ex.prologue,
		Forall(bs, And(append(qf, Eq(l1, body.t))...), [][]*Term{{l1}}),
		Forall(bs, Eq(l1, l0), [][]*Term{{l1}}))
}

func (ex *Exec) num2(v *Val, T types.Type) *Val {
	if v.untyped != nil {
		return ex.specConst(v, T)
	}
	return v
}

// sevGoCall evaluates a real Go function as a specification function.
func (ex *Exec) sevGoCall(ctx *SpecCtx, e *SExpr) *Val {
	var fo *types.Func
	var recv *Val
	args := e.Args
	for _, p := range ex.ctxPkgs(ctx) {
		if o, ok := p.Scope().Lookup(e.Name).(*types.Func); ok {
			fo = o
			break
		}
	}
	if fo == nil && len(args) > 0 {
		v := ex.sev(ctx.neutral(), args[0])
		if v.T != nil {
			T := v.T
			o, _, _ := types.LookupFieldOrMethod(T, true, nil, e.Name)
			if o == nil {
				for _, p := range ex.ctxPkgs(ctx) {
					if o, _, _ = types.LookupFieldOrMethod(T, true, p, e.Name); o != nil {
						break
					}
				}
			}
			if m, ok := o.(*types.Func); ok {
				fo = m
				recv = v
				args = args[1:]
			}
		}
	}
	if fo == nil {
		return nil
	}
	sig := fo.Type().(*types.Signature)
	var vs []*Val
	for i := range args {
		v := ex.sev(ctx.neutral(), args[i])
		T := sig.Params().At(i).Type()
		if v.untyped != nil {
			v = ex.specConst(v, T)
		}
		if isUntypedNil(v.T) {
			v = ex.zero(T)
		}
		n := *v
		n.T = T
		vs = append(vs, &n)
	}
	decl := ex.prog.Funcs[fo]
	if decl == nil {
		return nil
	}
	if c, key := ex.contractFor(fo); c != nil && c.Function {
		ex.used[key] = true
		r := functionTerm(key, sig.Results().At(0).Type(), vs)
		if r.t.hasBV && ex.quantFacts != nil && r.t.S == IntS {
			*ex.quantFacts = append(*ex.quantFacts, mkop("<=", BoolS, BigC(r.t.lo), r.t), mkop("<=", BoolS, r.t, BigC(r.t.hi)))
		}
		return r
	}
	s := ctx.st.clone()
	save := ex.frame
	r := ex.inlineFunc(s, fo, decl, recv, vs, nil)
	ex.frame = save
	return r
}
