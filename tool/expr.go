package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
)

func (ex *Exec) info() *types.Info { return ex.frame.pkg.Info }

func (ex *Exec) typeOf(e ast.Expr) types.Type {
	tv, ok := ex.info().Types[e]
	if ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := ex.info().Uses[id]; o != nil {
			return o.Type()
		}
		if o := ex.info().Defs[id]; o != nil {
			return o.Type()
		}
	}
	unsup("no type for expression")
	return nil
}

func defaultType(t types.Type) types.Type {
	return types.Default(t)
}

// evalTo evaluates e and converts untyped constants / nil to T.
func (ex *Exec) evalTo(st *State, e ast.Expr, T types.Type) *Val {
	tv := ex.info().Types[e]
	if tv.Value != nil {
		if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped == 0 {
			return ex.constVal(tv.Value, T)
		}
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return ex.constVal(tv.Value, types.Default(tv.Type))
		}
		return ex.constVal(tv.Value, tv.Type)
	}
	if tv.IsNil() {
		return ex.zero(T)
	}
	v := ex.eval(st, e)
	return ex.implicitConv(v, T)
}

func (ex *Exec) implicitConv(v *Val, T types.Type) *Val {
	if v == nil || T == nil {
		return v
	}
	if _, isI := T.Underlying().(*types.Interface); isI {
		if v.T != nil {
			if _, vi := v.T.Underlying().(*types.Interface); !vi {
				// boxing
				n := &Val{T: T, dyn: v.T}
				if p, ok := v.T.Underlying().(*types.Pointer); ok && !isCellPtr(v.T) {
					_ = p
					n.t = v.t
				} else {
					n.t = Fresh("box", RefS)
					ex.facts = append(ex.facts, Neq(n.t, Null()))
				}
				return n
			}
		}
	}
	if v.T != nil && !types.Identical(v.T, T) {
		n := *v
		n.T = T
		return &n
	}
	return v
}

func (ex *Exec) eval(st *State, e ast.Expr) *Val {
	tv, ok := ex.info().Types[e]
	if ok && tv.Value != nil {
		t := tv.Type
		if b, isb := t.Underlying().(*types.Basic); isb && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		return ex.constVal(tv.Value, t)
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		return ex.eval(st, e.X)
	case *ast.Ident:
		if e.Name == "nil" && ok && tv.IsNil() {
			return &Val{T: types.Typ[types.UntypedNil], t: Null()}
		}
		o := ex.info().Uses[e]
		if o == nil {
			o = ex.info().Defs[e]
		}
		if f, isf := o.(*types.Func); isf {
			return &Val{T: f.Type(), t: App("func_"+funcKey(f), RefS), fn: f}
		}
		return ex.load(st, ex.identLoc(st, e))
	case *ast.SelectorExpr:
		if sel := ex.info().Selections[e]; sel != nil {
			if sel.Kind() == types.FieldVal {
				return ex.evalField(st, e, sel)
			}
			unsup("method value %s", e.Sel.Name)
		}
		o := ex.info().Uses[e.Sel]
		switch o := o.(type) {
		case *types.Var:
			return ex.load(st, ex.globalLoc(st, o))
		case *types.Func:
			return &Val{T: o.Type(), t: App("func_"+funcKey(o), RefS), fn: o}
		}
		unsup("selector %s", e.Sel.Name)
	case *ast.IndexExpr:
		xt := ex.typeOf(e.X)
		if _, isMap := xt.Underlying().(*types.Map); isMap {
			unsup("map index")
		}
		if isStringT(xt) {
			unsup("string index")
		}
		if _, isSig := xt.Underlying().(*types.Signature); isSig {
			unsup("generic function")
		}
		return ex.load(st, ex.indexLoc(st, e))
	case *ast.StarExpr:
		return ex.load(st, ex.derefLoc(st, e))
	case *ast.SliceExpr:
		return ex.evalSlice(st, e)
	case *ast.UnaryExpr:
		return ex.evalUnary(st, e)
	case *ast.BinaryExpr:
		return ex.evalBinary(st, e)
	case *ast.CallExpr:
		return ex.evalCall(st, e)
	case *ast.CompositeLit:
		return ex.evalComposite(st, e, ex.typeOf(e))
	case *ast.TypeAssertExpr:
		x := ex.eval(st, e.X)
		T := ex.typeOf(e)
		if tup, isT := T.(*types.Tuple); isT {
			T0 := tup.At(0).Type()
			okv := Fresh("assertok", BoolS)
			if _, isP := T0.Underlying().(*types.Pointer); isP && !isCellPtr(T0) {
				if x.dyn != nil {
					okv = BoolC(types.Identical(x.dyn, T0))
				}
				return &Val{T: T, c: []*Val{{T: T0, t: Ite(okv, x.t, Null())}, {T: types.Typ[types.Bool], t: okv}}}
			}
			return &Val{T: T, c: []*Val{ex.freshVal("assert", T0, st), {T: types.Typ[types.Bool], t: okv}}}
		}
		if x.dyn != nil && types.Identical(x.dyn, T) {
		} else {
			ex.oblige(st, "panic", "type assertion holds", e.Pos(), App("typeis_"+typeKey(T), BoolS, x.t), "")
		}
		if _, isP := T.Underlying().(*types.Pointer); isP && !isCellPtr(T) {
			return &Val{T: T, t: x.t}
		}
		return ex.freshVal("assert", T, st)
	case *ast.FuncLit:
		return &Val{T: ex.typeOf(e), t: Fresh("funclit", RefS), lit: e}
	}
	unsup("expression %T", e)
	return nil
}

func (ex *Exec) identLoc(st *State, e *ast.Ident) Loc {
	if e.Name == "_" {
		return Loc{kind: "blank"}
	}
	o := ex.info().Uses[e]
	if o == nil {
		o = ex.info().Defs[e]
	}
	v, ok := o.(*types.Var)
	if !ok {
		unsup("identifier %s", e.Name)
	}
	return ex.varLoc(st, v)
}

func (ex *Exec) varLoc(st *State, v *types.Var) Loc {
	if v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
		return ex.globalLoc(st, v)
	}
	if cell, isAddr := st.vars[v]; isAddr && cell != nil && cell.T == cellMarker {
		if isComposite(v.Type()) {
			return Loc{kind: "ref", ref: cell.t, T: v.Type()}
		}
		return Loc{kind: "elem", ref: cell.t, idx: idxC(0), T: v.Type()}
	}
	return Loc{kind: "var", obj: v, T: v.Type()}
}

var cellMarker types.Type = &RefT{}

// declare a local variable with initial value
func (ex *Exec) declare(st *State, v *types.Var, init *Val) {
	if v.Name() == "_" {
		return
	}
	if isComposite(v.Type()) || ex.isAddrTaken(v) {
		ref := ex.alloc(st)
		if ex.ws != nil {
			ex.ws.vars[v] = true
		}
		st.vars[v] = &Val{T: cellMarker, t: ref}
		if isComposite(v.Type()) {
			ex.storeComposite(st, ref, v.Type(), init)
		} else {
			ex.store(st, Loc{kind: "elem", ref: ref, idx: idxC(0), T: v.Type()}, init)
		}
		return
	}
	ex.store(st, Loc{kind: "var", obj: v, T: v.Type()}, init)
}

func (ex *Exec) isAddrTaken(v *types.Var) bool {
	for f := ex.frame; f != nil; f = f.parent {
		if f.addr[v] {
			return true
		}
	}
	return false
}

func (ex *Exec) globalLoc(st *State, v *types.Var) Loc {
	name := "glob_" + v.Pkg().Name() + "." + v.Name()
	ref := App(name, RefS)
	if !ex.globFacts[name] {
		ex.globFacts[name] = true
		ix := len(ex.globFacts)
		ex.facts = append(ex.facts, Eq(App("root", IntS, ref), IntC(int64(-10-ix))), Neq(ref, Null()))
		ex.globalInit(v, ref)
	}
	if isComposite(v.Type()) {
		return Loc{kind: "ref", ref: ref, T: v.Type()}
	}
	return Loc{kind: "elem", ref: ref, idx: idxC(0), T: v.Type()}
}

// globalInit: contents of never-assigned package variables with constant initialisers.
func (ex *Exec) globalInit(v *types.Var, ref *Term) {
	pk := ex.prog.Pkgs[v.Pkg().Path()]
	if pk == nil || ex.prog.globalMutated(pk, v, false) {
		return
	}
	for _, f := range pk.Files {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for i, n := range vs.Names {
					if pk.Info.Defs[n] != v || i >= len(vs.Values) {
						continue
					}
					ex.globalInitExpr(pk, v, ref, vs.Values[i])
				}
			}
		}
	}
}

func (ex *Exec) globalInitExpr(pk *Pkg, v *types.Var, ref *Term, e ast.Expr) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(unsupported); !ok {
				panic(r)
			}
		}
	}()
	save := ex.frame
	defer func() { ex.frame = save }()
	ex.frame = &Frame{pkg: pk, parent: nil}
	if ex.entry == nil {
		return
	}
	// evaluate against a scratch state; only pure constant initialisers
	if !constInit(pk.Info, e) {
		return
	}
	st := ex.entry
	if cl, ok := e.(*ast.CompositeLit); ok {
		if at, ok := v.Type().Underlying().(*types.Array); ok && !isComposite(at.Elem()) {
			var ix int64
			for _, el := range cl.Elts {
				x := el
				if kv, ok := el.(*ast.KeyValueExpr); ok {
					k := pk.Info.Types[kv.Key].Value
					ix, _ = constant.Int64Val(k)
					x = kv.Value
				}
				lv := ex.load(st, Loc{kind: "elem", ref: ref, idx: idxC(ix), T: at.Elem()})
				cv := ex.constVal(pk.Info.Types[x].Value, at.Elem())
				ex.facts = append(ex.facts, Eq(lv.t, cv.t))
				ix++
			}
		}
		return
	}
	if tv := pk.Info.Types[e]; tv.Value != nil {
		lv := ex.load(st, Loc{kind: "elem", ref: ref, idx: idxC(0), T: v.Type()})
		cv := ex.constVal(tv.Value, v.Type())
		ex.facts = append(ex.facts, Eq(lv.t, cv.t))
	}
}

func constInit(info *types.Info, e ast.Expr) bool {
	if tv := info.Types[e]; tv.Value != nil {
		return true
	}
	if cl, ok := e.(*ast.CompositeLit); ok {
		for _, el := range cl.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				el = kv.Value
			}
			if !constInit(info, el) {
				return false
			}
		}
		return true
	}
	return false
}

// globalMutated: v may be assigned (or aliased) in its package; with exceptInit
// set, assignments inside init functions do not count.
func (p *Program) globalMutated(pk *Pkg, v *types.Var, exceptInit bool) bool {
	mut := false
	rootIs := func(e ast.Expr) bool {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.IndexExpr:
				e = x.X
			case *ast.SelectorExpr:
				if pk.Info.Uses[x.Sel] == v {
					return true
				}
				e = x.X
			case *ast.SliceExpr:
				e = x.X
			case *ast.Ident:
				return pk.Info.Uses[x] == v
			default:
				return false
			}
		}
	}
	for _, f := range pk.Files {
		ast.Inspect(f, func(n ast.Node) bool {
			if fd, ok := n.(*ast.FuncDecl); ok && exceptInit && fd.Recv == nil && fd.Name.Name == "init" {
				return false
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					if rootIs(l) {
						mut = true
					}
				}
			case *ast.IncDecStmt:
				if rootIs(n.X) {
					mut = true
				}
			case *ast.UnaryExpr:
				if n.Op == token.AND && rootIs(n.X) {
					mut = true
				}
			case *ast.SliceExpr:
				if rootIs(n.X) {
					mut = true
				}
			}
			return true
		})
	}
	return mut
}

func (ex *Exec) nilCheck(st *State, ref *Term, pos token.Pos) {
	switch ref.Op {
	case "obj", "elem", "sub":
		return
	}
	ex.oblige(st, "panic", "nil dereference", pos, Neq(ref, Null()), "")
}

// struct field access following the selection path
func (ex *Exec) fieldSelLoc(st *State, e *ast.SelectorExpr, sel *types.Selection) Loc {
	var ref *Term
	T := sel.Recv()
	if p, ok := T.Underlying().(*types.Pointer); ok {
		v := ex.eval(st, e.X)
		ref = v.t
		ex.nilCheck(st, ref, e.Pos())
		T = p.Elem()
	} else {
		l := ex.addrLoc(st, e.X)
		if l.kind != "ref" {
			unsup("field of non-addressable struct")
		}
		ref = l.ref
	}
	path := sel.Index()
	for i, ix := range path {
		l := ex.fieldLoc(ref, T, ix)
		if i == len(path)-1 {
			return l
		}
		T = l.T
		if l.kind == "ref" {
			ref = l.ref
			continue
		}
		if p, ok := T.Underlying().(*types.Pointer); ok {
			v := ex.load(st, l)
			ref = v.t
			ex.nilCheck(st, ref, e.Pos())
			T = p.Elem()
			continue
		}
		unsup("embedded field path")
	}
	panic("fieldSelLoc")
}

func (ex *Exec) evalField(st *State, e *ast.SelectorExpr, sel *types.Selection) *Val {
	T := sel.Recv()
	if _, ok := T.Underlying().(*types.Pointer); !ok {
		if !ex.addressable(e.X) {
			v := ex.eval(st, e.X)
			for _, ix := range sel.Index() {
				v = v.c[ix]
			}
			n := *v
			n.T = sel.Type()
			return &n
		}
	}
	return ex.load(st, ex.fieldSelLoc(st, e, sel))
}

func (ex *Exec) addressable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.addressable(x.X)
	case *ast.Ident:
		return true
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		t := ex.typeOf(x.X)
		if _, ok := t.Underlying().(*types.Slice); ok {
			return true
		}
		if p, ok := t.Underlying().(*types.Pointer); ok {
			_ = p
			return true
		}
		return ex.addressable(x.X)
	case *ast.SelectorExpr:
		if sel := ex.info().Selections[x]; sel != nil {
			if _, ok := sel.Recv().Underlying().(*types.Pointer); ok {
				return true
			}
			return ex.addressable(x.X)
		}
		return true
	}
	return false
}

// addrLoc computes the location denoted by an addressable expression.
func (ex *Exec) addrLoc(st *State, e ast.Expr) Loc {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ex.addrLoc(st, x.X)
	case *ast.Ident:
		return ex.identLoc(st, x)
	case *ast.StarExpr:
		return ex.derefLoc(st, x)
	case *ast.IndexExpr:
		return ex.indexLoc(st, x)
	case *ast.SelectorExpr:
		if sel := ex.info().Selections[x]; sel != nil {
			return ex.fieldSelLoc(st, x, sel)
		}
		if v, ok := ex.info().Uses[x.Sel].(*types.Var); ok {
			return ex.globalLoc(st, v)
		}
	case *ast.CompositeLit:
		// &T{...}
		T := ex.typeOf(x)
		if len(x.Elts) == 0 && isComposite(T) {
			ref := ex.alloc(st)
			ex.zeroObj(st, ref, T)
			return Loc{kind: "ref", ref: ref, T: T}
		}
		v := ex.evalComposite(st, x, T)
		ref := ex.alloc(st)
		ex.storeComposite(st, ref, T, v)
		return Loc{kind: "ref", ref: ref, T: T}
	case *ast.CallExpr:
		// struct-valued call: materialise
		v := ex.eval(st, x)
		T := ex.typeOf(x)
		if isComposite(T) {
			ref := ex.alloc(st)
			ex.storeComposite(st, ref, T, v)
			return Loc{kind: "ref", ref: ref, T: T}
		}
	}
	unsup("address of %T", e)
	return Loc{}
}

func (ex *Exec) derefLoc(st *State, e *ast.StarExpr) Loc {
	p := ex.eval(st, e.X)
	pt := p.T.Underlying().(*types.Pointer)
	return ex.ptrLoc(st, p, pt.Elem(), e.Pos())
}

func (ex *Exec) ptrLoc(st *State, p *Val, elem types.Type, pos token.Pos) Loc {
	if isComposite(elem) {
		ex.nilCheck(st, p.t, pos)
		return Loc{kind: "ref", ref: p.t, T: elem}
	}
	ex.nilCheck(st, p.c[0].t, pos)
	return Loc{kind: "elem", ref: p.c[0].t, idx: p.c[1].t, T: elem}
}

// index value converted to index sort
func (ex *Exec) evalIndex(st *State, e ast.Expr) *Term {
	tv := ex.info().Types[e]
	if tv.Value != nil {
		n, _ := new(big.Int).SetString(constant.ToInt(tv.Value).ExactString(), 10)
		if bvMode {
			return BVC(n, 64)
		}
		return BigC(n)
	}
	v := ex.eval(st, e)
	return toIdx(v)
}

func toIdx(v *Val) *Term {
	if !bvMode {
		return v.t
	}
	_, s, _ := intInfo(v.T)
	return bvResize(v.t, v.t.S.N, 64, s)
}

func idxLe(a, b *Term) *Term {
	if bvMode {
		return bvcmp("bvsle", a, b)
	}
	return Le(a, b)
}
func idxLt(a, b *Term) *Term {
	if bvMode {
		return bvcmp("bvslt", a, b)
	}
	return Lt(a, b)
}

func (ex *Exec) indexLoc(st *State, e *ast.IndexExpr) Loc {
	xt := ex.typeOf(e.X)
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		s := ex.eval(st, e.X)
		i := ex.evalIndex(st, e.Index)
		ex.boundsCheck(st, i, s.ln(), e.Pos(), exprStr(e))
		return ex.elemLoc(s.arr(), Ix(s.off(), i), u.Elem())
	case *types.Array:
		var ref *Term
		if ex.addressable(e.X) {
			l := ex.addrLoc(st, e.X)
			if l.kind != "ref" {
				unsup("array location")
			}
			ref = l.ref
		} else {
			v := ex.eval(st, e.X)
			ref = ex.alloc(st)
			ex.storeComposite(st, ref, xt, v)
		}
		i := ex.evalIndex(st, e.Index)
		ex.boundsCheck(st, i, idxC(u.Len()), e.Pos(), exprStr(e))
		return ex.elemLoc(ref, i, u.Elem())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := ex.eval(st, e.X)
		ex.nilCheck(st, p.t, e.Pos())
		i := ex.evalIndex(st, e.Index)
		ex.boundsCheck(st, i, idxC(at.Len()), e.Pos(), exprStr(e))
		return ex.elemLoc(p.t, i, at.Elem())
	}
	unsup("index of %v", xt)
	return Loc{}
}

func (ex *Exec) boundsCheck(st *State, i, n *Term, pos token.Pos, src string) {
	ex.oblige(st, "panic", "index in range", pos, And(idxLe(idxC(0), i), idxLt(i, n)), src)
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

func (ex *Exec) evalSlice(st *State, e *ast.SliceExpr) *Val {
	xt := ex.typeOf(e.X)
	T := ex.typeOf(e)
	var arr, off, ln, cp *Term
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		s := ex.eval(st, e.X)
		arr, off, ln, cp = s.arr(), s.off(), s.ln(), s.cp()
	case *types.Array:
		l := ex.addrLoc(st, e.X)
		if l.kind != "ref" {
			unsup("slice of array location")
		}
		arr, off, ln, cp = l.ref, idxC(0), idxC(u.Len()), idxC(u.Len())
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := ex.eval(st, e.X)
		ex.nilCheck(st, p.t, e.Pos())
		arr, off, ln, cp = p.t, idxC(0), idxC(at.Len()), idxC(at.Len())
	default:
		if isStringT(xt) {
			for _, b := range []ast.Expr{e.Low, e.High} {
				if b != nil {
					ex.eval(st, b)
				}
			}
			unsup("string slicing")
		}
		unsup("slice of %v", xt)
	}
	splitOff(off) // marks the offset as a base for element positions
	lo, hi, mx := idxC(0), ln, cp
	if e.Low != nil {
		lo = ex.evalIndex(st, e.Low)
	}
	if e.High != nil {
		hi = ex.evalIndex(st, e.High)
	}
	if e.Max != nil {
		mx = ex.evalIndex(st, e.Max)
	}
	conds := []*Term{idxLe(idxC(0), lo), idxLe(lo, hi), idxLe(hi, mx)}
	if e.Max != nil {
		conds = append(conds, idxLe(mx, cp))
	}
	ex.oblige(st, "panic", "slice bounds in range", e.Pos(), And(conds...), exprStr(e))
	r := sliceVal(T, arr, Add(off, lo), Sub(hi, lo), Sub(mx, lo))
	return r
}

func (ex *Exec) evalUnary(st *State, e *ast.UnaryExpr) *Val {
	T := ex.typeOf(e)
	switch e.Op {
	case token.NOT:
		v := ex.eval(st, e.X)
		return &Val{T: T, t: Not(v.t)}
	case token.ADD:
		return ex.eval(st, e.X)
	case token.SUB:
		v := ex.evalTo(st, e.X, T)
		if isFloatT(T) {
			return &Val{T: T, t: ex.floatNeg(v.t)}
		}
		if bvMode {
			return &Val{T: T, t: Neg(v.t)}
		}
		return &Val{T: T, t: ex.intOp(st, token.SUB, IntC(0), v.t, T, e.Pos(), false)}
	case token.XOR:
		v := ex.evalTo(st, e.X, T)
		if bvMode {
			return &Val{T: T, t: mkop("bvnot", v.t.S, v.t)}
		}
		w, signed, _ := intInfo(T)
		if signed {
			return &Val{T: T, t: Sub(IntC(-1), v.t)}
		}
		_, hi := intRange(w, false)
		return &Val{T: T, t: Sub(BigC(hi), v.t)}
	case token.AND:
		if cl, ok := unparen(e.X).(*ast.CompositeLit); ok {
			l := ex.addrLoc(st, cl)
			return &Val{T: T, t: l.ref}
		}
		l := ex.addrLoc(st, e.X)
		return ex.addrOf(l, T)
	}
	unsup("unary %v", e.Op)
	return nil
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (ex *Exec) addrOf(l Loc, T types.Type) *Val {
	switch l.kind {
	case "ref":
		return &Val{T: T, t: l.ref}
	case "elem":
		return &Val{T: T, c: []*Val{{t: l.ref}, {t: l.idx}}}
	}
	unsup("address of %s location", l.kind)
	return nil
}

func (ex *Exec) evalBinary(st *State, e *ast.BinaryExpr) *Val {
	T := ex.typeOf(e)
	switch e.Op {
	case token.LAND, token.LOR:
		l := ex.eval(st, e.X)
		cond := l.t
		if e.Op == token.LOR {
			cond = Not(cond)
		}
		if cond == False && ex.dry == 0 {
			return &Val{T: T, t: l.t}
		}
		s2 := st.clone()
		s2.pc = And(st.pc, cond)
		r := ex.eval(s2, e.Y)
		if e.Op == token.LAND {
			l = &Val{T: T, t: And(l.t, r.t)}
		} else {
			l = &Val{T: T, t: Or(l.t, r.t)}
		}
		if ex.heapChanged(st, s2) {
			s1 := st.clone()
			s1.pc = And(st.pc, Not(cond))
			pc := st.pc
			m := ex.merge(s2, s1)
			if m != nil {
				st.set(m)
				st.pc = pc
			}
		} else {
			st.hp = s2.hp
		}
		return l
	}
	tx, ty := ex.typeOf(e.X), ex.typeOf(e.Y)
	if e.Op == token.SHL || e.Op == token.SHR {
		x := ex.evalTo(st, e.X, T)
		y := ex.eval(st, e.Y)
		yt := y.t
		if _, sg, _ := intInfo(y.T); sg && !isNum(yt) {
			ex.oblige(st, "panic", "shift count non-negative", e.Pos(), ex.intCmp(token.GEQ, yt, intConst(big.NewInt(0), y.T), y.T), "")
		}
		if bvMode {
			yt = bvShiftCount(y, x.t.S.N)
		}
		return &Val{T: T, t: ex.intOp(st, e.Op, x.t, yt, T, e.Pos(), false)}
	}
	// operand type
	ot := tx
	if isUntyped(tx) && !isUntyped(ty) {
		ot = ty
	} else if isUntyped(tx) && isUntyped(ty) {
		ot = types.Default(tx)
	}
	if isUntypedNil(tx) {
		ot = ty
	}
	if _, yi := ty.Underlying().(*types.Interface); yi {
		ot = ty
	}
	x := ex.evalTo(st, e.X, ot)
	y := ex.evalTo(st, e.Y, ot)
	switch e.Op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return &Val{T: T, t: ex.compare(st, e.Op, x, y, ot)}
	}
	if e.Op == token.SUB && x.uptr != nil && y.uptr != nil && types.Identical(x.uelem, y.uelem) {
		d := Fresh("ptrdiff", scalarSort(ot))
		markRange(d, ot)
		return &Val{T: T, t: d, udiff: [2]*Term{x.uptr, y.uptr}, uelem: x.uelem}
	}
	if e.Op == token.QUO && x.udiff[0] != nil {
		// distance of two elements of one array divided by the element size
		p, q := x.udiff[0], x.udiff[1]
		if c := ex.info().Types[e.Y].Value; c == nil || !isSizeofOf(ex.info(), e.Y, x.uelem) {
			unsup("pointer difference not divided by the element size")
		}
		if p.Op == "elem" && q.Op == "elem" && p.Args[0] == q.Args[0] {
		} else {
			ex.oblige(st, "panic", "pointer difference within one slice", e.Pos(), And(Eq(EArr(p), EArr(q)), Eq(p, Elem(EArr(p), EIdx(p))), Eq(q, Elem(EArr(q), EIdx(q))), idxLe(EIdx(q), EIdx(p))), "")
		}
		var d *Term
		if bvMode {
			d = mkop("bvsub", idxSort(), EIdx(p), EIdx(q))
		} else {
			d = Sub(EIdx(p), EIdx(q))
		}
		return &Val{T: T, t: d}
	}
	if isIntT(ot) {
		return &Val{T: T, t: ex.intOp(st, e.Op, x.t, y.t, ot, e.Pos(), false)}
	}
	if isFloatT(ot) {
		return &Val{T: T, t: ex.floatOp(e.Op, x.t, y.t)}
	}
	if isStringT(ot) && e.Op == token.ADD {
		return &Val{T: T, t: App("strcat", UnintS("Str"), x.t, y.t)}
	}
	unsup("binary %v on %v", e.Op, ot)
	return nil
}

func bvShiftCount(y *Val, w int) *Term {
	n := y.t.S.N
	if n == w {
		return y.t
	}
	if n < w {
		return bvResize(y.t, n, w, false)
	}
	if isNum(y.t) {
		if y.t.Num.Cmp(big.NewInt(int64(w))) >= 0 {
			return BVC(big.NewInt(int64(w)), w)
		}
		return BVC(y.t.Num, w)
	}
	// saturate
	lim := BVC(big.NewInt(int64(w)), n)
	return Ite(bvcmp("bvult", y.t, lim), bvResize(y.t, n, w, false), BVC(big.NewInt(int64(w)), w))
}

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}
func isUntypedNil(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (ex *Exec) heapChanged(a, b *State) bool {
	if len(a.heap) != len(b.heap) || a.hp != b.hp {
		return true
	}
	for k, v := range b.heap {
		if a.heap[k] != v {
			return true
		}
	}
	for k, v := range b.vars {
		if a.vars[k] != v {
			return true
		}
	}
	for k, v := range b.ghost {
		if a.ghost[k] != v {
			return true
		}
	}
	return false
}

func (ex *Exec) compare(st *State, op token.Token, x, y *Val, T types.Type) *Term {
	switch {
	case isIntT(T):
		return ex.intCmp(op, x.t, y.t, T)
	case isFloatT(T):
		return ex.floatCmp(op, x.t, y.t)
	}
	eq := ex.valEq(x, y, T)
	switch op {
	case token.EQL:
		return eq
	case token.NEQ:
		return Not(eq)
	}
	unsup("comparison %v on %v", op, T)
	return nil
}

func (ex *Exec) valEq(x, y *Val, T types.Type) *Term {
	switch u := T.Underlying().(type) {
	case *types.Slice:
		// only comparison with nil is legal
		return Eq(x.arr(), y.arr())
	case *types.Basic:
		if isFloatT(T) {
			return ex.floatCmp(token.EQL, x.t, y.t)
		}
		return Eq(x.t, y.t)
	case *types.Struct:
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, ex.valEq(x.c[i], y.c[i], u.Field(i).Type()))
		}
		return And(cs...)
	case *types.Array:
		var cs []*Term
		if isComposite(u.Elem()) {
			for i := range x.c {
				cs = append(cs, ex.valEq(x.c[i], y.c[i], u.Elem()))
			}
			return And(cs...)
		}
		for i := int64(0); i < u.Len(); i++ {
			var a, b []*Term
			for k := range x.c {
				a = append(a, Select(x.c[k].t, idxC(i)))
				b = append(b, Select(y.c[k].t, idxC(i)))
			}
			cs = append(cs, ex.valEq(fromLeaves(u.Elem(), a), fromLeaves(u.Elem(), b), u.Elem()))
		}
		return And(cs...)
	}
	a, b := x.leafTerms(), y.leafTerms()
	var cs []*Term
	for i := range a {
		cs = append(cs, Eq(a[i], b[i]))
	}
	return And(cs...)
}

func (ex *Exec) evalComposite(st *State, e *ast.CompositeLit, T types.Type) *Val {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		v := &Val{T: T, c: make([]*Val, u.NumFields())}
		for i, el := range e.Elts {
			ix := i
			x := el
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == kv.Key.(*ast.Ident).Name {
						ix = j
					}
				}
				x = kv.Value
			}
			v.c[ix] = ex.evalElt(st, x, u.Field(ix).Type())
		}
		for i := range v.c {
			if v.c[i] == nil {
				v.c[i] = ex.zero(u.Field(i).Type())
			}
		}
		return v
	case *types.Array:
		ref := ex.alloc(st)
		ex.storeComposite(st, ref, T, ex.zero(T))
		ex.fillElts(st, e, ref, u.Elem())
		return ex.loadComposite(st, ref, T)
	case *types.Slice:
		n := ex.litLen(e)
		ref := ex.alloc(st)
		ex.zeroArray(st, ref, u.Elem(), idxC(n))
		ex.fillElts(st, e, ref, u.Elem())
		return sliceVal(T, ref, idxC(0), idxC(n), idxC(n))
	case *types.Pointer:
		// elided &T in composite
		v := ex.evalComposite(st, e, u.Elem())
		ref := ex.alloc(st)
		ex.storeComposite(st, ref, u.Elem(), v)
		return &Val{T: T, t: ref}
	}
	unsup("composite literal of %v", T)
	return nil
}

func (ex *Exec) evalElt(st *State, x ast.Expr, T types.Type) *Val {
	if cl, ok := x.(*ast.CompositeLit); ok && cl.Type == nil {
		return ex.evalComposite(st, cl, T)
	}
	return ex.evalTo(st, x, T)
}

func (ex *Exec) litLen(e *ast.CompositeLit) int64 {
	var n, ix int64
	for _, el := range e.Elts {
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			ix, _ = constant.Int64Val(ex.info().Types[kv.Key].Value)
		}
		ix++
		if ix > n {
			n = ix
		}
	}
	return n
}

func (ex *Exec) fillElts(st *State, e *ast.CompositeLit, ref *Term, elem types.Type) {
	var ix int64
	for _, el := range e.Elts {
		x := el
		if kv, ok := el.(*ast.KeyValueExpr); ok {
			ix, _ = constant.Int64Val(ex.info().Types[kv.Key].Value)
			x = kv.Value
		}
		v := ex.evalElt(st, x, elem)
		l := ex.elemLoc(ref, idxC(ix), elem)
		ex.store(st, l, v)
		ix++
	}
}

// zeroArray sets all elements of the fresh array ref to zero.
// zeroObj gives a fresh object of type T its zero value in place.
func (ex *Exec) zeroObj(st *State, ref *Term, T types.Type) {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l := ex.fieldLoc(ref, T, i)
			if l.kind == "ref" {
				ex.zeroObj(st, l.ref, l.T)
				continue
			}
			ex.store(st, l, ex.zero(l.T))
		}
		return
	case *types.Array:
		if isComposite(u.Elem()) {
			ex.zeroArray(st, ref, u.Elem(), idxC(u.Len()))
			return
		}
	}
	ex.storeComposite(st, ref, T, ex.zero(T))
}

func (ex *Exec) zeroArray(st *State, ref *Term, elem types.Type, n *Term) {
	if !isComposite(elem) {
		for _, lf := range leaves(elem) {
			k := "A:" + typeKey(elem) + lf.name
			h := ex.heapGet(st, k, ArrS(RefS, ArrS(idxSort(), lf.s)))
			ex.heapSet(st, k, Store(h, ref, ConstArr(ArrS(idxSort(), lf.s), zeroTerm(lf.s, lf))), ref)
		}
		return
	}
	if isNum(n) && n.Num.IsInt64() && n.Num.Int64() <= 8 {
		for i := int64(0); i < n.Num.Int64(); i++ {
			ex.storeComposite(st, Elem(ref, idxC(i)), elem, ex.zero(elem))
		}
		return
	}
	// elements of a fresh array of structs: havoc-free axiom on every field heap
	iv := BoundVar("i", idxSort())
	ex.zeroElems(st, Elem(ref, iv), []*Term{iv}, elem)
}

// zeroElems assumes that every field reachable (by value) at ref(i) is zero.
// The array is fresh, so nothing was known about its cells before.
func (ex *Exec) zeroElems(st *State, ref *Term, bs []*Term, T types.Type) {
	switch u := T.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			l := ex.fieldLoc(ref, T, i)
			if l.kind == "ref" {
				ex.zeroElems(st, l.ref, bs, l.T)
				continue
			}
			for _, lf := range leaves(l.T) {
				h := ex.heapGet(st, l.key+lf.name, ArrS(RefS, lf.s))
				sel := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{h, ref}})
				ex.assume(st, Forall(bs, Eq(sel, zeroTerm(lf.s, lf)), [][]*Term{{sel}}))
			}
		}
	case *types.Array:
		if isComposite(u.Elem()) {
			j := BoundVar("j", idxSort())
			ex.zeroElems(st, Elem(ref, j), append(append([]*Term{}, bs...), j), u.Elem())
			return
		}
		for _, lf := range leaves(u.Elem()) {
			k := "A:" + typeKey(u.Elem()) + lf.name
			h := ex.heapGet(st, k, ArrS(RefS, ArrS(idxSort(), lf.s)))
			sel := TF.mk(Term{Op: "select", S: ArrS(idxSort(), lf.s), Args: []*Term{h, ref}})
			ex.assume(st, Forall(bs, Eq(sel, ConstArr(ArrS(idxSort(), lf.s), zeroTerm(lf.s, lf))), [][]*Term{{sel}}))
		}
	}
}

var _ = fmt.Sprint

// isSizeofOf: e is unsafe.Sizeof(x) with x of type T.
func isSizeofOf(info *types.Info, e ast.Expr, T types.Type) bool {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X
			continue
		}
		break
	}
	c, ok := e.(*ast.CallExpr)
	if !ok || len(c.Args) != 1 {
		return false
	}
	se, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || se.Sel.Name != "Sizeof" {
		return false
	}
	return types.Identical(info.Types[c.Args[0]].Type, T)
}
