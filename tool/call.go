package main

// Calls: builtins, conversions, contracts (modular), inlining, external models.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

func constInt(n int64) constant.Value { return constant.MakeInt64(n) }
func constSign(v constant.Value) int  { return constant.Sign(v) }

var unitTuple = types.NewTuple()

func (ex *Exec) evalCall(st *State, e *ast.CallExpr) *Val {
	info := ex.info()
	fun := unparen(e.Fun)
	if tv, ok := info.Types[fun]; ok && tv.IsType() {
		return ex.evalConv(st, e, tv.Type)
	}
	// builtins
	if id, ok := fun.(*ast.Ident); ok {
		if b, ok := info.Uses[id].(*types.Builtin); ok {
			return ex.evalBuiltin(st, e, b.Name())
		}
	}
	if se, ok := fun.(*ast.SelectorExpr); ok {
		if b, ok := info.Uses[se.Sel].(*types.Builtin); ok {
			return ex.evalBuiltin(st, e, b.Name())
		}
	}
	var fo *types.Func
	var recv *Val
	var lit *ast.FuncLit
	switch f := fun.(type) {
	case *ast.Ident:
		if o, ok := info.Uses[f].(*types.Func); ok {
			fo = o
		} else {
			v := ex.eval(st, f)
			fo, lit = v.fn, v.lit
		}
	case *ast.SelectorExpr:
		if sel := info.Selections[f]; sel != nil {
			switch sel.Kind() {
			case types.MethodVal:
				fo = sel.Obj().(*types.Func)
				var nf *types.Func
				recv, nf = ex.evalRecv(st, f, sel, fo)
				if nf != nil {
					fo = nf
				}
			case types.FieldVal:
				v := ex.evalField(st, f, sel)
				fo, lit = v.fn, v.lit
			}
		} else if o, ok := info.Uses[f.Sel].(*types.Func); ok {
			fo = o
		} else {
			v := ex.eval(st, f)
			fo, lit = v.fn, v.lit
		}
	case *ast.FuncLit:
		lit = f
	}
	if lit != nil {
		sig := ex.typeOf(lit).(*types.Signature)
		args := ex.evalArgs(st, e, sig)
		return ex.inlineLit(st, lit, args, e)
	}
	if fo == nil {
		unsup("call through unknown function value %s", exprStr(e.Fun))
	}
	if fo.Pkg() != nil && fo.Pkg().Path() == "sort" && (fo.Name() == "SliceStable" || fo.Name() == "Slice") {
		return ex.evalSortSlice(st, fo, e)
	}
	sig := fo.Type().(*types.Signature)
	args := ex.evalArgs(st, e, sig)
	return ex.callFunc(st, fo, recv, args, e)
}

// evalSortSlice models sort.Slice and sort.SliceStable: the elements end up in
// some order (ghosts $out_perm and $out_inv), the comparison function is
// checked for two arbitrary positions of an arbitrary order. That the order is
// sorted is not claimed.
func (ex *Exec) evalSortSlice(st *State, fo *types.Func, e *ast.CallExpr) *Val {
	if bvMode {
		unsup("sort.%s in bit-vector mode", fo.Name())
	}
	ord := ex.callOrd(fo.Name(), e)
	ex.runHooks(st, fo.Name(), ord, "before", nil, e)
	s := ex.eval(st, e.Args[0])
	if !isSlice(s.T) {
		unsup("sort.%s of a non-slice", fo.Name())
	}
	lv := ex.eval(st, e.Args[1])
	if lv.lit == nil {
		unsup("sort.%s with an unknown function", fo.Name())
	}
	ex.externs["sort."+fo.Name()+" (assumed to permute the elements)"] = true
	perm, inv := ex.freshGhost("seq int", "perm"), ex.freshGhost("seq int", "inv")
	k := BoundVar("k", IntS)
	n := s.ln()
	in := And(Le(IntC(0), k), Lt(k, n))
	pk, ik := Select(perm.t, k), Select(inv.t, k)
	ex.facts = append(ex.facts,
		Forall([]*Term{k}, Imp(in, And(Le(IntC(0), pk), Lt(pk, n), Eq(Select(inv.t, pk), k))), [][]*Term{{pk}}),
		Forall([]*Term{k}, Imp(in, And(Le(IntC(0), ik), Lt(ik, n), Eq(Select(perm.t, ik), k))), [][]*Term{{ik}}))
	et := elemTypeOf(s.T)
	at := func(idx *Term) *Term { return Ix(s.off(), Select(perm.t, Sub(idx, s.off()))) }
	if isComposite(et) {
		ex.moveComposite(st, s.arr(), s.off(), n, et, func(idx *Term) *Term { return Elem(s.arr(), at(idx)) })
	} else {
		for _, lf := range leaves(et) {
			key := "A:" + typeKey(et) + lf.name
			is := ArrS(idxSort(), lf.s)
			h := ex.heapGet(st, key, ArrS(RefS, is))
			da := Select(h, s.arr())
			nt := Fresh("sorted_"+key, is)
			i := BoundVar("i", idxSort())
			sel := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{nt, i}})
			inr := And(idxLe(s.off(), i), idxLt(i, Add(s.off(), n)))
			ex.facts = append(ex.facts, Forall([]*Term{i}, Eq(sel, Ite(inr, Select(da, at(i)), Select(da, i))), [][]*Term{{sel}}))
			ex.heapSet(st, key, Store(h, s.arr(), nt), s.arr())
		}
	}
	c := st.clone()
	intT := types.Type(types.Typ[types.Int])
	a, b := ex.freshVal("less_i", intT, c), ex.freshVal("less_j", intT, c)
	for _, x := range []*Val{a, b} {
		ex.assume(c, And(Le(IntC(0), x.t), Lt(x.t, n)))
	}
	ex.inlineLit(c, lv.lit, []*Val{a, b}, e)
	for key, h := range c.heap {
		if st.heap[key] != nil && st.heap[key] != h {
			// it may write its own variables only
			r := Fresh("less_r", RefS)
			ex.oblige(c, "spec", "the comparison of sort."+fo.Name()+" changes no existing "+key, e.Pos(), Imp(Lt(Root(r), st.hp), Eq(Select(h, r), Select(st.heap[key], r))), "")
		}
	}
	st.ghost["$out_perm"], st.ghost["$out_inv"] = perm, inv
	if ex.ws != nil {
		ex.ws.ghost["$out_perm"], ex.ws.ghost["$out_inv"] = true, true
	}
	ex.runHooks(st, fo.Name(), ord, "after", nil, e)
	return nil
}

// evalRecv evaluates the receiver of a method call.
func (ex *Exec) evalRecv(st *State, f *ast.SelectorExpr, sel *types.Selection, fo *types.Func) (*Val, *types.Func) {
	rt := fo.Type().(*types.Signature).Recv().Type()
	xt := sel.Recv()
	if _, isI := rt.Underlying().(*types.Interface); isI {
		x := ex.eval(st, f.X)
		// follow embedded path
		path := sel.Index()
		if len(path) > 1 {
			T := xt
			var cur *Val = x
			for _, ix := range path[:len(path)-1] {
				if p, ok := T.Underlying().(*types.Pointer); ok {
					ex.nilCheck(st, cur.t, f.Pos())
					l := ex.fieldLoc(cur.t, p.Elem(), ix)
					T = l.T
					cur = ex.load(st, l)
					continue
				}
				if s, ok := T.Underlying().(*types.Struct); ok {
					cur = cur.c[ix]
					T = s.Field(ix).Type()
					continue
				}
				unsup("embedded interface path")
			}
			x = cur
		}
		if x.dyn != nil {
			o, _, _ := types.LookupFieldOrMethod(x.dyn, true, fo.Pkg(), fo.Name())
			if nf, ok := o.(*types.Func); ok {
				n := *x
				n.T = x.dyn
				if _, isP := x.dyn.Underlying().(*types.Pointer); isP {
					return &n, nf
				}
			}
		}
		ex.oblige(st, "panic", "method call on nil interface", f.Pos(), Neq(x.t, Null()), "")
		return x, nil
	}
	_, wantPtr := rt.Underlying().(*types.Pointer)
	path := sel.Index()
	if len(path) == 1 {
		_, havePtr := xt.Underlying().(*types.Pointer)
		switch {
		case wantPtr && havePtr:
			return ex.eval(st, f.X), nil
		case wantPtr && !havePtr:
			l := ex.addrLoc(st, f.X)
			if l.kind == "ref" {
				return &Val{T: rt, t: l.ref}, nil
			}
			if l.kind == "elem" {
				return &Val{T: rt, c: []*Val{{t: l.ref}, {t: l.idx}}}, nil
			}
			unsup("address of receiver %s", exprStr(f.X))
		case !wantPtr && havePtr:
			p := ex.eval(st, f.X)
			l := ex.ptrLoc(st, p, rt, f.Pos())
			return ex.load(st, l), nil
		default:
			return ex.eval(st, f.X), nil
		}
	}
	// promoted method through embedded fields
	var ref *Term
	T := xt
	if p, ok := T.Underlying().(*types.Pointer); ok {
		v := ex.eval(st, f.X)
		ref = v.t
		ex.nilCheck(st, ref, f.Pos())
		T = p.Elem()
	} else {
		l := ex.addrLoc(st, f.X)
		ref = l.ref
	}
	var l Loc
	for i, ix := range path[:len(path)-1] {
		l = ex.fieldLoc(ref, T, ix)
		T = l.T
		if i == len(path)-2 {
			break
		}
		if l.kind == "ref" {
			ref = l.ref
			continue
		}
		v := ex.load(st, l)
		ref = v.t
		T = T.Underlying().(*types.Pointer).Elem()
	}
	if _, ok := T.Underlying().(*types.Pointer); ok {
		v := ex.load(st, l)
		if wantPtr {
			return v, nil
		}
		return ex.load(st, ex.ptrLoc(st, v, rt, f.Pos())), nil
	}
	if wantPtr {
		return &Val{T: rt, t: l.ref}, nil
	}
	return ex.load(st, l), nil
}

func (ex *Exec) evalArgs(st *State, e *ast.CallExpr, sig *types.Signature) []*Val {
	n := sig.Params().Len()
	if len(e.Args) == 1 && n > 1 {
		t := ex.eval(st, e.Args[0])
		if t != nil && len(t.c) == n {
			var vs []*Val
			for i := 0; i < n; i++ {
				x := *t.c[i]
				if tt, ok := t.T.(*types.Tuple); ok {
					x.T = tt.At(i).Type()
				}
				vs = append(vs, ex.implicitConv(&x, sig.Params().At(i).Type()))
			}
			return vs
		}
	}
	var vs []*Val
	fixed := n
	if sig.Variadic() {
		fixed = n - 1
	}
	for i := 0; i < fixed; i++ {
		vs = append(vs, ex.evalTo(st, e.Args[i], sig.Params().At(i).Type()))
	}
	if sig.Variadic() {
		vt := sig.Params().At(n - 1).Type()
		if e.Ellipsis.IsValid() {
			vs = append(vs, ex.evalTo(st, e.Args[n-1], vt))
			return vs
		}
		et := vt.Underlying().(*types.Slice).Elem()
		var xs []*Val
		for _, a := range e.Args[fixed:] {
			xs = append(xs, ex.evalTo(st, a, et))
		}
		if len(xs) == 0 {
			vs = append(vs, ex.zero(vt))
			return vs
		}
		if _, isI := et.Underlying().(*types.Interface); isI {
			// variadic interface arguments only feed formatting models
			ref := ex.alloc(st)
			k := idxC(int64(len(xs)))
			vs = append(vs, sliceVal(vt, ref, idxC(0), k, k))
			return vs
		}
		ref := ex.alloc(st)
		for i, x := range xs {
			ex.store(st, ex.elemLoc(ref, idxC(int64(i)), et), x)
		}
		k := idxC(int64(len(xs)))
		vs = append(vs, sliceVal(vt, ref, idxC(0), k, k))
	}
	return vs
}

func (ex *Exec) evalConv(st *State, e *ast.CallExpr, T types.Type) *Val {
	a := e.Args[0]
	tv := ex.info().Types[a]
	if tv.IsNil() {
		return ex.zero(T)
	}
	if tv.Value != nil {
		b, isB := T.Underlying().(*types.Basic)
		if isB && (b.Info()&types.IsConstType != 0) && !(isStringT(T) && tv.Value.Kind() != constant.String) {
			if isIntT(T) && tv.Value.Kind() == constant.Float {
				return ex.constVal(constant.ToInt(tv.Value), T)
			}
			return ex.constVal(tv.Value, T)
		}
	}
	v := ex.eval(st, a)
	return ex.convVal(st, v, T, false)
}

func (ex *Exec) convVal(st *State, v *Val, T types.Type, spec bool) *Val {
	from := v.T
	if (isIntT(from) || isFloatT(from)) && (isIntT(T) || isFloatT(T)) {
		return &Val{T: T, t: ex.convNum(st, v, T, spec)}
	}
	if isStringT(T) && !isStringT(from) {
		return &Val{T: T, t: Fresh("strconv", UnintS("Str"))}
	}
	if isStringT(from) && isSlice(T) {
		return ex.freshVal("bytesOf", T, st)
	}
	if _, isI := T.Underlying().(*types.Interface); isI {
		return ex.implicitConv(v, T)
	}
	if b, ok := T.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if p, ok := from.Underlying().(*types.Pointer); ok && !isCellPtr(from) {
			return &Val{T: T, t: v.t, uelem: p.Elem()}
		}
		unsup("unsafe.Pointer")
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		if tb, ok := T.Underlying().(*types.Basic); ok && tb.Kind() == types.Uintptr && v.uelem != nil {
			a := App("address", scalarSort(T), v.t)
			markRange(a, T)
			return &Val{T: T, t: a, uptr: v.t, uelem: v.uelem}
		}
		unsup("unsafe.Pointer")
	}
	n := *v
	n.T = T
	return &n
}

func (ex *Exec) evalBuiltin(st *State, e *ast.CallExpr, name string) *Val {
	T := types.Type(nil)
	if tv, ok := ex.info().Types[e]; ok {
		T = tv.Type
	}
	intT := types.Type(types.Typ[types.Int])
	switch name {
	case "len", "cap":
		xt := ex.typeOf(e.Args[0])
		if p, ok := xt.Underlying().(*types.Pointer); ok {
			xt = p.Elem()
		}
		if at, ok := xt.Underlying().(*types.Array); ok {
			return &Val{T: intT, t: idxC(at.Len())}
		}
		v := ex.eval(st, e.Args[0])
		if isSlice(xt) {
			if name == "len" {
				return &Val{T: intT, t: v.ln()}
			}
			return &Val{T: intT, t: v.cp()}
		}
		if isStringT(xt) {
			r := App("strlen", idxSort(), v.t)
			if !bvMode {
				r.lo, r.hi = big.NewInt(0), maxLen
			}
			return &Val{T: intT, t: r}
		}
		unsup("%s of %v", name, xt)
	case "append":
		return ex.evalAppend(st, e)
	case "copy":
		return ex.evalCopy(st, e)
	case "make":
		switch u := T.Underlying().(type) {
		case *types.Slice:
			n := ex.evalIndex(st, e.Args[1])
			c := n
			if len(e.Args) > 2 {
				c = ex.evalIndex(st, e.Args[2])
			}
			mx := idxC(1 << 40)
			ex.oblige(st, "panic", "makeslice length in range", e.Pos(), And(idxLe(idxC(0), n), idxLe(n, c), idxLe(c, mx)), "")
			ref := ex.alloc(st)
			ex.zeroArray(st, ref, u.Elem(), c)
			return sliceVal(T, ref, idxC(0), n, c)
		case *types.Map:
			for _, a := range e.Args[1:] {
				ex.eval(st, a)
			}
			return &Val{T: T, t: ex.alloc(st)}
		}
		unsup("make %v", T)
	case "new":
		et := T.Underlying().(*types.Pointer).Elem()
		ref := ex.alloc(st)
		if isComposite(et) {
			ex.zeroObj(st, ref, et)
			return &Val{T: T, t: ref}
		}
		ex.store(st, Loc{kind: "elem", ref: ref, idx: idxC(0), T: et}, ex.zero(et))
		return &Val{T: T, c: []*Val{{t: ref}, {t: idxC(0)}}}
	case "panic":
		ex.eval(st, e.Args[0])
		ex.oblige(st, "panic", "panic not reached", e.Pos(), False, exprStr(e))
		st.pc = False
		return nil
	case "min", "max":
		v := ex.evalTo(st, e.Args[0], T)
		for _, a := range e.Args[1:] {
			w := ex.evalTo(st, a, T)
			if !isIntT(T) {
				unsup("min/max on %v", T)
			}
			op := token.LEQ
			if name == "max" {
				op = token.GEQ
			}
			v = &Val{T: T, t: Ite(ex.intCmp(op, v.t, w.t, T), v.t, w.t)}
		}
		return v
	case "print", "println":
		for _, a := range e.Args {
			ex.eval(st, a)
		}
		return nil
	}
	unsup("builtin %s", name)
	return nil
}

func (ex *Exec) evalAppend(st *State, e *ast.CallExpr) *Val {
	T := ex.typeOf(e)
	et := T.Underlying().(*types.Slice).Elem()
	s := ex.evalTo(st, e.Args[0], T)
	var n *Term
	var vals []*Val
	var src *Val
	if e.Ellipsis.IsValid() {
		if isStringT(ex.typeOf(e.Args[1])) {
			unsup("append string")
		}
		src = ex.evalTo(st, e.Args[1], T)
		n = src.ln()
	} else {
		for _, a := range e.Args[1:] {
			vals = append(vals, ex.evalTo(st, a, et))
		}
		n = idxC(int64(len(vals)))
	}
	inPlace := idxLe(Add(s.ln(), n), s.cp())
	id := ex.alloc(st)
	nl := Add(s.ln(), n)
	ncap := Fresh("newcap", idxSort())
	ex.facts = append(ex.facts, idxLe(nl, ncap), idxLe(ncap, idxC(1<<41)))
	if !bvMode {
		ncap.lo = big.NewInt(0)
	}
	// memory is assumed sufficient: the length stays within the address space
	ex.assume(st, idxLe(nl, idxC(1<<40)))
	arr := Ite(inPlace, s.arr(), id)
	off := Ite(inPlace, s.off(), idxC(0))
	cp := Ite(inPlace, s.cp(), ncap)
	// nil result when appending nothing to nil: length 0 either way
	r := sliceVal(T, arr, off, nl, cp)
	if !isComposite(et) {
		for li, lf := range leaves(et) {
			k := "A:" + typeKey(et) + lf.name
			is := ArrS(idxSort(), lf.s)
			h := ex.heapGet(st, k, ArrS(RefS, is))
			old := Select(h, s.arr())
			fill := func(base, start *Term) *Term {
				if src != nil {
					sa := Select(h, src.arr())
					nt := Fresh("app_"+k, is)
					i := BoundVar("i", idxSort())
					sel := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{nt, i}})
					in := And(idxLe(start, i), idxLt(i, Add(start, n)))
					v := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{sa, Ix(src.off(), Sub(i, start))}})
					b := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{base, i}})
					if isIx(start) {
						at, rest := start.Args[0], start.Args[1]
						ex.facts = append(ex.facts, Forall([]*Term{i}, Imp(Not(in), Eq(sel, b)), [][]*Term{{sel}}))
						qs := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{nt, Ix(at, i)}})
						sv := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{sa, Ix(src.off(), Sub(i, rest))}})
						ex.facts = append(ex.facts, Forall([]*Term{i}, Imp(And(Le(rest, i), Lt(i, Add(rest, n))), Eq(qs, sv)), [][]*Term{{qs}}))
						return nt
					}
					ex.facts = append(ex.facts, Forall([]*Term{i}, Eq(sel, Ite(in, v, b)), [][]*Term{{sel}}))
					return nt
				}
				a := base
				for vi, v := range vals {
					a = Store(a, ixShift(start, idxC(int64(vi))), v.leafTerms()[li])
				}
				return a
			}
			if inPlace != True {
				// fresh copy
				cpy := Fresh("grow_"+k, is)
				i := BoundVar("i", idxSort())
				sel := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{cpy, i}})
				ov := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{old, Ix(s.off(), i)}})
				ex.facts = append(ex.facts, Forall([]*Term{i}, Imp(And(idxLe(idxC(0), i), idxLt(i, s.ln())), Eq(sel, ov)), [][]*Term{{sel}}))
				// store both branches: in-place writes go to the old array, otherwise to the new one
				h1 := h
				if inPlace != False {
					h1 = Store(h, s.arr(), Ite(inPlace, fill(old, Ix(s.off(), s.ln())), old))
					ex.recWrite(k, s.arr())
				}
				h2 := Store(h1, id, fill(cpy, s.ln()))
				ex.heapSet(st, k, h2, id)
			} else {
				ex.heapSet(st, k, Store(h, s.arr(), fill(old, Ix(s.off(), s.ln()))), s.arr())
			}
		}
		return r
	}
	// composite elements: copy facts on the fresh array, then in-place stores at the target
	if inPlace != True {
		i := BoundVar("i", idxSort())
		ex.copyElems(st, id, s.arr(), s.off(), s.ln(), i, et)
	}
	if src != nil {
		unsup("append of composite slice with ...")
	}
	for vi, v := range vals {
		ref := Elem(arr, Ix(off, Add(s.ln(), idxC(int64(vi)))))
		if inPlace == True || inPlace == False {
			ex.storeComposite(st, ref, et, v)
			continue
		}
		// two guarded stores keep the targets syntactically simple
		s1 := st.clone()
		s1.pc = And(st.pc, inPlace)
		ex.storeComposite(s1, Elem(s.arr(), Ix(s.off(), Add(s.ln(), idxC(int64(vi))))), et, v)
		s2 := st.clone()
		s2.pc = And(st.pc, Not(inPlace))
		ex.storeComposite(s2, Elem(id, Add(s.ln(), idxC(int64(vi)))), et, v)
		pc := st.pc
		m := ex.merge(s1, s2)
		if m == nil {
			m = s2
		}
		st.set(m)
		st.pc = pc
	}
	return r
}

func (ex *Exec) recWrite(key string, target *Term) {
	if ex.ws == nil {
		return
	}
	m := ex.ws.heap[key]
	if m == nil {
		m = map[*Term]bool{}
		ex.ws.heap[key] = m
	}
	m[target] = true
}

// copyElems assumes that elements [0,n) of fresh array id equal those of arr at off.
func (ex *Exec) copyElems(st *State, id, arr, off, n, i *Term, et types.Type) {
	var rec func(dst, src *Term, T types.Type)
	rec = func(dst, src *Term, T types.Type) {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			for f := 0; f < u.NumFields(); f++ {
				ld, ls := ex.fieldLoc(dst, T, f), ex.fieldLoc(src, T, f)
				if ld.kind == "ref" {
					rec(ld.ref, ls.ref, ld.T)
					continue
				}
				for _, lf := range leaves(ld.T) {
					h := ex.heapGet(st, ld.key+lf.name, ArrS(RefS, lf.s))
					a := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{h, dst}})
					b := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{h, src}})
					ex.assume(st, Forall([]*Term{i}, Imp(And(idxLe(idxC(0), i), idxLt(i, n)), Eq(a, b)), [][]*Term{{a}}))
				}
			}
		case *types.Array:
			if isComposite(u.Elem()) {
				unsup("append of nested composite arrays")
			}
			for _, lf := range leaves(u.Elem()) {
				k := "A:" + typeKey(u.Elem()) + lf.name
				is := ArrS(idxSort(), lf.s)
				h := ex.heapGet(st, k, ArrS(RefS, is))
				a := TF.mk(Term{Op: "select", S: is, Args: []*Term{h, dst}})
				b := TF.mk(Term{Op: "select", S: is, Args: []*Term{h, src}})
				ex.assume(st, Forall([]*Term{i}, Imp(And(idxLe(idxC(0), i), idxLt(i, n)), Eq(a, b)), [][]*Term{{a}}))
			}
		}
	}
	rec(Elem(id, i), Elem(arr, Ix(off, i)), et)
}

func (ex *Exec) evalCopy(st *State, e *ast.CallExpr) *Val {
	intT := types.Type(types.Typ[types.Int])
	d := ex.eval(st, e.Args[0])
	if isStringT(ex.typeOf(e.Args[1])) {
		unsup("copy from string")
	}
	s := ex.eval(st, e.Args[1])
	et := elemTypeOf(d.T)
	n := Ite(idxLe(d.ln(), s.ln()), d.ln(), s.ln())
	if isComposite(et) {
		ex.copyComposite(st, d, s, n, et)
		return &Val{T: intT, t: n}
	}
	for _, lf := range leaves(et) {
		k := "A:" + typeKey(et) + lf.name
		is := ArrS(idxSort(), lf.s)
		h := ex.heapGet(st, k, ArrS(RefS, is))
		da, sa := Select(h, d.arr()), Select(h, s.arr())
		var nt *Term
		if isNum(n) && n.Num.IsInt64() && n.Num.Int64() <= 16 {
			nt = da
			for i := int64(0); i < n.Num.Int64(); i++ {
				nt = Store(nt, Ix(d.off(), idxC(i)), Select(sa, Ix(s.off(), idxC(i))))
			}
		} else {
			nt = Fresh("copy_"+k, is)
			i := BoundVar("i", idxSort())
			sel := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{nt, i}})
			in := And(idxLe(d.off(), i), idxLt(i, Add(d.off(), n)))
			dv := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{da, i}})
			at, rest := splitOff(d.off())
			if at == nil {
				sv := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{sa, Ix(s.off(), Sub(i, d.off()))}})
				ex.facts = append(ex.facts, Forall([]*Term{i}, Eq(sel, Ite(in, sv, dv)), [][]*Term{{sel}}))
			} else {
				ex.facts = append(ex.facts, Forall([]*Term{i}, Imp(Not(in), Eq(sel, dv)), [][]*Term{{sel}}))
				qs := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{nt, Ix(at, i)}})
				sv := TF.mk(Term{Op: "select", S: lf.s, Args: []*Term{sa, Ix(s.off(), Sub(i, rest))}})
				ex.facts = append(ex.facts, Forall([]*Term{i}, Imp(And(Le(rest, i), Lt(i, Add(rest, n))), Eq(qs, sv)), [][]*Term{{qs}}))
			}
		}
		ex.heapSet(st, k, Store(h, d.arr(), nt), d.arr())
	}
	return &Val{T: intT, t: n}
}

// copyComposite: copy between slices of structs with flat fields.
func (ex *Exec) copyComposite(st *State, d, s *Val, n *Term, et types.Type) {
	ex.moveComposite(st, d.arr(), d.off(), n, et, func(idx *Term) *Term {
		return Elem(s.arr(), Ix(s.off(), Sub(idx, d.off())))
	})
}

// moveComposite: elements [off, off+n) of arr take the contents of the elements from names.
func (ex *Exec) moveComposite(st *State, arr, off, n *Term, et types.Type, from func(idx *Term) *Term) {
	type hk struct {
		key  string
		s    *Sort
		path []int
	}
	var hs []hk
	var rec func(T types.Type, path []int)
	rec = func(T types.Type, path []int) {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			for f := 0; f < u.NumFields(); f++ {
				l := ex.fieldLoc(Null(), T, f)
				if l.kind == "ref" {
					rec(l.T, append(append([]int{}, path...), fieldUID(T, f)))
					continue
				}
				for _, lf := range leaves(l.T) {
					hs = append(hs, hk{l.key + lf.name, lf.s, path})
				}
			}
		case *types.Array:
			if isComposite(u.Elem()) {
				unsup("copy of nested composite arrays")
			}
			for _, lf := range leaves(u.Elem()) {
				hs = append(hs, hk{"A:" + typeKey(u.Elem()) + lf.name, ArrS(idxSort(), lf.s), path})
			}
		}
	}
	rec(et, nil)
	for _, k := range hs {
		h := ex.heapGet(st, k.key, ArrS(RefS, k.s))
		nt := Fresh("H_"+k.key, h.S)
		r := BoundVar("r", RefS)
		sel := TF.mk(Term{Op: "select", S: k.s, Args: []*Term{nt, r}})
		inside, idx := elemMatch(r, k.path, arr)
		in := And(inside, idxLe(off, idx), idxLt(idx, Add(off, n)))
		src := from(idx)
		for _, p := range k.path {
			src = SubR(src, p)
		}
		sv := TF.mk(Term{Op: "select", S: k.s, Args: []*Term{h, src}})
		ov := TF.mk(Term{Op: "select", S: k.s, Args: []*Term{h, r}})
		ex.facts = append(ex.facts, Forall([]*Term{r}, Eq(sel, Ite(in, sv, ov)), [][]*Term{{sel}}))
		ex.heapSetPat(st, k.key, nt, arr, k.path)
	}
}

// elemMatch: condition that r is sub(...sub(elem(arr, i), p1)..., pn), and the index term.
func elemMatch(r *Term, path []int, arr *Term) (*Term, *Term) {
	var conds []*Term
	x := r
	for k := len(path) - 1; k >= 0; k-- {
		conds = append(conds, mkop("(_ is sub)", BoolS, x), Eq(mkop("sfld", IntS, x), IntC(int64(path[k]))))
		x = mkop("sref", RefS, x)
	}
	conds = append(conds, mkop("(_ is elem)", BoolS, x), Eq(mkop("earr", RefS, x), arr))
	return And(conds...), mkop("eidx", idxSort(), x)
}

// ---- function calls ----

func hasStr(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

func (ex *Exec) contractFor(fo *types.Func) (*Contract, string) {
	key := funcKey(fo)
	if sig := fo.Type().(*types.Signature); sig.Recv() != nil {
		if _, isI := sig.Recv().Type().Underlying().(*types.Interface); isI {
			n := "?"
			if nt, ok := sig.Recv().Type().(*types.Named); ok {
				n = nt.Obj().Name()
			}
			p := ""
			if fo.Pkg() != nil {
				p = fo.Pkg().Name()
			}
			key = p + "." + n + "." + fo.Name()
		}
	}
	if ex.c != nil && ex.c.Variant != "" && !hasStr(ex.c.NoVariant, key) {
		if c, ok := ex.specs.C[key+"#"+ex.c.Variant]; ok {
			return c, c.Key
		}
	}
	if c, ok := ex.specs.C[key]; ok {
		return c, key
	}
	return nil, key
}

func (ex *Exec) callFunc(st *State, fo *types.Func, recv *Val, args []*Val, e *ast.CallExpr) *Val {
	c, key := ex.contractFor(fo)
	ord := ex.callOrd(fo.Name(), e)
	ex.runHooks(st, fo.Name(), ord, "before", nil, e)
	var res *Val
	switch {
	case c != nil && !(ex.c != nil && ex.c.Inline[key]):
		res = ex.callModular(st, fo, c, key, recv, args, e)
	default:
		if r, ok := ex.callModel(st, fo, key, recv, args, e); ok {
			res = r
			break
		}
		decl := ex.prog.Funcs[fo]
		if decl == nil || decl.Body == nil {
			unsup("call of external function %s", key)
		}
		for f := ex.frame; f != nil; f = f.parent {
			if f.fn == fo {
				unsup("recursive call of %s without contract", key)
			}
		}
		if ex.depth > 24 {
			unsup("inlining too deep at %s", key)
		}
		ex.inlined[key] = true
		res = ex.inlineFunc(st, fo, decl, recv, args, e)
	}
	if st.pc != False {
		ex.runHooks(st, fo.Name(), ord, "after", res, e)
	}
	return res
}

// callOrd numbers the call sites of a callee in the order they are met.
func (ex *Exec) callOrd(name string, e *ast.CallExpr) int {
	k := fmt.Sprintf("%s@%p", name, e)
	if n := ex.hookN[k]; n != 0 {
		return n
	}
	ex.hookN[name]++
	ex.hookN[k] = ex.hookN[name]
	return ex.hookN[name]
}

// freeze names the current value of ghosts and heaps with fresh constants.
func (ex *Exec) freeze(st *State, names string) {
	for _, n := range strings.Fields(strings.ReplaceAll(names, ",", " ")) {
		name := func(t *Term) *Term {
			if t == nil || len(t.Args) == 0 {
				return t
			}
			f := Fresh("fz_"+n, t.S)
			ex.facts = append(ex.facts, Eq(f, t))
			return f
		}
		if g, ok := st.ghost[n]; ok && g.t != nil {
			v := *g
			v.t = name(g.t)
			st.ghost[n] = &v
		} else if t, ok := st.heap[n]; ok {
			st.heap[n] = name(t)
		}
	}
}

func (ex *Exec) runHooks(st *State, callee string, ord int, when string, res *Val, call *ast.CallExpr) {
	var pos token.Pos // where local names are looked up
	if call != nil {
		pos = call.Pos()
	}
	if ex.c == nil {
		return
	}
	if ex.dry > 0 {
		// looking for what a loop writes
		for _, h := range ex.c.Hooks {
			if h.Callee == callee && h.Kind == "ghost" && ex.ws != nil {
				ex.ws.ghost[h.Name] = true
			}
			if h.Callee == callee && h.Kind == "ghost" && h.When == when && when == "before" && strings.HasPrefix(h.Name, "arg:") {
				ctx := &SpecCtx{ex: ex, st: st, old: ex.entry, binds: map[string]*Val{}, loopPos: pos}
				st.ghost[h.Name] = ex.ghostAssign(st, h.Name, ex.specEval(ctx, h.E))
			}
		}
		return
	}
	for _, h := range ex.c.Hooks {
		if h.Callee != callee || h.When != when || (h.N != 0 && h.N != ord) {
			continue
		}
		ctx := &SpecCtx{ex: ex, st: st, old: ex.entry, binds: map[string]*Val{}, loopPos: pos}
		if callee == "$exit" {
			ctx = ex.exitCtx
		}
		if res != nil {
			ctx.binds["$res"] = res
			if tt, ok := res.T.(*types.Tuple); ok {
				for i := range res.c {
					n := *res.c[i]
					n.T = tt.At(i).Type()
					ctx.binds[fmt.Sprintf("$res%d", i)] = &n
				}
			}
		}
		switch h.Kind {
		case "freeze":
			ex.freeze(st, h.Src)
		case "assert":
			ex.checkSpec(st, ctx, Clause{E: h.E, Src: h.Src}, fmt.Sprintf("at call %s#%d", callee, ord), token.NoPos)
		case "ghost":
			st.ghost[h.Name] = ex.ghostAssign(st, h.Name, ex.specEval(ctx, h.E))
			if ex.ws != nil {
				ex.ws.ghost[h.Name] = true
			}
		}
	}
}

func (ex *Exec) sigResultType(sig *types.Signature) types.Type {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return sig.Results().At(0).Type()
	}
	return sig.Results()
}

// bindParams returns the contract-visible names of a call.
func bindParams(fo *types.Func, recv *Val, args []*Val) map[string]*Val {
	b := map[string]*Val{}
	sig := fo.Type().(*types.Signature)
	if r := sig.Recv(); r != nil && recv != nil {
		n := r.Name()
		v := *recv
		if _, isI := r.Type().Underlying().(*types.Interface); !isI {
			v.T = r.Type()
		}
		if n != "" && n != "_" {
			b[n] = &v
		}
		b["recv"] = &v
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if p.Name() != "" && p.Name() != "_" {
			v := *args[i]
			v.T = p.Type()
			b[p.Name()] = &v
		}
		b[fmt.Sprintf("arg%d", i)] = args[i]
	}
	return b
}

func bindResults(b map[string]*Val, sig *types.Signature, res *Val) {
	if res == nil {
		return
	}
	n := sig.Results().Len()
	if n == 1 {
		b["result"] = res
		b["result0"] = res
		if nm := sig.Results().At(0).Name(); nm != "" && nm != "_" {
			b[nm] = res
		}
		return
	}
	for i := 0; i < n; i++ {
		x := *res.c[i]
		x.T = sig.Results().At(i).Type()
		b[fmt.Sprintf("result%d", i)] = &x
		if nm := sig.Results().At(i).Name(); nm != "" && nm != "_" {
			b[nm] = &x
		}
	}
}

func (ex *Exec) callModular(st *State, fo *types.Func, c *Contract, key string, recv *Val, args []*Val, e *ast.CallExpr) *Val {
	ex.used[key] = true
	sig := fo.Type().(*types.Signature)
	binds := bindParams(fo, recv, args)
	if sig.Recv() != nil && recv != nil && recv.t != nil {
		if _, isP := sig.Recv().Type().Underlying().(*types.Pointer); isP {
			// methods may be called on nil; contracts that dereference state it
		}
	}
	old := st.clone()
	var pos token.Pos
	if e != nil {
		pos = e.Pos()
	}
	mk := func(s *State) *SpecCtx {
		return &SpecCtx{ex: ex, st: s, old: old, binds: binds, callee: fo, noLocals: true}
	}
	for _, g := range c.GParams {
		gv, ok := st.ghost["arg:"+g.Name]
		if !ok {
			gv, ok = st.ghost[g.Name]
		}
		if !ok {
			unsup("call of %s needs ghost argument %s", key, g.Name)
		}
		binds[g.Name] = gv
	}
	for _, l := range c.Lets {
		binds[l.Name] = ex.specEval(mk(old), l.E)
	}
	for i, r := range c.Requires {
		ex.checkSpec(st, mk(st), r, fmt.Sprintf("precondition %d of %s", i+1, key), pos)
	}
	if c.Decreases != nil && ex.c != nil && key == ex.c.Key {
		d1 := ex.specEval(mk(st), c.Decreases).t
		d0 := ex.specEval(&SpecCtx{ex: ex, st: ex.entry, old: ex.entry, params: true}, c.Decreases).t
		ex.oblige(st, "dec", "recursion measure decreases", pos, And(Le(IntC(0), d1), Lt(d1, d0)), c.Decreases.Src)
	}
	// effects
	if c.ModAll {
		for k, s := range ex.heapSort {
			_ = s
			ex.heapSet(st, k, Fresh("H_"+k, ex.heapSort[k]), nil)
		}
		ex.notes["modifies * of "+key] = true
	}
	for _, m := range c.Modifies {
		ex.havocTarget(st, mk(old), m)
	}
	if !c.Pure {
		nh := Fresh("hp", IntS)
		ex.facts = append(ex.facts, Le(st.hp, nh))
		TF.hpFrom[nh.id] = []*Term{st.hp}
		st.hp = nh
		if ex.ws != nil {
			ex.ws.alloc = true
		}
	}
	var res *Val
	if rt := ex.sigResultType(sig); rt != nil {
		if c.Function {
			res = functionTerm(key, rt, args)
		} else {
			res = ex.freshVal("r_"+fo.Name(), rt, st)
		}
	}
	bindResults(binds, sig, res)
	for _, g := range c.Ghosts {
		// ghost results of the callee are existential for the caller
		if gv := ex.freshGhost(g.Type, g.Name); gv != nil {
			binds[g.Name] = gv
			st.ghost["$out_"+g.Name] = gv
			if ex.ws != nil {
				ex.ws.ghost["$out_"+g.Name] = true
			}
		}
	}
	for _, en := range c.Ensures {
		ex.assumeSpec(st, mk(st), en)
	}
	return res
}

// havocTarget gives fresh contents to the locations named by a modifies expression.
func (ex *Exec) havocTarget(st *State, ctx *SpecCtx, m *SExpr) {
	for _, t := range ex.modTargets(ctx, m) {
		h := ex.heapGet(st, t.key, t.hs)
		if t.whole {
			ex.heapSet(st, t.key, Fresh("H_"+t.key, t.hs), nil)
			continue
		}
		if t.elemArr != nil {
			// all elements [lo,hi) of array of composites, field path
			nt := Fresh("H_"+t.key, t.hs)
			r := BoundVar("r", RefS)
			sel := TF.mk(Term{Op: "select", S: t.hs.B, Args: []*Term{nt, r}})
			ov := TF.mk(Term{Op: "select", S: t.hs.B, Args: []*Term{h, r}})
			in, idx := elemMatch(r, t.path, t.elemArr)
			if t.lo != nil {
				in = And(in, idxLe(t.lo, idx), idxLt(idx, t.hi))
			}
			ex.facts = append(ex.facts, Forall([]*Term{r}, Or(in, Eq(sel, ov)), [][]*Term{{sel}}))
			ex.heapSetPat(st, t.key, nt, t.elemArr, t.path)
			continue
		}
		nv := Fresh("h_"+t.key, t.hs.B)
		if t.hs.B == IntS {
			// range facts follow from the leaf type on load
		}
		if t.lo != nil {
			i := BoundVar("i", idxSort())
			sel := TF.mk(Term{Op: "select", S: t.hs.B.B, Args: []*Term{nv, i}})
			ov := TF.mk(Term{Op: "select", S: t.hs.B.B, Args: []*Term{Select(h, t.ref), i}})
			ex.facts = append(ex.facts, Forall([]*Term{i}, Or(And(idxLe(t.lo, i), idxLt(i, t.hi)), Eq(sel, ov)), [][]*Term{{sel}}))
		}
		ex.heapSet(st, t.key, Store(h, t.ref, nv), t.ref)
	}
}

type modTarget struct {
	key     string
	hs      *Sort
	ref     *Term
	lo, hi  *Term // index range for arrays
	whole   bool
	elemArr *Term
	path    []int
}

// modTargets expands a modifies expression into heap locations.
func (ex *Exec) modTargets(ctx *SpecCtx, m *SExpr) []modTarget {
	var out []modTarget
	var addRef func(ref *Term, T types.Type)
	addRef = func(ref *Term, T types.Type) {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				l := ex.fieldLoc(ref, T, i)
				if l.kind == "ref" {
					addRef(l.ref, l.T)
					continue
				}
				for _, lf := range leaves(l.T) {
					out = append(out, modTarget{key: l.key + lf.name, hs: ArrS(RefS, lf.s), ref: ref})
				}
			}
		case *types.Array:
			if isComposite(u.Elem()) {
				for i := int64(0); i < u.Len(); i++ {
					addRef(Elem(ref, idxC(i)), u.Elem())
				}
				return
			}
			for _, lf := range leaves(u.Elem()) {
				out = append(out, modTarget{key: "A:" + typeKey(u.Elem()) + lf.name, hs: ArrS(RefS, ArrS(idxSort(), lf.s)), ref: ref})
			}
		}
	}
	addLoc := func(l Loc) {
		switch l.kind {
		case "field":
			for _, lf := range leaves(l.T) {
				out = append(out, modTarget{key: l.key + lf.name, hs: ArrS(RefS, lf.s), ref: l.ref})
			}
		case "ref":
			addRef(l.ref, l.T)
		case "elem":
			for _, lf := range leaves(l.T) {
				out = append(out, modTarget{key: "A:" + typeKey(l.T) + lf.name, hs: ArrS(RefS, ArrS(idxSort(), lf.s)), ref: l.ref, lo: l.idx, hi: Add(l.idx, idxC(1))})
			}
		default:
			unsup("modifies target")
		}
	}
	// element fields of an array of structs
	var addElems func(arr, lo, hi *Term, T types.Type, path []int, only string)
	addElems = func(arr, lo, hi *Term, T types.Type, path []int, only string) {
		switch u := T.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				if only != "" && u.Field(i).Name() != only {
					continue
				}
				l := ex.fieldLoc(Null(), T, i)
				if l.kind == "ref" {
					addElems(arr, lo, hi, l.T, append(append([]int{}, path...), fieldUID(T, i)), "")
					continue
				}
				for _, lf := range leaves(l.T) {
					out = append(out, modTarget{key: l.key + lf.name, hs: ArrS(RefS, lf.s), elemArr: arr, lo: lo, hi: hi, path: path})
				}
			}
		case *types.Array:
			if isComposite(u.Elem()) {
				unsup("modifies of nested composite arrays")
			}
			for _, lf := range leaves(u.Elem()) {
				out = append(out, modTarget{key: "A:" + typeKey(u.Elem()) + lf.name, hs: ArrS(RefS, ArrS(idxSort(), lf.s)), elemArr: arr, lo: lo, hi: hi, path: path})
			}
		}
	}
	allOf := func(v *Val, only string) {
		if isSlice(v.T) {
			et := elemTypeOf(v.T)
			if isComposite(et) {
				addElems(v.arr(), v.off(), Add(v.off(), v.ln()), et, nil, only)
				return
			}
			for _, lf := range leaves(et) {
				out = append(out, modTarget{key: "A:" + typeKey(et) + lf.name, hs: ArrS(RefS, ArrS(idxSort(), lf.s)), ref: v.arr(), lo: v.off(), hi: Add(v.off(), v.ln())})
			}
			return
		}
		unsup("modifies [*] of %v", v.T)
	}
	switch m.Kind {
	case "all":
		if l, ok := ex.specLoc(ctx, m.Args[0]); ok && l.kind == "ref" {
			addRef(l.ref, l.T)
			break
		}
		v := ex.specEval(ctx, m.Args[0])
		if p, ok := v.T.Underlying().(*types.Pointer); ok && isComposite(p.Elem()) {
			addRef(v.t, p.Elem())
			break
		}
		allOf(v, "")
	case "sel":
		if m.Args[0].Kind == "all" {
			allOf(ex.specEval(ctx, m.Args[0].Args[0]), m.Name)
			break
		}
		if m.Args[0].Kind == "ident" {
			// Type.field: the field of every object
			if T := ex.lookupNamed(ctx, m.Args[0].Name); T != nil && ctx.lookup(m.Args[0].Name) == nil {
				u := T.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					if u.Field(i).Name() != m.Name {
						continue
					}
					l := ex.fieldLoc(Null(), T, i)
					if l.kind == "ref" {
						unsup("modifies Type.field of composite field")
					}
					for _, lf := range leaves(l.T) {
						out = append(out, modTarget{key: l.key + lf.name, hs: ArrS(RefS, lf.s), whole: true})
					}
				}
				break
			}
		}
		l, ok := ex.specLoc(ctx, m)
		if !ok {
			unsup("modifies %s", m.Name)
		}
		addLoc(l)
	case "slice":
		v := ex.specEval(ctx, m)
		allOf(v, "")
	case "deref":
		v := ex.specEval(ctx, m.Args[0])
		if p, ok := v.T.Underlying().(*types.Pointer); ok && isComposite(p.Elem()) {
			addRef(v.t, p.Elem())
			break
		}
		l, ok := ex.specLoc(ctx, m)
		if !ok {
			unsup("modifies deref")
		}
		addLoc(l)
	case "call":
		if m.Name == "heapof" {
			// heapof(T): every element of arrays with element type T
			T := ex.specType(ctx, m.Args[0].Name)
			if isComposite(T) {
				u := T.Underlying().(*types.Struct)
				for i := 0; i < u.NumFields(); i++ {
					l := ex.fieldLoc(Null(), T, i)
					if l.kind == "ref" {
						if at, ok := l.T.Underlying().(*types.Array); ok && !isComposite(at.Elem()) {
							for _, lf := range leaves(at.Elem()) {
								out = append(out, modTarget{key: "A:" + typeKey(at.Elem()) + lf.name, hs: ArrS(RefS, ArrS(idxSort(), lf.s)), whole: true})
							}
							continue
						}
						unsup("heapof nested")
					}
					for _, lf := range leaves(l.T) {
						out = append(out, modTarget{key: l.key + lf.name, hs: ArrS(RefS, lf.s), whole: true})
					}
				}
				break
			}
			for _, lf := range leaves(T) {
				out = append(out, modTarget{key: "A:" + typeKey(T) + lf.name, hs: ArrS(RefS, ArrS(idxSort(), lf.s)), whole: true})
			}
			break
		}
		unsup("modifies call %s", m.Name)
	default:
		l, ok := ex.specLoc(ctx, m)
		if !ok {
			v := ex.specEval(ctx, m)
			if p, okp := v.T.Underlying().(*types.Pointer); okp && isComposite(p.Elem()) {
				addRef(v.t, p.Elem())
				break
			}
			unsup("modifies expression %s", m.Kind)
		}
		addLoc(l)
	}
	return out
}

func (ex *Exec) newFrame(fo *types.Func, decl *ast.FuncDecl, lit *ast.FuncLit, pkg *Pkg, sig *types.Signature, callPos token.Pos) *Frame {
	fr := &Frame{fn: fo, decl: decl, lit: lit, pkg: pkg, parent: ex.frame}
	if ex.frame != nil {
		fr.callPath = fmt.Sprintf("%s/%d", ex.frame.callPath, callPos)
	}
	var body ast.Node
	if decl != nil {
		body = decl.Body
	} else {
		body = lit.Body
	}
	fr.addr = addrTaken(body, pkg.Info)
	for i := 0; i < sig.Results().Len(); i++ {
		fr.results = append(fr.results, sig.Results().At(i))
		if sig.Results().At(i).Name() != "" {
			fr.namedResults = true
		}
	}
	return fr
}

// addrTaken: scalar/slice/pointer variables whose address is taken.
func addrTaken(body ast.Node, info *types.Info) map[types.Object]bool {
	r := map[types.Object]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if id, ok := unparen(n.X).(*ast.Ident); ok {
					if o := info.Uses[id]; o != nil {
						r[o] = true
					}
				}
			}
		case *ast.CallExpr:
			// pointer-receiver method on an addressable non-composite variable
			if se, ok := unparen(n.Fun).(*ast.SelectorExpr); ok {
				if sel := info.Selections[se]; sel != nil && sel.Kind() == types.MethodVal {
					if _, isP := sel.Obj().Type().(*types.Signature).Recv().Type().Underlying().(*types.Pointer); isP {
						if id, ok := unparen(se.X).(*ast.Ident); ok {
							if o, ok := info.Uses[id].(*types.Var); ok {
								if _, vp := o.Type().Underlying().(*types.Pointer); !vp {
									r[o] = true
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	return r
}

func (ex *Exec) inlineFunc(st *State, fo *types.Func, decl *ast.FuncDecl, recv *Val, args []*Val, e *ast.CallExpr) *Val {
	pkg := ex.prog.FPkg[fo]
	sig := fo.Type().(*types.Signature)
	var pos token.Pos
	if e != nil {
		pos = e.Pos()
	}
	fr := ex.newFrame(fo, decl, nil, pkg, sig, pos)
	return ex.runInlined(st, fr, decl.Body, sig, recv, args, decl.Recv)
}

func (ex *Exec) inlineLit(st *State, lit *ast.FuncLit, args []*Val, e *ast.CallExpr) *Val {
	sig := ex.typeOf(lit).(*types.Signature)
	fr := ex.newFrame(nil, nil, lit, ex.frame.pkg, sig, e.Pos())
	for o := range ex.frame.addr {
		fr.addr[o] = true
	}
	return ex.runInlined(st, fr, lit.Body, sig, nil, args, nil)
}

func (ex *Exec) runInlined(st *State, fr *Frame, body *ast.BlockStmt, sig *types.Signature, recv *Val, args []*Val, rl *ast.FieldList) *Val {
	save := ex.frame
	saveDefers := st.defers
	ex.frame = fr
	ex.depth++
	defer func() { ex.frame = save; ex.depth-- }()
	st.defers = nil
	ex.bindFrame(st, sig, recv, args)
	exits := ex.runBody(st, body, sig)
	key := fmt.Sprintf("$ret%d", ex.depth)
	m := ex.mergeAll(exits)
	if m == nil {
		st.pc = False
		rt := ex.sigResultType(sig)
		if rt == nil {
			return nil
		}
		return ex.freshVal("noret", rt, nil)
	}
	// restore caller-local variables; inlined callee locals stay (harmless)
	m.defers = saveDefers
	rv := m.ghost[key]
	delete(m.ghost, key)
	st.set(m)
	if sig.Results().Len() == 0 {
		return nil
	}
	if rv == nil {
		unsup("no result value from inlined function")
	}
	if sig.Results().Len() == 1 {
		return rv.c[0]
	}
	return rv
}

func (ex *Exec) bindFrame(st *State, sig *types.Signature, recv *Val, args []*Val) {
	if r := sig.Recv(); r != nil && recv != nil {
		if r.Name() != "" && r.Name() != "_" {
			ex.declare(st, r, recv)
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		if p.Name() != "" && p.Name() != "_" {
			ex.declare(st, p, args[i])
		}
	}
	for i := 0; i < sig.Results().Len(); i++ {
		r := sig.Results().At(i)
		if r.Name() != "" && r.Name() != "_" {
			ex.declare(st, r, ex.zero(r.Type()))
		}
	}
}

// runBody executes a function body and its defers, returning the exit states.
func (ex *Exec) runBody(st *State, body *ast.BlockStmt, sig *types.Signature) []*State {
	g := ex.execList(body.List, st)
	exits := append([]*State{}, g.rets...)
	for _, s := range g.normal {
		if s == nil || s.pc == False {
			continue
		}
		if sig.Results().Len() > 0 && ex.dry == 0 {
			// falling off the end with results is impossible in valid Go
			continue
		}
		ex.setRet(s, nil)
		exits = append(exits, s)
	}
	var out []*State
	for _, s := range exits {
		if s == nil || s.pc == False {
			continue
		}
		ds := s.defers
		s.defers = nil
		for i := len(ds) - 1; i >= 0; i-- {
			ex.evalCall(s, ds[i])
			if s.pc == False {
				break
			}
		}
		if s.pc != False {
			out = append(out, s)
		}
	}
	return out
}

// ---- external models ----

var noopFuncs = map[string]bool{
	"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "fmt.Fprintf": true, "fmt.Fprintln": true, "fmt.Fprint": true,
	"log.Println": true, "log.Printf": true, "log.Print": true,
	"assert.True": true, "assert.Truef": true, "assert.False": true, "assert.Falsef": true,
}

var noopMethods = map[string]bool{
	"recast.(*BuildContext).Progressf": true, "recast.(*BuildContext).Warningf": true, "recast.(*BuildContext).Errorf": true,
	"recast.(*BuildContext).StartTimer": true, "recast.(*BuildContext).StopTimer": true,
	"recast.(*BuildContext).ResetTimers": true, "recast.(*BuildContext).ResetLog": true,
}

func (ex *Exec) callModel(st *State, fo *types.Func, key string, recv *Val, args []*Val, e *ast.CallExpr) (*Val, bool) {
	sig := fo.Type().(*types.Signature)
	path := ""
	if fo.Pkg() != nil {
		path = fo.Pkg().Path()
	}
	rt := ex.sigResultType(sig)
	freshRes := func() *Val {
		if rt == nil {
			return nil
		}
		return ex.freshVal("x_"+fo.Name(), rt, st)
	}
	if noopFuncs[key] && path != "" {
		if strings.HasPrefix(key, "assert.") {
			if !strings.HasSuffix(path, "assertgo") {
				return nil, false
			}
			ex.externs["assertgo (disabled without the debug build tag)"] = true
		} else {
			ex.externs[key] = true
		}
		return freshRes(), true
	}
	if noopMethods[key] && (ex.c == nil || !strings.Contains(ex.c.Key, "BuildContext")) {
		ex.externs[key+" (logging/timing: assumed to touch only the context)"] = true
		return freshRes(), true
	}
	switch key {
	case "log.Fatal", "log.Fatalf", "log.Fatalln", "os.Exit":
		ex.oblige(st, "panic", "process exit not reached", e.Pos(), False, key)
		st.pc = False
		return freshRes(), true
	case "errors.New", "fmt.Errorf":
		ex.externs[key] = true
		v := &Val{T: rt, t: ex.alloc(st)}
		return v, true
	case "fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln":
		ex.externs[key] = true
		return freshRes(), true
	case "time.Now", "time.Since":
		ex.externs[key] = true
		return freshRes(), true
	case "math.Float32bits":
		ex.externs[key] = true
		x := args[0].t
		if x.Op == "app" && x.Name == "f32frombits" {
			return &Val{T: rt, t: x.Args[0]}, true
		}
		if floatMode == "fp" {
			if x.Op == "((_ to_fp 8 24))" {
				return nil, false
			}
			b := Fresh("f32bits", scalarSort(rt))
			if bvMode {
				ex.facts = append(ex.facts, Eq(TF.mk(Term{Op: "(_ to_fp 8 24)", S: FP32S, Args: []*Term{b}}), x))
			}
			return &Val{T: rt, t: b}, true
		}
		r := App("f32bits", scalarSort(rt), x)
		markRange(r, rt)
		ex.bitsAxiom()
		return &Val{T: rt, t: r}, true
	case "math.Float32frombits":
		ex.externs[key] = true
		if floatMode == "fp" && bvMode {
			return &Val{T: rt, t: TF.mk(Term{Op: "(_ to_fp 8 24)", S: FP32S, Args: []*Term{args[0].t}})}, true
		}
		b := args[0].t
		if b.Op == "app" && b.Name == "f32bits" {
			return &Val{T: rt, t: b.Args[0]}, true
		}
		ex.bitsAxiom()
		return &Val{T: rt, t: App("f32frombits", floatSort(rt), b)}, true
	}
	if strings.HasSuffix(path, "arl/math32") || path == "math" {
		if v := ex.mathCall(fo.Name(), args, rt); v != nil {
			ex.externs[key] = true
			return v, true
		}
	}
	if path == "encoding/binary" && recv != nil {
		if r, ok := ex.binaryModel(st, fo.Name(), args, rt, e); ok {
			ex.externs["encoding/binary.LittleEndian"] = true
			return r, true
		}
	}
	if path == "encoding/binary" && recv == nil && fo.Name() == "Read" && e != nil && len(e.Args) == 3 {
		// binary.Read(r, order, p): *p becomes anything
		if pt, ok := ex.info().TypeOf(e.Args[2]).Underlying().(*types.Pointer); ok {
			if _, isS := pt.Elem().Underlying().(*types.Struct); isS {
				ex.externs["encoding/binary.Read (assumed to write only the value it is given, and to terminate)"] = true
				p := ex.eval(st, e.Args[2])
				ex.store(st, ex.ptrLoc(st, p, pt.Elem(), e.Pos()), ex.freshVal("read", pt.Elem(), st))
				return freshRes(), true
			}
		}
	}
	if path == "time" || path == "sync" {
		ex.externs[key] = true
		return freshRes(), true
	}
	if fo.Name() == "Error" && sig.Params().Len() == 0 && recv != nil {
		return freshRes(), true
	}
	return nil, false
}

// mathCall: functions of math and math32.
func (ex *Exec) mathCall(name string, args []*Val, rt types.Type) *Val {
	switch name {
	case "Sqrt", "Abs", "Floor", "Ceil", "Min", "Max", "Cos", "Sin", "Acos", "Atan2", "Pow", "Mod", "Inf", "IsNaN", "IsInf", "NaN", "Tan":
	default:
		return nil
	}
	if floatMode == "fp" && len(args) > 0 {
		a := args[0].t
		switch name {
		case "Sqrt":
			return &Val{T: rt, t: mkop("fp.sqrt", a.S, rne(), a)}
		case "Abs":
			return &Val{T: rt, t: mkop("fp.abs", a.S, a)}
		case "Floor", "Ceil":
			m := "RTN"
			if name == "Ceil" {
				m = "RTP"
			}
			return &Val{T: rt, t: mkop("fp.roundToIntegral", a.S, TF.mk(Term{Op: "lit", Name: m, S: mkSort(Sort{K: SRM})}), a)}
		}
	}
	switch name {
	case "Min", "Max":
		return &Val{T: rt, t: ex.floatMinMax(name == "Min", args[0].t, args[1].t)}
	case "IsNaN":
		if floatMode == "fp" {
			return &Val{T: rt, t: mkop("fp.isNaN", BoolS, args[0].t)}
		}
		if floatMode != "real" {
			return &Val{T: rt, t: fNaN(args[0].t)}
		}
	}
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.leafTerms()...)
	}
	return &Val{T: rt, t: App("m_"+name, scalarSort(rt), ts...)}
}

// floatMinMax: the smaller (larger) operand when the operands are ordered; one
// of the two when they compare equal (which one depends on the sign of zero);
// unspecified when one is not a number.
func (ex *Exec) floatMinMax(min bool, a, b *Term) *Term {
	op, nm := token.LSS, "m_Min"
	if !min {
		op, nm = token.GTR, "m_Max"
	}
	return Ite(ex.floatCmp(op, a, b), a, Ite(ex.floatCmp(op, b, a), b,
		Ite(ex.floatCmp(token.EQL, a, b), Ite(App(nm+"_eq", BoolS, a, b), a, b), App(nm, a.S, a, b))))
}

func (ex *Exec) bitsAxiom() {
	if ex.axDone["f32bits"] || ex.prologue == nil && false {
		return
	}
	ex.axDone["f32bits"] = true
	fs := floatSort(types.Typ[types.Float32])
	us := scalarSort(types.Typ[types.Uint32])
	x := BoundVar("x", fs)
	b := BoundVar("b", us)
	fb := App("f32bits", us, x)
	markRange(fb, types.Typ[types.Uint32])
	ff := App("f32frombits", fs, b)
	var inR *Term = True
	ax1 := Forall([]*Term{x}, Eq(App("f32frombits", fs, fb), x), [][]*Term{{fb}})
	if !bvMode {
		inR = And(mkop("<=", BoolS, IntC(0), b), mkop("<=", BoolS, b, IntC(1<<32-1)))
		ex.prologue = append(ex.prologue, Forall([]*Term{x}, And(mkop("<=", BoolS, IntC(0), fb), mkop("<=", BoolS, fb, IntC(1<<32-1))), [][]*Term{{fb}}))
	}
	ax2 := Forall([]*Term{b}, Imp(inR, Eq(App("f32bits", us, ff), b)), [][]*Term{{ff}})
	ex.prologue = append(ex.prologue, ax1, ax2)
}

// binaryModel: encoding/binary.LittleEndian accessors.
func (ex *Exec) binaryModel(st *State, name string, args []*Val, rt types.Type, e *ast.CallExpr) (*Val, bool) {
	sz := map[string]int{"Uint16": 2, "Uint32": 4, "Uint64": 8, "PutUint16": 2, "PutUint32": 4, "PutUint64": 8}
	n, ok := sz[name]
	if !ok {
		return nil, false
	}
	b := args[0]
	bt := types.Type(types.Typ[types.Uint8])
	ex.oblige(st, "panic", "index in range", e.Pos(), idxLt(idxC(int64(n-1)), b.ln()), "binary."+name)
	if !strings.HasPrefix(name, "Put") {
		var r *Term
		for i := 0; i < n; i++ {
			x := ex.load(st, ex.elemLoc(b.arr(), Ix(b.off(), idxC(int64(i))), bt)).t
			if bvMode {
				x = bvResize(x, 8, n*8, false)
				if i > 0 {
					x = mkop("bvshl", x.S, x, BVC(big.NewInt(int64(8*i)), n*8))
				}
				if r == nil {
					r = x
				} else {
					r = mkop("bvor", x.S, r, x)
				}
			} else {
				x = Mul(BigC(new(big.Int).Lsh(big.NewInt(1), uint(8*i))), x)
				if r == nil {
					r = x
				} else {
					r = Add(r, x)
				}
			}
		}
		return &Val{T: rt, t: r}, true
	}
	v := args[1].t
	for i := 0; i < n; i++ {
		var x *Term
		if bvMode {
			x = TF.mk(Term{Op: fmt.Sprintf("(_ extract %d %d)", 8*i+7, 8*i), S: BVS(8), Args: []*Term{v}})
		} else {
			x = v
			if i > 0 {
				x = Div(v, BigC(new(big.Int).Lsh(big.NewInt(1), uint(8*i))))
			}
			x = Mod(x, IntC(256))
		}
		ex.store(st, ex.elemLoc(b.arr(), Ix(b.off(), idxC(int64(i))), bt), &Val{T: bt, t: x})
	}
	return nil, true
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
