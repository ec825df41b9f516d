package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
)

type Flow struct {
	normal []*State
	brk    map[string][]*State
	cont   map[string][]*State
	rets   []*State
}

func (f *Flow) addBrk(l string, s ...*State) {
	if f.brk == nil {
		f.brk = map[string][]*State{}
	}
	f.brk[l] = append(f.brk[l], s...)
}
func (f *Flow) addCont(l string, s ...*State) {
	if f.cont == nil {
		f.cont = map[string][]*State{}
	}
	f.cont[l] = append(f.cont[l], s...)
}
func (f *Flow) absorb(g Flow) {
	for l, s := range g.brk {
		f.addBrk(l, s...)
	}
	for l, s := range g.cont {
		f.addCont(l, s...)
	}
	f.rets = append(f.rets, g.rets...)
}

func (ex *Exec) join(ss []*State) []*State {
	var out []*State
	for _, s := range ss {
		if s != nil && s.pc != False {
			out = append(out, s)
		}
	}
	if len(out) <= 1 {
		return out
	}
	if ex.c != nil && ex.c.Paths && ex.depth == 0 && len(out) <= 64 {
		return out
	}
	return []*State{ex.mergeAll(out)}
}

func (ex *Exec) execList(stmts []ast.Stmt, st *State) Flow {
	var f Flow
	cur := []*State{st}
	for _, s := range stmts {
		var next []*State
		for _, c := range cur {
			if c.pc == False {
				continue
			}
			g := ex.exec(s, c, "")
			f.absorb(g)
			next = append(next, g.normal...)
		}
		cur = ex.join(next)
		if len(cur) == 0 {
			break
		}
	}
	f.normal = cur
	return f
}

func one(st *State) Flow { return Flow{normal: []*State{st}} }

func (ex *Exec) exec(s ast.Stmt, st *State, label string) Flow {
	switch s := s.(type) {
	case *ast.BlockStmt:
		return ex.execList(s.List, st)
	case *ast.EmptyStmt:
		return one(st)
	case *ast.ExprStmt:
		if c, ok := unparen(s.X).(*ast.CallExpr); ok {
			ex.evalCall(st, c)
			if st.pc == False {
				return Flow{}
			}
			return one(st)
		}
		ex.eval(st, s.X)
		return one(st)
	case *ast.AssignStmt:
		ex.execAssign(st, s)
		return one(st)
	case *ast.IncDecStmt:
		l := ex.addrLoc(st, s.X)
		v := ex.load(st, l)
		op := token.ADD
		if s.Tok == token.DEC {
			op = token.SUB
		}
		if isFloatT(l.T) {
			unsup("float inc/dec")
		}
		one1 := ex.constVal(constInt(1), l.T)
		ex.store(st, l, &Val{T: l.T, t: ex.intOp(st, op, v.t, one1.t, l.T, s.Pos(), false)})
		return one(st)
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			return one(st)
		}
		for _, sp := range gd.Specs {
			vs := sp.(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					if v, ok := ex.info().Defs[n].(*types.Var); ok {
						ex.declare(st, v, ex.zero(v.Type()))
					}
				}
				continue
			}
			if len(vs.Values) == 1 && len(vs.Names) > 1 {
				t := ex.eval(st, vs.Values[0])
				for i, n := range vs.Names {
					if v, ok := ex.info().Defs[n].(*types.Var); ok {
						ex.declare(st, v, ex.implicitConv(t.c[i], v.Type()))
					}
				}
				continue
			}
			var vals []*Val
			for i, n := range vs.Names {
				v, _ := ex.info().Defs[n].(*types.Var)
				if v == nil {
					vals = append(vals, ex.eval(st, vs.Values[i]))
					continue
				}
				vals = append(vals, ex.evalTo(st, vs.Values[i], v.Type()))
			}
			for i, n := range vs.Names {
				if v, ok := ex.info().Defs[n].(*types.Var); ok {
					ex.declare(st, v, vals[i])
				}
			}
		}
		return one(st)
	case *ast.IfStmt:
		if s.Init != nil {
			g := ex.exec(s.Init, st, "")
			st = g.normal[0]
		}
		c := ex.eval(st, s.Cond).t
		var f Flow
		var ns []*State
		if c != False || ex.dry > 0 {
			s1 := st.clone()
			s1.pc = And(st.pc, c)
			if ex.dry > 0 {
				s1.pc = st.pc
			}
			if s1.pc != False {
				g := ex.execList(s.Body.List, s1)
				f.absorb(g)
				ns = append(ns, g.normal...)
			}
		}
		if c != True || ex.dry > 0 {
			s2 := st.clone()
			s2.pc = And(st.pc, Not(c))
			if ex.dry > 0 {
				s2.pc = st.pc
			}
			if s2.pc != False {
				if s.Else != nil {
					g := ex.exec(s.Else, s2, "")
					f.absorb(g)
					ns = append(ns, g.normal...)
				} else {
					ns = append(ns, s2)
				}
			}
		}
		f.normal = ex.join(ns)
		return f
	case *ast.ReturnStmt:
		ex.execReturn(st, s)
		return Flow{rets: []*State{st}}
	case *ast.BranchStmt:
		var f Flow
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			f.addBrk(l, st)
		case token.CONTINUE:
			f.addCont(l, st)
		default:
			unsup("branch %v", s.Tok)
		}
		return f
	case *ast.LabeledStmt:
		return ex.exec(s.Stmt, st, s.Label.Name)
	case *ast.ForStmt:
		return ex.execFor(st, s, label)
	case *ast.RangeStmt:
		return ex.execRange(st, s, label)
	case *ast.SwitchStmt:
		return ex.execSwitch(st, s, label)
	case *ast.DeferStmt:
		st.defers = append(append([]*ast.CallExpr{}, st.defers...), s.Call)
		return one(st)
	}
	unsup("statement %T", s)
	return Flow{}
}

func (ex *Exec) execReturn(st *State, s *ast.ReturnStmt) {
	fr := ex.frame
	var vals []*Val
	if len(s.Results) == 1 && len(fr.results) > 1 {
		t := ex.eval(st, s.Results[0])
		for i, r := range fr.results {
			vals = append(vals, ex.implicitConv(t.c[i], r.Type()))
		}
	} else if len(s.Results) > 0 {
		for i, r := range s.Results {
			vals = append(vals, ex.evalTo(st, r, fr.results[i].Type()))
		}
	} else {
		for _, r := range fr.results {
			vals = append(vals, ex.load(st, ex.varLoc(st, r)))
		}
	}
	if fr.namedResults && len(s.Results) > 0 {
		for i, r := range fr.results {
			if r.Name() != "_" {
				ex.store(st, ex.varLoc(st, r), vals[i])
			}
		}
	}
	ex.setRet(st, vals)
}

func (ex *Exec) setRet(st *State, vals []*Val) {
	key := fmt.Sprintf("$ret%d", ex.depth)
	delete(st.ghost, key)
	if len(vals) == 0 {
		return
	}
	var vs []*types.Var
	for _, r := range ex.frame.results {
		vs = append(vs, r)
	}
	tup := types.NewTuple(vs...)
	cs := make([]*Val, len(vals))
	for i := range vals {
		n := *vals[i]
		n.T = vs[i].Type()
		if vals[i].dyn != nil {
			n.dyn = vals[i].dyn
		}
		cs[i] = &n
	}
	st.ghost[key] = &Val{T: tup, c: cs}
}

func (ex *Exec) execAssign(st *State, s *ast.AssignStmt) {
	if s.Tok == token.ASSIGN || s.Tok == token.DEFINE {
		// locations first (Go evaluates index and pointer operands first)
		locs := make([]Loc, len(s.Lhs))
		defs := make([]*types.Var, len(s.Lhs))
		for i, l := range s.Lhs {
			if id, ok := l.(*ast.Ident); ok {
				if s.Tok == token.DEFINE {
					if v, ok := ex.info().Defs[id].(*types.Var); ok && v != nil {
						defs[i] = v
						continue
					}
				}
				if id.Name == "_" {
					locs[i] = Loc{kind: "blank"}
					continue
				}
			}
			if ix, ok := l.(*ast.IndexExpr); ok {
				if _, isMap := ex.typeOf(ix.X).Underlying().(*types.Map); isMap {
					unsup("map assignment")
				}
			}
			locs[i] = ex.addrLoc(st, l)
		}
		var vals []*Val
		if len(s.Rhs) == 1 && len(s.Lhs) > 1 {
			t := ex.eval(st, s.Rhs[0])
			if t == nil || len(t.c) != len(s.Lhs) {
				unsup("multi-value assignment")
			}
			for i := range s.Lhs {
				v := t.c[i]
				if tt, ok := t.T.(*types.Tuple); ok {
					n := *v
					n.T = tt.At(i).Type()
					v = &n
				}
				vals = append(vals, v)
			}
		} else {
			for i, r := range s.Rhs {
				switch {
				case defs[i] != nil:
					vals = append(vals, ex.evalTo(st, r, defs[i].Type()))
				case locs[i].kind == "blank":
					tv := ex.info().Types[r]
					if tv.IsNil() {
						vals = append(vals, &Val{})
					} else {
						vals = append(vals, ex.eval(st, r))
					}
				default:
					vals = append(vals, ex.evalTo(st, r, locs[i].T))
				}
			}
		}
		for i := range s.Lhs {
			if defs[i] != nil {
				ex.declare(st, defs[i], ex.implicitConv(vals[i], defs[i].Type()))
			} else {
				ex.store(st, locs[i], ex.implicitConv(vals[i], locs[i].T))
			}
		}
		return
	}
	// op-assign
	opm := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}
	op := opm[s.Tok]
	l := ex.addrLoc(st, s.Lhs[0])
	v := ex.load(st, l)
	var r *Val
	if op == token.SHL || op == token.SHR {
		y := ex.eval(st, s.Rhs[0])
		yt := y.t
		if bvMode {
			yt = bvShiftCount(y, v.t.S.N)
		}
		r = &Val{T: l.T, t: ex.intOp(st, op, v.t, yt, l.T, s.Pos(), false)}
	} else {
		y := ex.evalTo(st, s.Rhs[0], l.T)
		switch {
		case isIntT(l.T):
			r = &Val{T: l.T, t: ex.intOp(st, op, v.t, y.t, l.T, s.Pos(), false)}
		case isFloatT(l.T):
			r = &Val{T: l.T, t: ex.floatOp(op, v.t, y.t)}
		case isStringT(l.T):
			r = &Val{T: l.T, t: App("strcat", UnintS("Str"), v.t, y.t)}
		default:
			unsup("op-assign on %v", l.T)
		}
	}
	ex.store(st, l, r)
}

func (ex *Exec) execSwitch(st *State, s *ast.SwitchStmt, label string) Flow {
	if s.Init != nil {
		g := ex.exec(s.Init, st, "")
		st = g.normal[0]
	}
	var tag *Val
	var tagT types.Type
	if s.Tag != nil {
		tagT = ex.typeOf(s.Tag)
		if isUntyped(tagT) {
			tagT = types.Default(tagT)
		}
		tag = ex.evalTo(st, s.Tag, tagT)
	}
	var f Flow
	var ns []*State
	var clauses []*ast.CaseClause
	var def *ast.CaseClause
	defIdx := -1
	for i, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		clauses = append(clauses, cc)
		if cc.List == nil {
			def = cc
			defIdx = i
		}
	}
	runBody := func(i int, s0 *State) {
		cur := s0
		for j := i; j < len(clauses); j++ {
			body := clauses[j].Body
			ft := false
			if n := len(body); n > 0 {
				if b, ok := body[n-1].(*ast.BranchStmt); ok && b.Tok == token.FALLTHROUGH {
					ft = true
					body = body[:n-1]
				}
			}
			g := ex.execList(body, cur)
			f.absorb(g)
			if !ft {
				ns = append(ns, g.normal...)
				return
			}
			j2 := ex.mergeAll(g.normal)
			if j2 == nil {
				return
			}
			cur = j2
		}
	}
	rest := st
	for i, cc := range clauses {
		if cc.List == nil {
			continue
		}
		var conds []*Term
		for _, e := range cc.List {
			if tag != nil {
				v := ex.evalTo(rest, e, tagT)
				conds = append(conds, ex.compare(rest, token.EQL, tag, v, tagT))
			} else {
				conds = append(conds, ex.eval(rest, e).t)
			}
		}
		c := Or(conds...)
		if c != False || ex.dry > 0 {
			s1 := rest.clone()
			if ex.dry == 0 {
				s1.pc = And(rest.pc, c)
			}
			runBody(i, s1)
		}
		r2 := rest.clone()
		if ex.dry == 0 {
			r2.pc = And(rest.pc, Not(c))
		}
		rest = r2
	}
	if def != nil {
		runBody(defIdx, rest)
	} else {
		ns = append(ns, rest)
	}
	// break inside switch
	for _, l := range []string{"", label} {
		if f.brk != nil {
			ns = append(ns, f.brk[l]...)
			delete(f.brk, l)
		}
	}
	f.normal = ex.join(ns)
	return f
}

// ---- loops ----

type loopDesc struct {
	node     ast.Stmt
	label    string
	cond     func(st *State) *Term
	body     func(st *State) Flow
	post     func(st *State)
	idx      func(st *State) *Val // value of the induction counter, nil if unknown
	condE    ast.Expr
	postS    ast.Stmt
	bodyS    *ast.BlockStmt
	hidden   string          // hidden ghost counter name for range loops
	pre      func(st *State) // set key variable from hidden index
	infinite bool
}

func (ex *Exec) execFor(st *State, s *ast.ForStmt, label string) Flow {
	if s.Init != nil {
		g := ex.exec(s.Init, st, "")
		st = g.normal[0]
	}
	L := &loopDesc{node: s, label: label, condE: s.Cond, postS: s.Post, bodyS: s.Body}
	L.cond = func(st *State) *Term {
		if s.Cond == nil {
			return True
		}
		return ex.eval(st, s.Cond).t
	}
	L.infinite = s.Cond == nil
	L.body = func(st *State) Flow { return ex.execList(s.Body.List, st) }
	L.post = func(st *State) {
		if s.Post != nil {
			g := ex.exec(s.Post, st, "")
			st.set(g.normal[0])
		}
	}
	if iv := ex.inductionVar(s); iv != nil {
		L.idx = func(st *State) *Val { return ex.load(st, ex.varLoc(st, iv)) }
	}
	return ex.loop(st, L)
}

func (ex *Exec) inductionVar(s *ast.ForStmt) *types.Var {
	get := func(e ast.Expr) *types.Var {
		if id, ok := unparen(e).(*ast.Ident); ok {
			if v, ok := ex.info().Uses[id].(*types.Var); ok {
				return v
			}
		}
		return nil
	}
	switch p := s.Post.(type) {
	case *ast.IncDecStmt:
		return get(p.X)
	case *ast.AssignStmt:
		if len(p.Lhs) == 1 {
			return get(p.Lhs[0])
		}
	}
	// while-style: last statement of the body increments a variable
	if n := len(s.Body.List); n > 0 {
		if p, ok := s.Body.List[n-1].(*ast.IncDecStmt); ok {
			return get(p.X)
		}
	}
	return nil
}

func (ex *Exec) execRange(st *State, s *ast.RangeStmt, label string) Flow {
	xt := ex.typeOf(s.X)
	ex.uniq++
	hid := fmt.Sprintf("$rng_%d", s.Pos())
	var n *Term
	var elemLocAt func(st *State, i *Term) Loc
	intRangeT := types.Type(types.Typ[types.Int])
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		sv := ex.eval(st, s.X)
		n = sv.ln()
		elemLocAt = func(st *State, i *Term) Loc { return ex.elemLoc(sv.arr(), Ix(sv.off(), i), u.Elem()) }
	case *types.Array:
		n = idxC(u.Len())
		var ref *Term
		if s.Value != nil && !ex.addressable(s.X) {
			v := ex.eval(st, s.X)
			ref = ex.alloc(st)
			ex.storeComposite(st, ref, xt, v)
		} else {
			l := ex.addrLoc(st, s.X)
			ref = l.ref
			if s.Value != nil {
				// range over a copy
				v := ex.loadComposite(st, ref, xt)
				ref = ex.alloc(st)
				ex.storeComposite(st, ref, xt, v)
			}
		}
		elemLocAt = func(st *State, i *Term) Loc { return ex.elemLoc(ref, i, u.Elem()) }
	case *types.Pointer:
		at, ok := u.Elem().Underlying().(*types.Array)
		if !ok {
			unsup("range over %v", xt)
		}
		p := ex.eval(st, s.X)
		n = idxC(at.Len())
		elemLocAt = func(st *State, i *Term) Loc { return ex.elemLoc(p.t, i, at.Elem()) }
	case *types.Basic:
		if isIntT(xt) {
			v := ex.eval(st, s.X)
			n = toIdx(v)
			if !isUntyped(xt) {
				intRangeT = xt
			}
			break
		}
		unsup("range over %v", xt)
	default:
		unsup("range over %v", xt)
	}
	st.ghost[hid] = &Val{T: types.Typ[types.Int], t: idxC(0)}
	setVar := func(st *State, e ast.Expr, v *Val) {
		if e == nil {
			return
		}
		id, ok := e.(*ast.Ident)
		if ok && id.Name == "_" {
			return
		}
		if s.Tok == token.DEFINE {
			if v0, ok := ex.info().Defs[id].(*types.Var); ok {
				ex.declare(st, v0, ex.implicitConv(v, v0.Type()))
				return
			}
		}
		l := ex.addrLoc(st, e)
		ex.store(st, l, ex.implicitConv(v, l.T))
	}
	keyT := types.Type(types.Typ[types.Int])
	if intRangeT != types.Typ[types.Int] {
		keyT = intRangeT
	}
	L := &loopDesc{node: s, label: label, bodyS: s.Body, hidden: hid}
	keyVal := func(st *State) *Val {
		t := st.ghost[hid].t
		if bvMode {
			w, _, _ := intInfo(keyT)
			t = bvResize(t, 64, w, true)
		}
		return &Val{T: keyT, t: t}
	}
	L.pre = func(st *State) {
		if s.Tok == token.DEFINE {
			setVar(st, s.Key, keyVal(st))
		}
	}
	L.cond = func(st *State) *Term { return idxLt(st.ghost[hid].t, n) }
	L.body = func(st *State) Flow {
		setVar(st, s.Key, keyVal(st))
		if s.Value != nil {
			if id, ok := s.Value.(*ast.Ident); !ok || id.Name != "_" {
				setVar(st, s.Value, ex.load(st, elemLocAt(st, st.ghost[hid].t)))
			}
		}
		return ex.execList(s.Body.List, st)
	}
	L.post = func(st *State) {
		g := st.ghost[hid]
		if ex.ws != nil {
			ex.ws.ghost[hid] = true
		}
		st.ghost[hid] = &Val{T: g.T, t: Add(g.t, idxC(1))}
	}
	L.idx = func(st *State) *Val { return st.ghost[hid] }
	return ex.loop(st, L)
}

type snapshot struct {
	nf, no, nc                      int
	hookN                           map[string]int
	counts                          map[string]int
	loopN                           int
	loopOrd                         map[string]int
	glob                            map[string]bool
	ax                              map[string]bool
	lem                             map[string]bool
	loopsSeen, loopsNoDec, unrolled int
}

func cpInt(m map[string]int) map[string]int {
	n := map[string]int{}
	for k, v := range m {
		n[k] = v
	}
	return n
}
func cpBool(m map[string]bool) map[string]bool {
	n := map[string]bool{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (ex *Exec) snap() snapshot {
	return snapshot{len(ex.facts), len(ex.obls), len(ex.covers), cpInt(ex.hookN), cpInt(ex.counts), ex.loopN, cpInt(ex.loopOrd), cpBool(ex.globFacts), cpBool(ex.axDone), cpBool(ex.lemInst), ex.loopsSeen, ex.loopsNoDec, ex.unrolled}
}
func (ex *Exec) restore(s snapshot) {
	ex.facts = ex.facts[:s.nf]
	ex.obls = ex.obls[:s.no]
	ex.covers = ex.covers[:s.nc]
	ex.hookN = cpInt(s.hookN)
	ex.counts = cpInt(s.counts)
	ex.loopN = s.loopN
	ex.loopOrd = cpInt(s.loopOrd)
	ex.globFacts = cpBool(s.glob)
	ex.axDone = cpBool(s.ax)
	ex.lemInst = cpBool(s.lem)
	ex.loopsSeen, ex.loopsNoDec, ex.unrolled = s.loopsSeen, s.loopsNoDec, s.unrolled
}

func (ex *Exec) loopKey(L *loopDesc) string {
	return fmt.Sprintf("%s@%d", ex.frame.callPath, L.node.Pos())
}

func (ex *Exec) loop(st *State, L *loopDesc) Flow {
	if ex.dry > 0 {
		return ex.loopDry(st, L)
	}
	// 1. constant unrolling
	key := ex.loopKey(L)
	if _, known := ex.loopOrd[key]; !known && !L.infinite && !ex.keepNext() {
		if f, ok := ex.tryUnroll(st, L); ok {
			ex.unrolled++
			return f
		}
	}
	// 2. contract
	ord, known := ex.loopOrd[key]
	if !known {
		ex.loopN++
		ord = ex.loopN
		ex.loopOrd[key] = ord
	}
	var lc *LoopC
	if ex.c != nil {
		lc = ex.c.Loops[ord]
	}
	if lc == nil {
		lc = &LoopC{}
	}
	lc.used = true
	if lc.Unroll > 0 {
		return ex.boundedUnroll(st, L, lc.Unroll)
	}
	return ex.loopInv(st, L, lc, ord)
}

// keepNext: the contract asks for the next numbered loop to be kept as a loop.
func (ex *Exec) keepNext() bool {
	return ex.c != nil && ex.c.Loops[ex.loopN+1] != nil && ex.c.Loops[ex.loopN+1].Keep
}

const maxUnroll = 70

func (ex *Exec) tryUnroll(st0 *State, L *loopDesc) (Flow, bool) {
	sn := ex.snap()
	st := st0.clone()
	var f Flow
	var exits []*State
	cur := []*State{st}
	for n := 0; n < maxUnroll; n++ {
		if len(cur) > 1 {
			cur = []*State{ex.mergeAll(cur)}
		}
		if len(cur) == 0 || cur[0] == nil {
			break
		}
		s := cur[0]
		c := L.cond(s)
		if c == False {
			exits = append(exits, s)
			cur = nil
			break
		}
		if c != True {
			ex.restore(sn)
			return Flow{}, false
		}
		g := L.body(s)
		f.rets = append(f.rets, g.rets...)
		var nx []*State
		nx = append(nx, g.normal...)
		for l, ss := range g.cont {
			if l == "" || l == L.label {
				nx = append(nx, ss...)
			} else {
				f.addCont(l, ss...)
			}
		}
		for l, ss := range g.brk {
			if l == "" || l == L.label {
				exits = append(exits, ss...)
			} else {
				f.addBrk(l, ss...)
			}
		}
		cur = nil
		if m := ex.mergeAll(nx); m != nil {
			L.post(m)
			cur = []*State{m}
		}
		if len(cur) == 0 {
			break
		}
		if n == maxUnroll-1 {
			ex.restore(sn)
			return Flow{}, false
		}
	}
	f.normal = ex.join(exits)
	return f, true
}

func (ex *Exec) boundedUnroll(st *State, L *loopDesc, max int) Flow {
	var f Flow
	var exits []*State
	cur := st
	for n := 0; n <= max; n++ {
		c := L.cond(cur)
		out := cur.clone()
		out.pc = And(cur.pc, Not(c))
		exits = append(exits, out)
		in := cur.clone()
		in.pc = And(cur.pc, c)
		if in.pc == False {
			break
		}
		if n == max {
			ex.oblige(in, "unwind", fmt.Sprintf("loop runs at most %d iterations", max), L.node.Pos(), False, "")
			break
		}
		g := L.body(in)
		f.rets = append(f.rets, g.rets...)
		nx := append([]*State{}, g.normal...)
		for l, ss := range g.cont {
			if l == "" || l == L.label {
				nx = append(nx, ss...)
			} else {
				f.addCont(l, ss...)
			}
		}
		for l, ss := range g.brk {
			if l == "" || l == L.label {
				exits = append(exits, ss...)
			} else {
				f.addBrk(l, ss...)
			}
		}
		m := ex.mergeAll(nx)
		if m == nil {
			break
		}
		L.post(m)
		cur = m
	}
	f.normal = ex.join(exits)
	return f
}

// assigned local variables in a syntax tree
func (ex *Exec) assignedVars(nodes ...ast.Node) map[*types.Var]bool {
	r := map[*types.Var]bool{}
	info := ex.info()
	note := func(e ast.Expr) {
		if id, ok := unparen(e).(*ast.Ident); ok {
			if v, ok := info.Uses[id].(*types.Var); ok {
				r[v] = true
			}
			if v, ok := info.Defs[id].(*types.Var); ok {
				r[v] = true
			}
		}
	}
	for _, n := range nodes {
		if n == nil {
			continue
		}
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					note(l)
				}
			case *ast.IncDecStmt:
				note(n.X)
			case *ast.RangeStmt:
				if n.Key != nil {
					note(n.Key)
				}
				if n.Value != nil {
					note(n.Value)
				}
			}
			return true
		})
	}
	return r
}

// havocFor replaces everything the loop may write by fresh values.
func (ex *Exec) havocFor(st *State, L *loopDesc, ws *writeSet, lc *LoopC) *State {
	h := st.clone()
	if ws.alloc {
		nh := Fresh("hp", IntS)
		ex.facts = append(ex.facts, Le(st.hp, nh))
		TF.hpFrom[nh.id] = []*Term{st.hp}
		h.hp = nh
	}
	var vs []*types.Var
	for o := range ws.vars {
		if ws.vskip[o] {
			continue
		}
		if v, ok := o.(*types.Var); ok {
			if cur, in := h.vars[v]; in && cur.T != cellMarker {
				vs = append(vs, v)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	for _, v := range vs {
		old := h.vars[v]
		nv := ex.freshVal(v.Name(), v.Type(), h)
		if old.dyn != nil {
			nv.dyn = nil
		}
		h.vars[v] = nv
	}
	var keys []string
	for k := range ws.keys() {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if ws.skip[k] {
			continue
		}
		s := ex.heapSort[k]
		cur := ex.heapGet(h, k, s)
		if ws.all[k] {
			nt := Fresh("H_"+k, s)
			h.heap[k] = nt
			continue
		}
		tg := ws.heap[k]
		if tg[freshTarget] || len(ws.pats[k]) > 0 {
			nt := Fresh("H_"+k, s)
			r := BoundVar("r", RefS)
			sel := TF.mk(Term{Op: "select", S: s.B, Args: []*Term{nt, r}})
			var conds []*Term
			if tg[freshTarget] {
				conds = append(conds, Lt(Root(r), st.hp))
			}
			for _, p := range ws.pats[k] {
				in, _ := elemMatch(r, p.path, p.arr)
				conds = append(conds, Not(in))
			}
			var ts []*Term
			for t := range tg {
				if t != freshTarget {
					ts = append(ts, t)
				}
			}
			sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
			for _, t := range ts {
				conds = append(conds, Neq(r, t))
			}
			ex.facts = append(ex.facts, Forall([]*Term{r}, Imp(And(conds...), Eq(sel, Select(cur, r))), [][]*Term{{sel}}))
			h.heap[k] = nt
			continue
		}
		var ts []*Term
		for t := range tg {
			ts = append(ts, t)
		}
		sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
		nt := cur
		for _, t := range ts {
			nt = Store(nt, t, Fresh("h_"+k, s.B))
		}
		h.heap[k] = nt
	}
	for g := range ws.ghost {
		if old, ok := h.ghost[g]; ok {
			h.ghost[g] = ex.freshVal(g, old.T, h)
		}
	}
	if L.hidden != "" {
		old := h.ghost[L.hidden]
		h.ghost[L.hidden] = ex.freshVal("rng", old.T, h)
	}
	return h
}

func (ws *writeSet) keys() map[string]bool {
	km := map[string]bool{}
	for k := range ws.heap {
		km[k] = true
	}
	for k := range ws.all {
		km[k] = true
	}
	for k := range ws.pats {
		km[k] = true
	}
	return km
}

var freshTarget = &Term{Op: "fresh-target"}

// writeSetOf computes what one loop iteration may write, to a fixpoint.
func (ex *Exec) writeSetOf(st *State, L *loopDesc, lc *LoopC) *writeSet {
	W := newWriteSet()
	for v := range ex.assignedVars(L.bodyS, L.postS, condNode(L.condE)) {
		if _, in := st.vars[v]; in {
			W.vars[v] = true
		}
	}
	if lc != nil {
		for _, g := range lc.Steps {
			W.ghost[g.Name] = true
		}
	}
	for iter := 0; iter < 6; iter++ {
		sn := ex.snap()
		mark := TF.nsym
		saveWS := ex.ws
		h := ex.havocFor(st, L, W, lc)
		if L.pre != nil {
			ex.ws = newWriteSet()
			L.pre(h)
		}
		fh := Fresh("hpdry", IntS)
		h.hp = fh
		ex.ws = newWriteSet()
		ex.dry++
		ex.noOblig++
		var back []*State
		var dryStart *State
		func() {
			defer func() { ex.dry--; ex.noOblig-- }()
			hs := h.clone()
			L.cond(h)
			g := L.body(h)
			nx := append([]*State{}, g.normal...)
			for l, ss := range g.cont {
				if l == "" || l == L.label {
					nx = append(nx, ss...)
				}
			}
			back = nx
			dryStart = hs
			for _, s := range nx {
				L.post(s)
			}
		}()
		got := ex.ws
		ex.ws = saveWS
		ex.restore(sn)
		changed := false
		for v := range got.vars {
			if !W.vars[v] {
				if _, in := st.vars[v]; in {
					W.vars[v] = true
					changed = true
				}
			}
		}
		for g := range got.ghost {
			if !W.ghost[g] {
				W.ghost[g] = true
				changed = true
			}
		}
		if got.alloc && !W.alloc {
			W.alloc = true
			changed = true
		}
		for k := range got.all {
			if !W.all[k] {
				W.all[k] = true
				changed = true
			}
		}
		for k, tg := range got.heap {
			if W.all[k] {
				continue
			}
			for t := range tg {
				if t != freshTarget && t.maxSy > mark {
					rt := Root(t)
					if containsSym(rt, fh) && rt.Op != "app" && rt.Op != "ite" {
						t = freshTarget
					} else if p, ok := patOf(t); ok && p.arr.maxSy <= mark {
						if W.addPat(k, p) {
							changed = true
						}
						continue
					} else {
						W.all[k] = true
						changed = true
						break
					}
				}
				if W.heap[k] == nil {
					W.heap[k] = map[*Term]bool{}
				}
				if !W.heap[k][t] {
					W.heap[k][t] = true
					changed = true
				}
			}
			if len(W.heap[k]) > 12 {
				W.all[k] = true
			}
		}
		for k, ps := range got.pats {
			if W.all[k] {
				continue
			}
			for _, p := range ps {
				if p.arr.maxSy <= mark {
					if W.addPat(k, p) {
						changed = true
					}
				} else if rt := Root(p.arr); containsSym(rt, fh) && rt.Op != "app" && rt.Op != "ite" {
					if W.heap[k] == nil {
						W.heap[k] = map[*Term]bool{}
					}
					if !W.heap[k][freshTarget] {
						W.heap[k][freshTarget] = true
						changed = true
					}
				} else {
					W.all[k] = true
					changed = true
				}
			}
		}
		if !changed {
			W.skip, W.vskip = map[string]bool{}, map[types.Object]bool{}
			same := func(f func(*State) bool) bool {
				for _, s := range back {
					if s != nil && s.pc != False && !f(s) {
						return false
					}
				}
				return true
			}
			for k := range W.keys() {
				if same(func(s *State) bool {
					a, ok := s.heap[k]
					b, ok2 := dryStart.heap[k]
					return ok == ok2 && a == b
				}) {
					W.skip[k] = true
				}
			}
			for o := range W.vars {
				v, ok := o.(*types.Var)
				if !ok {
					continue
				}
				if same(func(s *State) bool { return s.vars[v] == dryStart.vars[v] }) {
					W.vskip[v] = true
				}
			}
			break
		}
		if iter == 5 {
			// give up precision
			for k := range W.heap {
				W.all[k] = true
			}
			for k := range W.pats {
				W.all[k] = true
			}
		}
	}
	// propagate to an enclosing recording
	return W
}

func containsSym(t, s *Term) bool {
	if t == s {
		return true
	}
	for _, a := range t.Args {
		if containsSym(a, s) {
			return true
		}
	}
	return false
}

func condNode(e ast.Expr) ast.Node {
	if e == nil {
		return nil
	}
	return e
}

func (ex *Exec) runHookGhosts() {}

func (ex *Exec) recordWrites(W *writeSet) {
	if ex.ws == nil {
		return
	}
	for v := range W.vars {
		ex.ws.vars[v] = true
	}
	for g := range W.ghost {
		ex.ws.ghost[g] = true
	}
	if W.alloc {
		ex.ws.alloc = true
	}
	for k := range W.all {
		ex.ws.all[k] = true
	}
	for k, tg := range W.heap {
		if ex.ws.heap[k] == nil {
			ex.ws.heap[k] = map[*Term]bool{}
		}
		for t := range tg {
			ex.ws.heap[k][t] = true
		}
	}
	for k, ps := range W.pats {
		for _, p := range ps {
			ex.ws.addPat(k, p)
		}
	}
}

// loopDry: abstract execution of a nested loop while computing write sets.
func (ex *Exec) loopDry(st *State, L *loopDesc) Flow {
	W := ex.writeSetOf(st, L, nil)
	ex.recordWrites(W)
	h := ex.havocFor(st, L, W, nil)
	if L.pre != nil {
		L.pre(h)
	}
	L.cond(h)
	b := h.clone()
	g := L.body(b)
	var f Flow
	f.rets = g.rets
	exits := []*State{h}
	for l, ss := range g.cont {
		if l != "" && l != L.label {
			f.addCont(l, ss...)
		}
	}
	for l, ss := range g.brk {
		if l == "" || l == L.label {
			exits = append(exits, ss...)
		} else {
			f.addBrk(l, ss...)
		}
	}
	nx := append([]*State{}, g.normal...)
	if m := ex.mergeAll(nx); m != nil {
		L.post(m)
	}
	f.normal = []*State{h}
	return f
}

func (ex *Exec) loopInv(st *State, L *loopDesc, lc *LoopC, ord int) Flow {
	ex.loopsSeen++
	nm := fmt.Sprintf("loop %d", ord)
	for _, g := range lc.Init {
		v := ex.specEval(&SpecCtx{ex: ex, st: st, old: ex.entry, loop: L, loopPos: L.bodyS.Pos()}, g.E)
		st.ghost[g.Name] = ex.ghostAssign(st, g.Name, v)
	}
	before := st.clone()
	if L.pre != nil {
		L.pre(before)
	}
	W := ex.writeSetOf(st, L, lc)
	ex.recordWrites(W)
	ctx := func(s *State) *SpecCtx {
		return &SpecCtx{ex: ex, st: s, old: ex.entry, before: before, loop: L, loopPos: L.bodyS.Pos()}
	}
	mark := TF.nsym
	autos := ex.autoInvs(st, L, W, lc)
	// initially
	for i, inv := range lc.Invs {
		ex.checkSpec(before, ctx(before), inv, fmt.Sprintf("%s invariant %d initially", nm, i+1), L.node.Pos())
	}
	for _, a := range autos {
		ex.oblige(before, "inv", nm+" auto invariant initially", L.node.Pos(), a(before), "auto")
	}
	// the function's own frame holds at every iteration
	var fkeys []string
	if ex.c != nil && !ex.c.NoFrame && !ex.c.ModAll && ex.rootFrame != nil {
		for k := range W.all {
			if W.skip[k] {
				continue
			}
			fkeys = append(fkeys, k)
		}
		for k := range W.keys() {
			if W.skip[k] || W.all[k] {
				continue
			}
			for _, t := range ex.frameTargets()[k] {
				if t.lo != nil && !t.whole {
					fkeys = append(fkeys, k)
					break
				}
			}
		}
		sort.Strings(fkeys)
	}
	frameAt := func(s *State, skolem bool) {
		for _, k := range fkeys {
			H0, ok := ex.heap0[k]
			if !ok {
				continue
			}
			H := ex.heapGet(s, k, ex.heapSort[k])
			if H == H0 {
				continue
			}
			g := ex.frameFormula(k, H, H0, skolem)
			if !skolem {
				ex.facts = append(ex.facts, Imp(s.pc, g))
				continue
			}
			for _, c := range conj(g) {
				ex.oblige(s, "frame", nm+" modifies only the stated locations of "+k, L.node.Pos(), c, "")
			}
		}
	}
	frameAt(before, true)
	h := ex.havocFor(st, L, W, lc)
	if L.pre != nil {
		L.pre(h)
	}
	frameAt(h, false)
	for _, a := range autos {
		ex.assume(h, a(h))
	}
	for _, inv := range lc.Invs {
		ex.assumeSpec(h, ctx(h), inv)
	}
	_ = mark
	// condition
	c := L.cond(h)
	b := h.clone()
	b.pc = And(h.pc, c)
	var f Flow
	exits := []*State{}
	out := h.clone()
	out.pc = And(h.pc, Not(c))
	if out.pc != False {
		exits = append(exits, out)
	}
	if b.pc != False {
		ex.cover(b, nm+" body reachable", L.node.Pos())
		for i, a := range lc.Asserts {
			ex.checkSpec(b, ctx(b), a, fmt.Sprintf("%s assert %d", nm, i+1), L.node.Pos())
		}
		var dec0 *Term
		if lc.Decreases != nil {
			dec0 = ex.specEval(ctx(b), lc.Decreases).t
			if !bvMode {
				ex.oblige(b, "dec", nm+" measure bounded below", L.node.Pos(), Le(IntC(0), dec0), lc.Decreases.Src)
			}
		} else if !ex.autoTerminates(L, W) {
			ex.loopsNoDec++
		}
		bstart := b.clone()
		g := L.body(b)
		f.rets = append(f.rets, g.rets...)
		nx := append([]*State{}, g.normal...)
		for l, ss := range g.cont {
			if l == "" || l == L.label {
				nx = append(nx, ss...)
			} else {
				f.addCont(l, ss...)
			}
		}
		for l, ss := range g.brk {
			if l == "" || l == L.label {
				exits = append(exits, ss...)
			} else {
				f.addBrk(l, ss...)
			}
		}
		for _, s := range nx {
			if s == nil || s.pc == False {
				continue
			}
			for i, a := range lc.EndAsserts {
				c := ctx(s)
				c.iter = bstart
				if a.E == nil {
					ex.freeze(s, a.Src)
					continue
				}
				ex.checkSpec(s, c, a, fmt.Sprintf("%s end assert %d", nm, i+1), L.node.Pos())
			}
			var nv []*Val
			for _, g := range lc.Steps {
				c := ctx(s)
				c.iter = bstart
				nv = append(nv, ex.ghostAssign(s, g.Name, ex.specEval(c, g.E)))
			}
			for i, g := range lc.Steps {
				s.ghost[g.Name] = nv[i]
			}
			L.post(s)
			if L.pre != nil {
				L.pre(s)
			}
			for i, inv := range lc.Invs {
				c := ctx(s)
				c.iter = bstart
				ex.checkSpec(s, c, inv, fmt.Sprintf("%s invariant %d preserved", nm, i+1), L.node.Pos())
			}
			for _, a := range autos {
				ex.oblige(s, "inv", nm+" auto invariant preserved", L.node.Pos(), a(s), "auto")
			}
			frameAt(s, true)
			if dec0 != nil {
				c := ctx(s)
				c.iter = bstart
				d1 := ex.specEval(c, lc.Decreases).t
				if bvMode {
					ex.oblige(s, "dec", nm+" measure decreases", L.node.Pos(), bvcmp("bvult", d1, dec0), lc.Decreases.Src)
				} else {
					ex.oblige(s, "dec", nm+" measure decreases", L.node.Pos(), Lt(d1, dec0), lc.Decreases.Src)
				}
			}
		}
	}
	f.normal = ex.join(exits)
	return f
}

// autoTerminates: counting loop with a loop-invariant bound.
func (ex *Exec) autoTerminates(L *loopDesc, W *writeSet) bool {
	if L.hidden != "" {
		return true
	}
	fs, ok := L.node.(*ast.ForStmt)
	if !ok || fs.Cond == nil {
		return false
	}
	inc, ok := fs.Post.(*ast.IncDecStmt)
	if !ok || inc.Tok != token.INC {
		return false
	}
	id, ok := unparen(inc.X).(*ast.Ident)
	if !ok {
		return false
	}
	v, _ := ex.info().Uses[id].(*types.Var)
	if v == nil {
		return false
	}
	if ex.assignedVars(L.bodyS)[v] {
		return false
	}
	for _, c := range conjuncts(fs.Cond) {
		be, ok := unparen(c).(*ast.BinaryExpr)
		if !ok || (be.Op != token.LSS && be.Op != token.LEQ) {
			continue
		}
		if x, ok := unparen(be.X).(*ast.Ident); ok && ex.info().Uses[x] == v && ex.invariantExpr(be.Y, W) {
			return true
		}
	}
	return false
}

func conjuncts(e ast.Expr) []ast.Expr {
	e = unparen(e)
	if b, ok := e.(*ast.BinaryExpr); ok && b.Op == token.LAND {
		return append(conjuncts(b.X), conjuncts(b.Y)...)
	}
	return []ast.Expr{e}
}

// invariantExpr: syntactically unaffected by the loop's writes
func (ex *Exec) invariantExpr(e ast.Expr, W *writeSet) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			if v, is := ex.info().Uses[n].(*types.Var); is && !v.IsField() {
				if W.vars[v] || ex.isAddrTaken(v) {
					ok = false
				}
			}
		case *ast.CallExpr:
			if id, is := n.Fun.(*ast.Ident); is && (id.Name == "len" || id.Name == "cap") {
				return true
			}
			if tv := ex.info().Types[n.Fun]; tv.IsType() {
				return true
			}
			ok = false
		case *ast.SelectorExpr:
			if sel := ex.info().Selections[n]; sel != nil && sel.Kind() == types.FieldVal {
				T := sel.Recv()
				if p, isP := T.Underlying().(*types.Pointer); isP {
					T = p.Elem()
				}
				k := typeKey(T) + "." + n.Sel.Name
				for kk := range W.all {
					if len(kk) >= len(k) && kk[:len(k)] == k {
						ok = false
					}
				}
				for kk := range W.heap {
					if len(kk) >= len(k) && kk[:len(k)] == k {
						ok = false
					}
				}
				for kk := range W.pats {
					if len(kk) >= len(k) && kk[:len(k)] == k {
						ok = false
					}
				}
			}
		case *ast.IndexExpr, *ast.StarExpr:
			ok = false
		}
		return ok
	})
	return ok
}

// autoInvs: simple counting invariants read off the loop syntax. They are
// checked like any other invariant.
func (ex *Exec) autoInvs(st *State, L *loopDesc, W *writeSet, lc *LoopC) []func(*State) *Term {
	var out []func(*State) *Term
	if lc.NoAuto {
		return nil
	}
	if L.hidden != "" {
		hid := L.hidden
		n0 := L.cond(st) // idx < n, recover n
		_ = n0
		out = append(out, func(s *State) *Term {
			i := s.ghost[hid].t
			c := ex.withNoOblig(func() *Term { return L.cond(s) })
			// c is idx < n ; i <= n  <=>  c or i == n ; express via n extracted
			n := rangeBound(c, i)
			if n == nil {
				return idxLe(idxC(0), i)
			}
			return And(idxLe(idxC(0), i), Or(idxLe(i, n), And(idxLt(n, idxC(0)), Eq(i, idxC(0)))))
		})
	}
	type upd struct{ inc, dec, other int }
	ups := map[*types.Var]*upd{}
	info := ex.info()
	note := func(e ast.Expr, kind int) {
		id, ok := unparen(e).(*ast.Ident)
		if !ok {
			return
		}
		v, _ := info.Uses[id].(*types.Var)
		if v == nil {
			return
		}
		u := ups[v]
		if u == nil {
			u = &upd{}
			ups[v] = u
		}
		switch kind {
		case 1:
			u.inc++
		case -1:
			u.dec++
		default:
			u.other++
		}
	}
	visit := func(n ast.Node) {
		ast.Inspect(n, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.IncDecStmt:
				if n.Tok == token.INC {
					note(n.X, 1)
				} else {
					note(n.X, -1)
				}
			case *ast.AssignStmt:
				for i, l := range n.Lhs {
					k := 0
					if len(n.Rhs) == len(n.Lhs) {
						if tv := info.Types[n.Rhs[i]]; tv.Value != nil && tv.Value.Kind() == 3 {
							s := constSign(tv.Value)
							if n.Tok == token.ADD_ASSIGN && s >= 0 {
								k = 1
							}
							if n.Tok == token.SUB_ASSIGN && s >= 0 {
								k = -1
							}
						}
					}
					note(l, k)
				}
			case *ast.RangeStmt:
				if n.Key != nil {
					note(n.Key, 0)
				}
				if n.Value != nil {
					note(n.Value, 0)
				}
			}
			return true
		})
	}
	visit(L.bodyS)
	if L.postS != nil {
		visit(L.postS)
	}
	var vs []*types.Var
	for v := range ups {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Pos() < vs[j].Pos() })
	for _, v := range vs {
		v := v
		u := ups[v]
		cur, in := st.vars[v]
		if !in || cur.t == nil || cur.T == cellMarker || !isIntT(v.Type()) || ex.isAddrTaken(v) {
			continue
		}
		v0 := cur.t
		if u.other == 0 && u.dec == 0 {
			out = append(out, func(s *State) *Term { return ex.intCmp(token.LEQ, v0, s.vars[v].t, v.Type()) })
			// upper bound from the condition: v < E or v <= E, E invariant
			if L.condE != nil && u.inc == 1 && stepIsOne(L, v, info) {
				for _, c := range conjuncts(L.condE) {
					be, ok := unparen(c).(*ast.BinaryExpr)
					if !ok {
						continue
					}
					x, ok := unparen(be.X).(*ast.Ident)
					if !ok || info.Uses[x] != v || be.Op != token.LSS && be.Op != token.NEQ {
						continue
					}
					if !ex.invariantExpr(be.Y, W) {
						continue
					}
					y := be.Y
					out = append(out, func(s *State) *Term {
						var e *Val
						ex.noOblig++
						e = ex.evalTo(s.clone(), y, v.Type())
						ex.noOblig--
						t := s.vars[v].t
						return Or(ex.intCmp(token.LEQ, t, e.t, v.Type()), Eq(t, v0))
					})
				}
			}
		} else if u.other == 0 && u.inc == 0 {
			out = append(out, func(s *State) *Term { return ex.intCmp(token.LEQ, s.vars[v].t, v0, v.Type()) })
		}
	}
	return out
}

func (ex *Exec) withNoOblig(f func() *Term) *Term {
	ex.noOblig++
	defer func() { ex.noOblig-- }()
	return f()
}

// rangeBound recovers n from the term for i < n.
func rangeBound(c, i *Term) *Term {
	if bvMode {
		if c.Op == "bvslt" && c.Args[0] == i {
			return c.Args[1]
		}
		return nil
	}
	// Lt(i,n) = not (n <= i)
	if c.Op == "not" && c.Args[0].Op == "<=" && c.Args[0].Args[1] == i {
		return c.Args[0].Args[0]
	}
	return nil
}

func stepIsOne(L *loopDesc, v *types.Var, info *types.Info) bool {
	one := false
	f := func(n ast.Node) bool {
		if s, ok := n.(*ast.IncDecStmt); ok {
			if id, ok := unparen(s.X).(*ast.Ident); ok && info.Uses[id] == v {
				one = true
			}
		}
		return true
	}
	ast.Inspect(L.bodyS, f)
	if L.postS != nil {
		ast.Inspect(L.postS, f)
	}
	return one
}

func (ex *Exec) cover(st *State, name string, pos token.Pos) {
	if ex.dry > 0 || ex.noOblig > 0 {
		return
	}
	ex.covers = append(ex.covers, &Oblig{Name: name, Kind: "cover", Pos: pos, NFacts: len(ex.facts), PC: st.pc, Goal: False})
}
