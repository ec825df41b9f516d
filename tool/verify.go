package main

// Verification of one function (or lemma) against its contract.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

type FuncResult struct {
	Key        string
	File       string
	Mode       string
	Obls       []*Oblig
	Covers     []*Oblig
	Jobs       []*Job
	Used       []string
	Lemmas     []string
	Inlined    []string
	Externs    []string
	Notes      []string
	Err        string
	Trivial    int
	Loops      int
	LoopsNoDec int
	Unrolled   int
	Trusted    bool
	Overflow   string
	Floats     string
	Source     string
}

func newExec(prog *Program, specs *Specs, c *Contract, key string) *Exec {
	return &Exec{prog: prog, specs: specs, c: c, key: key,
		heap0: map[string]*Term{}, heapSort: map[string]*Sort{}, loopOrd: map[string]int{},
		used: map[string]bool{}, inlined: map[string]bool{}, externs: map[string]bool{}, notes: map[string]bool{},
		hookN: map[string]int{}, counts: map[string]int{}, globFacts: map[string]bool{}, letVals: map[string]*Val{},
		lemInst: map[string]bool{}, recFns: map[string]bool{}, openFns: map[string]bool{}, axDone: map[string]bool{}}
}

func (ex *Exec) emptyState() *State {
	hp := Fresh("hp0", IntS)
	hp.lo = intZero
	return &State{pc: True, vars: map[types.Object]*Val{}, heap: map[string]*Term{}, ghost: map[string]*Val{}, hp: hp}
}

// verifyFunc generates the obligations of the contract c.
func verifyFunc(prog *Program, specs *Specs, c *Contract) (res *FuncResult) {
	res = &FuncResult{Key: c.Key, File: fmt.Sprintf("%s:%d", c.File, c.Line), Mode: c.Mode, Trusted: c.Trusted, Overflow: c.Overflow, Floats: c.Floats}
	resetTerms()
	fieldUIDs = map[string]int{}
	specQuant = 0
	bvMode = c.Mode == "bv"
	floatMode = c.Floats
	ex := newExec(prog, specs, c, c.Key)
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = u.msg
			} else if debugPanics {
				panic(r)
			} else {
				res.Err = fmt.Sprintf("internal error: %v", r)
			}
		}
		res.Obls = ex.obls
		res.Covers = ex.covers
		res.Used = sortedKeys(ex.used)
		for k := range ex.lemInst {
			res.Lemmas = append(res.Lemmas, k)
		}
		sort.Strings(res.Lemmas)
		res.Inlined = sortedKeys(ex.inlined)
		res.Externs = sortedKeys(ex.externs)
		res.Notes = sortedKeys(ex.notes)
		res.Trivial = ex.counts["trivial"]
		res.Loops = ex.loopsSeen
		res.LoopsNoDec = ex.loopsNoDec
		res.Unrolled = ex.unrolled
		res.render(ex)
	}()
	if c.Lemma != nil {
		ex.verifyLemma(c)
		return
	}
	if c.GlobInv {
		ex.verifyGlobInv(c)
		return
	}
	fo := prog.ByKey[strings.SplitN(c.Key, "#", 2)[0]]
	if fo == nil {
		unsup("no function %s in the program (contract %s)", c.Key, res.File)
	}
	decl := prog.Funcs[fo]
	if decl == nil || decl.Body == nil {
		unsup("function %s has no body", c.Key)
	}
	sig := fo.Type().(*types.Signature)
	fr := ex.newFrame(fo, decl, nil, prog.FPkg[fo], sig, token.NoPos)
	ex.frame = fr
	ex.rootFrame = fr
	fr.entry = map[string]*Val{}
	st := ex.emptyState()
	var recv *Val
	if r := sig.Recv(); r != nil {
		nm := r.Name()
		if nm == "" || nm == "_" {
			nm = "recv"
		}
		recv = ex.freshVal(nm, r.Type(), st)
		fr.entry[nm] = recv
		fr.entry["recv"] = recv
	}
	var args []*Val
	for i := 0; i < sig.Params().Len(); i++ {
		p := sig.Params().At(i)
		nm := p.Name()
		if nm == "" || nm == "_" {
			nm = fmt.Sprintf("arg%d", i)
		}
		v := ex.freshVal(nm, p.Type(), st)
		fr.entry[nm] = v
		fr.entry[fmt.Sprintf("arg%d", i)] = v
		args = append(args, v)
	}
	for i := 0; i < sig.Results().Len(); i++ {
		delete(fr.entry, sig.Results().At(i).Name())
	}
	ex.paramTerms(fr)
	for _, g := range c.GParams {
		v := ex.freshVal(g.Name, ex.specType(&SpecCtx{ex: ex}, g.Type), st)
		st.ghost[g.Name] = v
	}
	ex.entry = st.clone()
	ex.bindFrame(st, sig, recv, args)
	pctx := func(s *State) *SpecCtx {
		return &SpecCtx{ex: ex, st: s, old: ex.entry, params: true}
	}
	ex.useNames(c.Uses, pctx(ex.entry))
	for _, l := range c.Lets {
		v := ex.specEval(pctx(ex.entry), l.E)
		if v.untyped != nil {
			v = ex.num(v)
		}
		ex.letVals[l.Name] = v
	}
	for _, r := range c.Requires {
		ex.assumeSpec(ex.entry, pctx(ex.entry), r)
	}
	ex.cover(st, "precondition satisfiable", decl.Pos())
	for _, g := range c.Ghosts {
		T := ex.specType(&SpecCtx{ex: ex}, g.Type)
		if g.Init == nil {
			st.ghost[g.Name] = ex.freshVal(g.Name, T, st)
			continue
		}
		st.ghost[g.Name] = ex.coerce(pctx(st), ex.specEval(pctx(st), g.Init), g.Type)
		st.ghost[g.Name].T = T
	}
	exits := ex.runBody(st, decl.Body, sig)
	if c.Function {
		ex.checkFunction(sig)
	}
	if !c.Paths {
		if m := ex.mergeAll(exits); m != nil {
			exits = []*State{m}
		} else {
			exits = nil
		}
	}
	for xi, s := range exits {
		if s.pc == False {
			continue
		}
		if xi == 0 {
			any := s.clone()
			for _, o := range exits {
				any.pc = Or(any.pc, o.pc)
			}
			ex.cover(any, "exit reachable", decl.Pos())
		}
		binds := map[string]*Val{}
		rv := s.ghost["$ret0"]
		if rv != nil {
			if sig.Results().Len() == 1 {
				x := *rv.c[0]
				x.T = sig.Results().At(0).Type()
				bindResults(binds, sig, &x)
			} else {
				bindResults(binds, sig, rv)
			}
		}
		ctx := pctx(s)
		ctx.binds = binds
		// "hook $exit before …": ghost code at the return
		ex.exitCtx = ctx
		ex.runHooks(s, "$exit", 1, "before", nil, nil)
		ex.exitCtx = nil
		for i, a := range c.Asserts {
			ex.checkSpec(s, ctx, a, fmt.Sprintf("exit assert %d", i+1), decl.Pos())
		}
		for i, e := range c.Ensures {
			ex.checkSpec(s, ctx, e, fmt.Sprintf("postcondition %d", i+1), decl.Pos())
		}
		if !c.NoFrame && !c.ModAll {
			ex.checkFrame(s, decl.Pos())
		}
	}
	return
}

// checkFunction: the body read no memory, no package variable and nothing
// external, so that its result is a function of its scalar arguments.
func (ex *Exec) checkFunction(sig *types.Signature) {
	for i := 0; i < sig.Params().Len(); i++ {
		if isComposite(sig.Params().At(i).Type()) || isSlice(sig.Params().At(i).Type()) {
			unsup("function contract with a composite parameter")
		}
	}
	if sig.Recv() != nil || sig.Results().Len() != 1 {
		unsup("function contract on a method or several results")
	}
	if len(ex.heap0) != 0 {
		unsup("function contract: the body reads memory")
	}
	for k := range ex.used {
		if u := ex.specs.C[k]; u == nil || !u.Function {
			unsup("function contract: the body calls %s", k)
		}
	}
	for k := range ex.externs {
		if !strings.HasPrefix(k, "math") && !strings.HasPrefix(k, "external") {
			_ = k
		}
	}
}

// functionTerm: the value of a function contract at given arguments.
func functionTerm(key string, rt types.Type, args []*Val) *Val {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, a.leafTerms()...)
	}
	r := App("gofn_"+key, scalarSort(rt), ts...)
	markRange(r, rt)
	return &Val{T: rt, t: r}
}

// paramTerms remembers the scalar inputs for counterexample printing.
func (ex *Exec) paramTerms(fr *Frame) {
	var ks []string
	for k := range fr.entry {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	seen := map[*Term]bool{}
	for _, k := range ks {
		for _, t := range fr.entry[k].leafTerms() {
			if !seen[t] && (t.S.K == SInt || t.S.K == SBV || t.S.K == SBool || t.S.K == SFP) {
				seen[t] = true
				ex.inputs = append(ex.inputs, t)
			}
		}
	}
}

// modTargetsOf: heap locations the contract allows the function to modify.
func (ex *Exec) frameTargets() map[string][]modTarget {
	if ex.frameTg != nil {
		return ex.frameTg
	}
	m := map[string][]modTarget{}
	ctx := &SpecCtx{ex: ex, st: ex.entry, old: ex.entry, params: true}
	ex.noOblig++
	for _, e := range ex.c.Modifies {
		for _, t := range ex.modTargets(ctx, e) {
			m[t.key] = append(m[t.key], t)
		}
	}
	ex.noOblig--
	ex.frameTg = m
	return m
}

// frameFormula: heap H agrees with H0 on every object that existed on entry
// outside the modifiable locations. With skolem set the bound reference is a
// fresh constant (the formula is a goal).
func (ex *Exec) frameFormula(key string, H, H0 *Term, skolem bool) *Term {
	tg := ex.frameTargets()[key]
	for _, t := range tg {
		if t.whole {
			return True
		}
	}
	isArr := strings.HasPrefix(key, "A:")
	var r *Term
	if skolem {
		r = Fresh("frame_r", RefS)
	} else {
		r = BoundVar("r", RefS)
	}
	sel := TF.mk(Term{Op: "select", S: H.S.B, Args: []*Term{H, r}})
	sel0 := TF.mk(Term{Op: "select", S: H.S.B, Args: []*Term{H0, r}})
	if skolem {
		sel, sel0 = Select(H, r), Select(H0, r)
	}
	conds := []*Term{Lt(Root(r), ex.entry.hp)}
	var ranged []modTarget
	for _, t := range tg {
		if t.elemArr != nil {
			in, idx := elemMatch(r, t.path, t.elemArr)
			if t.lo != nil {
				in = And(in, idxLe(t.lo, idx), idxLt(idx, t.hi))
			}
			conds = append(conds, Not(in))
			continue
		}
		conds = append(conds, Neq(r, t.ref))
		if t.lo != nil && isArr {
			ranged = append(ranged, t)
		}
	}
	quantify := func(bs []*Term, body *Term, pat *Term) *Term {
		if skolem {
			return body
		}
		return Forall(bs, body, [][]*Term{{pat}})
	}
	out := []*Term{}
	if isArr && skolem {
		i := Fresh("frame_i", idxSort())
		out = append(out, Imp(And(conds...), Eq(Select(sel, i), Select(sel0, i))))
	} else {
		out = append(out, quantify([]*Term{r}, Imp(And(conds...), Eq(sel, sel0)), sel))
	}
	for _, t := range ranged {
		var i *Term
		if skolem {
			i = Fresh("frame_i", idxSort())
		} else {
			i = BoundVar("i", idxSort())
		}
		cs := []*Term{Lt(Root(t.ref), ex.entry.hp)}
		whole := false
		for _, u := range tg {
			if u.elemArr != nil {
				in, _ := elemMatch(t.ref, u.path, u.elemArr)
				cs = append(cs, Not(in))
				continue
			}
			if u.lo == nil {
				if u.ref == t.ref {
					whole = true
				}
				cs = append(cs, Neq(u.ref, t.ref))
				continue
			}
			cs = append(cs, Not(And(Eq(u.ref, t.ref), idxLe(u.lo, i), idxLt(i, u.hi))))
		}
		if whole {
			continue
		}
		a := TF.mk(Term{Op: "select", S: H.S.B.B, Args: []*Term{Select(H, t.ref), i}})
		b := TF.mk(Term{Op: "select", S: H.S.B.B, Args: []*Term{Select(H0, t.ref), i}})
		if skolem {
			a, b = Select(Select(H, t.ref), i), Select(Select(H0, t.ref), i)
		}
		out = append(out, quantify([]*Term{i}, Imp(And(cs...), Eq(a, b)), a))
	}
	return And(out...)
}

func (ex *Exec) checkFrame(s *State, pos token.Pos) {
	var ks []string
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		H0, ok := ex.heap0[k]
		if !ok {
			continue
		}
		H := s.heap[k]
		if H == H0 {
			continue
		}
		g := ex.frameFormula(k, H, H0, true)
		for _, c := range conj(g) {
			ex.oblige(s, "frame", "modifies only the stated locations of "+k, pos, c, "")
		}
		if g != True && len(conj(g)) == 0 {
			ex.oblige(s, "frame", "modifies only the stated locations of "+k, pos, g, "")
		}
	}
}

// useNames brings axioms and lemmas into scope.
func (ex *Exec) useNames(names []string, ctx *SpecCtx) {
	for _, n := range names {
		found := false
		for _, a := range ex.specs.Axioms {
			if a.Name == n {
				found = true
				c := &SpecCtx{ex: ex, st: ctx.st, noLocals: true, pol: -1, pkg: ex.pkgByName(a.Pkg)}
				ex.prologue = append(ex.prologue, ex.specBoolTop(c, a.E))
				ex.notes["axiom "+n+": "+a.Src] = true
			}
		}
		for _, l := range ex.specs.Lemmas {
			if l.Lemma.Name == n {
				found = true
				ex.lemInst[l.Key] = true
				ex.prologue = append(ex.prologue, ex.lemmaTerm(l, nil, ctx.st))
			}
		}
		if g := ex.specs.C["globinv "+n]; g != nil {
			found = true
			ex.lemInst[g.Key] = true
			c := &SpecCtx{ex: ex, st: ctx.st, noLocals: true, pol: -1, pkg: ex.pkgByName(g.Pkg)}
			ex.prologue = append(ex.prologue, ex.specBoolTop(c, g.Ensures[0].E))
		}
		if f := ex.specs.Fns[n]; f != nil && f.Opaque {
			found = true
			ex.openFns[n] = true
		}
		if !found {
			unsup("use of unknown lemma or axiom %s", n)
		}
	}
}

func (ex *Exec) pkgByName(n string) *Pkg {
	for _, p := range ex.prog.Pkgs {
		if p.Name == n && strings.HasPrefix(p.Path, "github.com/arl/go-detour") {
			return p
		}
	}
	return nil
}

func (ex *Exec) specBoolTop(ctx *SpecCtx, e *SExpr) *Term {
	return ex.specEval(ctx, e).t
}

// lemmaTerm: the universally quantified statement of a lemma. extra, if given,
// receives the bound parameters and returns an additional hypothesis.
func (ex *Exec) lemmaTerm(l *Contract, extra func(map[string]*Val) *Term, st *State) *Term {
	binds := map[string]*Val{}
	var bs []*Term
	var rng []*Term
	c := &SpecCtx{ex: ex, st: st, noLocals: true, pkg: ex.rootPkg()}
	for _, p := range l.Lemma.Params {
		T := ex.specType(c, p.Type)
		var ls []*Term
		for _, lf := range leaves(T) {
			b := BoundVar(p.Name+lf.name, lf.s)
			bs = append(bs, b)
			ls = append(ls, b)
		}
		v := fromLeaves(T, ls)
		v.T = T
		binds[p.Name] = v
		if !bvMode && isIntT(T) && p.Type != "int" {
			w, s, _ := intInfo(T)
			lo, hi := intRange(w, s)
			rng = append(rng, mkop("<=", BoolS, BigC(lo), ls[0]), mkop("<=", BoolS, ls[0], BigC(hi)))
		}
	}
	c.binds = binds
	var qf []*Term
	save := ex.quantFacts
	ex.quantFacts = &qf
	var hyp, con []*Term
	for _, r := range l.Requires {
		hyp = append(hyp, ex.specEval(c.pos(1), r.E).t)
	}
	for _, r := range l.Ensures {
		con = append(con, ex.specEval(c.pos(-1), r.E).t)
	}
	var pats [][]*Term
	for _, tg := range l.Lemma.Trig {
		var ps []*Term
		for _, t := range tg {
			v := ex.specEval(c, t)
			for _, x := range v.leafTerms() {
				if x.hasBV && x.Op != "bound" {
					ps = append(ps, x)
				}
			}
		}
		if len(ps) > 0 {
			pats = append(pats, ps)
		}
	}
	ex.quantFacts = save
	if extra != nil {
		hyp = append(hyp, extra(binds))
	}
	return Forall(bs, Imp(And(append(rng, hyp...)...), And(append(qf, con...)...)), pats)
}

func (c *SpecCtx) pos(p int) *SpecCtx { n := *c; n.pol = p; return &n }

func (ex *Exec) rootPkg() *Pkg {
	if ex.rootFrame != nil {
		return ex.rootFrame.pkg
	}
	return ex.lemPkg
}

func (ex *Exec) verifyLemma(c *Contract) {
	ex.lemPkg = ex.pkgByName(c.Pkg)
	if ex.lemPkg == nil {
		ex.lemPkg = ex.pkgByName("detour")
	}
	ex.frame = &Frame{pkg: ex.lemPkg}
	st := ex.emptyState()
	ex.entry = st.clone()
	binds := map[string]*Val{}
	ctx := &SpecCtx{ex: ex, st: st, old: ex.entry, noLocals: true, binds: binds, pkg: ex.lemPkg}
	ex.useNames(c.Uses, ctx)
	for _, p := range c.Lemma.Params {
		T := ex.specType(ctx, p.Type)
		v := ex.freshVal(p.Name, T, st)
		v.T = T
		binds[p.Name] = v
	}
	if c.Lemma.Induct != "" {
		n := binds[c.Lemma.Induct]
		if n == nil {
			unsup("induct on unknown parameter %s", c.Lemma.Induct)
		}
		ih := ex.lemmaTerm(c, func(b map[string]*Val) *Term {
			return And(Le(IntC(0), b[c.Lemma.Induct].t), Lt(b[c.Lemma.Induct].t, n.t))
		}, st)
		ex.prologue = append(ex.prologue, ih)
	}
	for _, r := range c.Requires {
		ex.assumeSpec(st, ctx, r)
	}
	ex.cover(st, "lemma hypotheses satisfiable", token.NoPos)
	for i, a := range c.Asserts {
		ex.checkSpec(st, ctx, a, fmt.Sprintf("lemma assert %d", i+1), token.NoPos)
	}
	for i, e := range c.Ensures {
		ex.checkSpec(st, ctx, e, fmt.Sprintf("lemma conclusion %d", i+1), token.NoPos)
	}
}

// render turns obligations into solver scripts.
func (res *FuncResult) render(ex *Exec) {
	count := map[string]int{}
	mkName := func(o *Oblig) string {
		n := res.Key + ": " + o.Kind + ": " + o.Name
		if p := ex.posLine(o.Pos); p != "" && o.Kind != "spec" && o.Kind != "frame" && o.Kind != "cover" {
			_ = p
		}
		count[n]++
		if count[n] > 1 {
			n = fmt.Sprintf("%s [%d]", n, count[n])
		}
		return n
	}
	for _, o := range ex.obls {
		j := &Job{Name: mkName(o), Kind: o.Kind, Pos: ex.posStr(o.Pos), Src: o.Src, Func: res.Key, Timeout: ex.c.Timeout}
		as := ex.assertsFor(o)
		as = append(as, Not(o.Goal))
		as = append(as, floatLitFacts(as)...)
		j.Script, j.Inputs = Script(as, ""), inputNames(ex, as)
		if !hasQuant(Not(o.Goal)) {
			var gs []*Term
			for _, a := range as {
				if !hasQuant(a) {
					gs = append(gs, a)
				}
			}
			if len(gs) < len(as) {
				j.Ground = Script(gs, "")
			}
		}
		res.Jobs = append(res.Jobs, j)
	}
	for _, o := range ex.covers {
		j := &Job{Name: mkName(o), Kind: "cover", Pos: ex.posStr(o.Pos), Func: res.Key}
		as := ex.assertsFor(o)
		as = append(as, floatLitFacts(as)...)
		j.Script = Script(as, "")
		res.Jobs = append(res.Jobs, j)
	}
}

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		r = hasQuant(a) || r
	}
	quantMemo[t] = r
	return r
}

func inputNames(ex *Exec, as []*Term) []string {
	used := map[*Term]bool{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "const" {
			used[t] = true
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, a := range as {
		rec(a)
	}
	var out []string
	for _, t := range ex.inputs {
		if used[t] {
			out = append(out, symName(t.Name))
		}
	}
	return out
}

func (ex *Exec) posLine(p token.Pos) string { return ex.posStr(p) }

// assertsFor collects the hypotheses of an obligation.
func (ex *Exec) assertsFor(o *Oblig) []*Term {
	pcs := map[*Term]bool{}
	for _, c := range conj(o.PC) {
		pcs[c] = true
	}
	contradict := func(c *Term) bool {
		if c.Op == "not" {
			return pcs[c.Args[0]]
		}
		for p := range pcs {
			if p.Op == "not" && p.Args[0] == c {
				return true
			}
		}
		return false
	}
	neg := map[*Term]bool{}
	for p := range pcs {
		if p.Op == "not" {
			neg[p.Args[0]] = true
		}
	}
	_ = contradict
	var as []*Term
	seen := map[*Term]bool{}
	add := func(f *Term) {
		if f == True || seen[f] {
			return
		}
		seen[f] = true
		as = append(as, f)
	}
	for _, f := range ex.prologue {
		add(f)
	}
	n := o.NFacts
	if n > len(ex.facts) {
		n = len(ex.facts)
	}
	for _, f := range ex.facts[:n] {
		if f.Op == "=>" {
			var rest []*Term
			drop := false
			for _, c := range conj(f.Args[0]) {
				if pcs[c] {
					continue
				}
				if neg[c] || (c.Op == "not" && pcs[c.Args[0]]) {
					drop = true
					break
				}
				rest = append(rest, c)
			}
			if drop {
				continue
			}
			f = Imp(And(rest...), f.Args[1])
		}
		if f.hasBV && len(freeBound(f)) > 0 {
			panic("fact with a free bound variable: " + f.String())
		}
		add(f)
	}
	for _, c := range conj(o.PC) {
		add(c)
	}
	return as
}

// verifyGlobInv: a statement about package variables that are assigned only by
// their initialisers and init functions.
func (ex *Exec) verifyGlobInv(c *Contract) {
	pk := ex.pkgByName(c.Pkg)
	ex.lemPkg = pk
	globs := map[types.Object]bool{}
	var check func(e *SExpr)
	check = func(e *SExpr) {
		if e == nil {
			return
		}
		if e.Kind == "ident" {
			if v, ok := pk.Types.Scope().Lookup(e.Name).(*types.Var); ok {
				globs[v] = true
			}
			if v, ok := pk.Types.Scope().Lookup(e.Name).(*types.Var); ok && ex.prog.globalMutated(pk, v, true) {
				unsup("package variable %s is assigned outside init", e.Name)
			}
		}
		for _, a := range e.Args {
			check(a)
		}
	}
	check(c.Ensures[0].E)
	var inits []*types.Func
	for _, fo := range ex.prog.Inits[c.Pkg+".init"] {
		mentions := false
		ast.Inspect(ex.prog.Funcs[fo], func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok && globs[pk.Info.Uses[id]] {
				mentions = true
			}
			return true
		})
		if mentions {
			inits = append(inits, fo)
		}
	}
	st := ex.emptyState()
	ex.entry = st.clone()
	ex.frame = &Frame{pkg: pk}
	if len(inits) > 1 {
		unsup("several init functions in package %s assign the same variables", c.Pkg)
	}
	ex.noOblig++
	ex.specBoolTop(&SpecCtx{ex: ex, st: st, noLocals: true, pkg: pk}, c.Ensures[0].E)
	ex.noOblig--
	pos := token.NoPos
	out := st
	if len(inits) == 1 {
		fo := inits[0]
		decl := ex.prog.Funcs[fo]
		sig := fo.Type().(*types.Signature)
		fr := ex.newFrame(fo, decl, nil, pk, sig, token.NoPos)
		ex.frame = fr
		ex.rootFrame = fr
		fr.entry = map[string]*Val{}
		ex.bindFrame(st, sig, nil, nil)
		m := ex.mergeAll(ex.runBody(st, decl.Body, sig))
		if m == nil {
			unsup("init does not return")
		}
		out = m
		pos = decl.Pos()
	}
	ctx := &SpecCtx{ex: ex, st: out, old: ex.entry, noLocals: true, pkg: pk}
	ex.checkSpec(out, ctx, c.Ensures[0], "package invariant established", pos)
}
