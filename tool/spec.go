package main

// Contract files: lexer, expression parser, clause parser.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type SExpr struct {
	Kind string // ident int float bool nil sel index slice unary binary call quant cond deref old string seq
	Name string
	Args []*SExpr
	Vars []SVar
	Trig [][]*SExpr
	Src  string
	Pos  string
}

type SVar struct{ Name, Type string }

type tok struct{ k, s string } // k: id num op str eof

func lexSpec(s string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n':
			i++
		case c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '_' || c == '\\' || c == '$':
			j := i + 1
			for j < len(s) && (s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i + 1
			for j < len(s) && (s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'f' || s[j] >= 'A' && s[j] <= 'F' || s[j] == 'x' || s[j] == '.') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case c == '"':
			j := i + 1
			for j < len(s) && s[j] != '"' {
				j++
			}
			out = append(out, tok{"str", s[i+1 : j]})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "&&", "||", "::", ":=", "==", "!=", "<=", ">=", "<<", ">>", "&^", "[*]"}
			m := ""
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m})
			i += len(m)
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type sparser struct {
	toks []tok
	p    int
	src  string
}

func (p *sparser) peek() tok { return p.toks[p.p] }
func (p *sparser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *sparser) isOp(s string) bool {
	t := p.peek()
	return t.k == "op" && t.s == s
}
func (p *sparser) isId(s string) bool {
	t := p.peek()
	return t.k == "id" && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Sprintf("spec: expected %q, got %q in: %s", s, p.peek().s, p.src))
	}
}

func parseSpec(src string) (e *SExpr, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	toks, err := lexSpec(src)
	if err != nil {
		return nil, err
	}
	p := &sparser{toks: toks, src: src}
	e = p.expr()
	if p.peek().k != "eof" {
		panic(fmt.Sprintf("spec: trailing %q in: %s", p.peek().s, src))
	}
	e.Src = src
	return e, nil
}

func (p *sparser) expr() *SExpr {
	if p.isId("forall") || p.isId("exists") {
		q := p.next().s
		vs := p.vars()
		p.expect("::")
		var trig [][]*SExpr
		for p.isOp("{") {
			p.next()
			var ts []*SExpr
			for {
				ts = append(ts, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			trig = append(trig, ts)
		}
		b := p.expr()
		return &SExpr{Kind: "quant", Name: q, Vars: vs, Trig: trig, Args: []*SExpr{b}}
	}
	if p.isId("let") {
		p.next()
		n := p.next().s
		p.expect(":=")
		v := p.iff()
		p.expect("::")
		b := p.expr()
		return &SExpr{Kind: "let", Name: n, Args: []*SExpr{v, b}}
	}
	c := p.iff()
	if p.accept("?") {
		a := p.expr()
		p.expect(":")
		b := p.expr()
		return &SExpr{Kind: "cond", Args: []*SExpr{c, a, b}}
	}
	return c
}

func (p *sparser) typeStr() string {
	var b strings.Builder
	for {
		t := p.peek()
		if t.k == "id" {
			b.WriteString(t.s)
			p.next()
			if (t.s == "seq" || t.s == "rmap" || t.s == "set") && p.peek().k != "eof" {
				b.WriteString(" ")
				continue
			}
			if p.isOp(".") {
				b.WriteString(".")
				p.next()
				continue
			}
			break
		}
		if t.k == "op" && (t.s == "*" || t.s == "[" || t.s == "]") {
			b.WriteString(t.s)
			p.next()
			continue
		}
		if t.k == "num" {
			b.WriteString(t.s)
			p.next()
			continue
		}
		break
	}
	return b.String()
}

func (p *sparser) vars() []SVar {
	var vs []SVar
	for {
		var names []string
		names = append(names, p.next().s)
		// i, j int
		for false {
			p.next()
			names = append(names, p.next().s)
		}
		ty := p.typeStr()
		if ty == "" && p.isOp(",") {
			// names continue
			for p.accept(",") {
				names = append(names, p.next().s)
				if ty = p.typeStr(); ty != "" {
					break
				}
			}
		}
		for _, n := range names {
			vs = append(vs, SVar{n, ty})
		}
		if !p.accept(",") {
			break
		}
	}
	return vs
}

func (p *sparser) iff() *SExpr {
	a := p.imp()
	for p.accept("<==>") {
		b := p.imp()
		a = &SExpr{Kind: "binary", Name: "<==>", Args: []*SExpr{a, b}}
	}
	return a
}

func (p *sparser) imp() *SExpr {
	a := p.or()
	if p.accept("==>") {
		var b *SExpr
		if p.isId("forall") || p.isId("exists") || p.isId("let") {
			b = p.expr()
		} else {
			b = p.imp()
		}
		return &SExpr{Kind: "binary", Name: "==>", Args: []*SExpr{a, b}}
	}
	return a
}

func (p *sparser) quantOr(f func() *SExpr) *SExpr {
	if p.isId("forall") || p.isId("exists") || p.isId("let") {
		return p.expr()
	}
	return f()
}

func (p *sparser) or() *SExpr {
	a := p.and()
	for p.accept("||") {
		b := p.quantOr(p.and)
		a = &SExpr{Kind: "binary", Name: "||", Args: []*SExpr{a, b}}
	}
	return a
}

func (p *sparser) and() *SExpr {
	a := p.cmp()
	for p.accept("&&") {
		b := p.quantOr(p.cmp)
		a = &SExpr{Kind: "binary", Name: "&&", Args: []*SExpr{a, b}}
	}
	return a
}

var cmpOps = map[string]bool{"==": true, "!=": true, "<": true, "<=": true, ">": true, ">=": true}

func (p *sparser) cmp() *SExpr {
	a := p.add()
	var res *SExpr
	for p.peek().k == "op" && cmpOps[p.peek().s] {
		op := p.next().s
		b := p.add()
		c := &SExpr{Kind: "binary", Name: op, Args: []*SExpr{a, b}}
		if res == nil {
			res = c
		} else {
			res = &SExpr{Kind: "binary", Name: "&&", Args: []*SExpr{res, c}}
		}
		a = b
	}
	if res != nil {
		return res
	}
	return a
}

func (p *sparser) add() *SExpr {
	a := p.mul()
	for p.isOp("+") || p.isOp("-") || p.isOp("|") || p.isOp("^") {
		op := p.next().s
		b := p.mul()
		a = &SExpr{Kind: "binary", Name: op, Args: []*SExpr{a, b}}
	}
	return a
}

func (p *sparser) mul() *SExpr {
	a := p.unary()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") || p.isOp("&") || p.isOp("<<") || p.isOp(">>") || p.isOp("&^") {
		op := p.next().s
		b := p.unary()
		a = &SExpr{Kind: "binary", Name: op, Args: []*SExpr{a, b}}
	}
	return a
}

func (p *sparser) unary() *SExpr {
	if p.isOp("!") || p.isOp("-") || p.isOp("*") || p.isOp("&") || p.isOp("^") {
		op := p.next().s
		a := p.unary()
		if op == "*" {
			return &SExpr{Kind: "deref", Args: []*SExpr{a}}
		}
		return &SExpr{Kind: "unary", Name: op, Args: []*SExpr{a}}
	}
	return p.postfix()
}

func (p *sparser) postfix() *SExpr {
	a := p.primary()
	for {
		switch {
		case p.accept("."):
			n := p.next().s
			a = &SExpr{Kind: "sel", Name: n, Args: []*SExpr{a}}
		case p.accept("[*]"):
			a = &SExpr{Kind: "all", Args: []*SExpr{a}}
		case p.accept("["):
			if p.accept(":") {
				h := p.expr()
				p.expect("]")
				a = &SExpr{Kind: "slice", Args: []*SExpr{a, nil, h}}
				continue
			}
			i := p.expr()
			if p.accept(":") {
				if p.accept("]") {
					a = &SExpr{Kind: "slice", Args: []*SExpr{a, i, nil}}
					continue
				}
				h := p.expr()
				p.expect("]")
				a = &SExpr{Kind: "slice", Args: []*SExpr{a, i, h}}
				continue
			}
			p.expect("]")
			a = &SExpr{Kind: "index", Args: []*SExpr{a, i}}
		case p.isOp("(") && (a.Kind == "ident" || a.Kind == "sel"):
			p.next()
			var args []*SExpr
			if a.Kind == "ident" && a.Name == "seq" {
				// seq(i T : expr)
				v := p.next().s
				p.expect(":")
				e := p.expr()
				p.expect(")")
				a = &SExpr{Kind: "seq", Name: v, Args: []*SExpr{e}}
				continue
			}
			for !p.isOp(")") {
				args = append(args, p.expr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			if a.Kind == "sel" && a.Args[0].Kind == "ident" && (a.Args[0].Name == "math32" || a.Args[0].Name == "math") {
				a = &SExpr{Kind: "call", Name: a.Args[0].Name + "." + a.Name, Args: args}
				continue
			}
			if a.Kind == "sel" {
				args = append([]*SExpr{a.Args[0]}, args...)
			}
			a = &SExpr{Kind: "call", Name: a.Name, Args: args}
		default:
			return a
		}
	}
}

func (p *sparser) primary() *SExpr {
	t := p.next()
	switch t.k {
	case "id":
		switch t.s {
		case "true", "false":
			return &SExpr{Kind: "bool", Name: t.s}
		case "nil":
			return &SExpr{Kind: "nil"}
		}
		return &SExpr{Kind: "ident", Name: t.s}
	case "num":
		if strings.Contains(t.s, ".") && !strings.HasPrefix(t.s, "0x") {
			return &SExpr{Kind: "float", Name: t.s}
		}
		return &SExpr{Kind: "int", Name: t.s}
	case "str":
		return &SExpr{Kind: "string", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr()
			p.expect(")")
			return e
		}
	}
	panic(fmt.Sprintf("spec: unexpected %q in: %s", t.s, p.src))
}

// ---- contracts ----

type Clause struct {
	E    *SExpr
	Src  string
	Name string
	Line string
}

type GhostStep struct {
	Name string
	E    *SExpr
}

type LoopC struct {
	Invs       []Clause
	Steps      []GhostStep
	Init       []GhostStep // ghost assignments at loop entry
	Decreases  *SExpr
	Asserts    []Clause // checked and assumed at start of body
	EndAsserts []Clause // checked and assumed at end of body
	Unroll     int
	NoAuto     bool
	Keep       bool // never unrolled, even when its trip count is constant
	used       bool
}

type GhostVar struct {
	Name, Type string
	Init       *SExpr
}

type HookC struct {
	Callee string
	N      int
	When   string // before|after
	Kind   string // assert|ghost
	Name   string
	E      *SExpr
	Src    string
}

type Contract struct {
	Key       string
	File      string
	Line      int
	Mode      string // int|bv
	Floats    string // fp|real|uf
	Overflow  string // check|wrap
	Requires  []Clause
	Ensures   []Clause
	Asserts   []Clause // at exit, before ensures
	Modifies  []*SExpr
	ModAll    bool
	Ghosts    []GhostVar
	GParams   []SVar
	Lets      []GhostStep
	Loops     map[int]*LoopC
	Hooks     []*HookC
	Trusted   bool
	Pure      bool
	Function  bool // the result depends on the (scalar) arguments only
	NoFrame   bool
	Paths     bool
	NoPanic   bool // if false, panic obligations are still generated; "maypanic" disables
	MayPanic  bool
	Inline    map[string]bool // callee keys to inline although they have a contract
	Props     []string
	Timeout   int
	Note      string
	Lemma     *LemmaC
	Uses      []string
	Decreases *SExpr
	Bounded   string
	NoTerm    bool
	NoVariant []string
	Variant   string // calls go to the contract KEY#Variant where there is one
	Pkg       string
	GlobInv   bool
}

type LemmaC struct {
	Name   string
	Params []SVar
	Induct string
	Auto   bool
	Trig   [][]*SExpr
}

type SpecFn struct {
	Name   string
	Params []SVar
	Ret    string
	Body   *SExpr // nil: uninterpreted
	Rec    bool
	Pkg    string
	Opaque bool
}

type Axiom struct {
	Name string
	Vars []SVar
	E    *SExpr
	Src  string
	Pkg  string
}

type Specs struct {
	C      map[string]*Contract
	Order  []string
	Fns    map[string]*SpecFn
	Axioms []*Axiom
	Lemmas []*Contract
	Files  []string
}

var clauseKW = map[string]bool{"func": true, "pred": true, "fn": true, "ufn": true, "recfn": true, "opfn": true, "oppred": true, "axiom": true, "requires": true, "ensures": true, "modifies": true, "mode": true, "floats": true, "ghost": true, "gparam": true, "loop": true, "invariant": true, "step": true, "init": true, "decreases": true, "assert": true, "endassert": true, "endfreeze": true, "unroll": true, "hook": true, "trusted": true, "pure": true, "property": true, "noframe": true, "paths": true, "timeout": true, "note": true, "let": true, "overflow": true, "inline": true, "maypanic": true, "lemma": true, "induct": true, "auto": true, "trigger": true, "use": true, "noauto": true, "keep": true, "package": true, "end": true, "bounded": true, "exitassert": true, "noterm": true, "variant": true, "globinv": true, "function": true}

func loadSpecs(dir string) (*Specs, error) {
	sp := &Specs{C: map[string]*Contract{}, Fns: map[string]*SpecFn{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return nil, err
		}
		sp.Files = append(sp.Files, f)
	}
	return sp, nil
}

func (sp *Specs) loadFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type cl struct {
		kw, rest string
		line     int
	}
	var cls []cl
	for n, ln := range strings.Split(string(data), "\n") {
		t := strings.TrimSpace(ln)
		if !strings.HasPrefix(t, "//@") {
			continue
		}
		t = strings.TrimSpace(t[3:])
		if i := strings.Index(t, "//"); i >= 0 {
			t = strings.TrimSpace(t[:i])
		}
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexAny(t, " \t"); i >= 0 {
			w = t[:i]
		}
		isKW := clauseKW[w]
		if isKW && (w == "let" && strings.Contains(t, "::")) {
			isKW = false
		}
		if isKW {
			cls = append(cls, cl{w, strings.TrimSpace(t[len(w):]), n + 1})
		} else {
			if len(cls) == 0 {
				return fmt.Errorf("%s:%d: stray contract text %q", file, n+1, t)
			}
			cls[len(cls)-1].rest += " " + t
		}
	}
	base := filepath.Base(file)
	var cur *Contract
	var loop *LoopC
	pkg := ""
	for _, c := range cls {
		loc := fmt.Sprintf("%s:%d", base, c.line)
		fail := func(err error) error { return fmt.Errorf("%s: %s: %v", loc, c.kw, err) }
		pe := func(s string) (*SExpr, error) { return parseSpec(s) }
		switch c.kw {
		case "package":
			pkg = c.rest
		case "end":
			loop = nil
		case "func":
			key := c.rest
			cur = &Contract{Key: key, Pkg: pkg, File: base, Line: c.line, Loops: map[int]*LoopC{}, Mode: "int", Floats: "uf", Overflow: "check", Inline: map[string]bool{}}
			loop = nil
			if i := strings.IndexByte(key, '#'); i >= 0 {
				cur.Variant = key[i+1:]
			}
			if _, dup := sp.C[key]; dup {
				return fail(fmt.Errorf("duplicate contract %s", key))
			}
			sp.C[key] = cur
			sp.Order = append(sp.Order, key)
		case "lemma":
			i := strings.Index(c.rest, "(")
			name := strings.TrimSpace(c.rest[:i])
			toks, _ := lexSpec(c.rest[i+1:])
			p := &sparser{toks: toks, src: c.rest}
			var vs []SVar
			if !p.isOp(")") {
				vs = p.vars()
			}
			cur = &Contract{Key: "lemma " + name, Pkg: pkg, File: base, Line: c.line, Loops: map[int]*LoopC{}, Mode: "int", Floats: "uf", Overflow: "check", Inline: map[string]bool{}, Lemma: &LemmaC{Name: name, Params: vs}}
			loop = nil
			sp.C[cur.Key] = cur
			sp.Order = append(sp.Order, cur.Key)
			sp.Lemmas = append(sp.Lemmas, cur)
		case "globinv":
			// globinv name: expr  (package invariant established by init)
			i := strings.Index(c.rest, ":")
			name := strings.TrimSpace(c.rest[:i])
			e, err := pe(c.rest[i+1:])
			if err != nil {
				return fail(err)
			}
			cur = &Contract{Key: "globinv " + name, Pkg: pkg, File: base, Line: c.line, Loops: map[int]*LoopC{}, Mode: "int", Floats: "uf", Overflow: "check", Inline: map[string]bool{}, GlobInv: true}
			cur.Ensures = []Clause{{E: e, Src: strings.TrimSpace(c.rest[i+1:]), Line: loc}}
			loop = nil
			sp.C[cur.Key] = cur
			sp.Order = append(sp.Order, cur.Key)
		case "induct":
			cur.Lemma.Induct = c.rest
		case "auto":
			cur.Lemma.Auto = true
		case "trigger":
			e, err := pe("trig(" + c.rest + ")")
			if err != nil {
				return fail(err)
			}
			cur.Lemma.Trig = append(cur.Lemma.Trig, e.Args)
		case "pred", "fn", "ufn", "recfn", "opfn", "oppred":
			i := strings.Index(c.rest, "(")
			name := strings.TrimSpace(c.rest[:i])
			toks, _ := lexSpec(c.rest[i+1:])
			p := &sparser{toks: toks, src: c.rest}
			var vs []SVar
			if !p.isOp(")") {
				vs = p.vars()
			}
			p.expect(")")
			f := &SpecFn{Name: name, Params: vs, Pkg: pkg, Rec: c.kw == "recfn", Opaque: strings.HasPrefix(c.kw, "op")}
			if c.kw == "pred" || c.kw == "oppred" {
				f.Ret = "bool"
			} else {
				f.Ret = p.typeStr()
			}
			if c.kw != "ufn" {
				p.expect("=")
				f.Body = p.expr()
				if p.peek().k != "eof" {
					return fail(fmt.Errorf("trailing %q", p.peek().s))
				}
			}
			if sp.Fns[name] != nil {
				return fail(fmt.Errorf("%s defined twice", name))
			}
			sp.Fns[name] = f
			cur = nil
		case "axiom":
			// axiom name: expr
			i := strings.Index(c.rest, ":")
			name := strings.TrimSpace(c.rest[:i])
			e, err := pe(c.rest[i+1:])
			if err != nil {
				return fail(err)
			}
			sp.Axioms = append(sp.Axioms, &Axiom{Name: name, E: e, Src: strings.TrimSpace(c.rest[i+1:]), Pkg: pkg})
		case "requires", "ensures", "exitassert":
			e, err := pe(c.rest)
			if err != nil {
				return fail(err)
			}
			x := Clause{E: e, Src: c.rest, Line: loc}
			switch c.kw {
			case "requires":
				cur.Requires = append(cur.Requires, x)
			case "ensures":
				cur.Ensures = append(cur.Ensures, x)
			default:
				cur.Asserts = append(cur.Asserts, x)
			}
		case "modifies":
			if c.rest == "nothing" {
				break
			}
			if c.rest == "*" {
				cur.ModAll = true
				break
			}
			toks, _ := lexSpec(c.rest)
			p := &sparser{toks: toks, src: c.rest}
			for {
				cur.Modifies = append(cur.Modifies, p.expr())
				if !p.accept(",") {
					break
				}
			}
		case "mode":
			cur.Mode = c.rest
		case "floats":
			cur.Floats = c.rest
		case "overflow":
			cur.Overflow = c.rest
		case "ghost":
			// ghost name type = init
			i := strings.Index(c.rest, "=")
			h := c.rest
			var init *SExpr
			if i >= 0 {
				h = strings.TrimSpace(c.rest[:i])
				var err error
				if init, err = pe(c.rest[i+1:]); err != nil {
					return fail(err)
				}
			}
			fs := strings.SplitN(h, " ", 2)
			cur.Ghosts = append(cur.Ghosts, GhostVar{fs[0], strings.TrimSpace(fs[1]), init})
		case "gparam":
			fs := strings.SplitN(c.rest, " ", 2)
			cur.GParams = append(cur.GParams, SVar{fs[0], strings.TrimSpace(fs[1])})
		case "let":
			i := strings.Index(c.rest, "=")
			e, err := pe(c.rest[i+1:])
			if err != nil {
				return fail(err)
			}
			cur.Lets = append(cur.Lets, GhostStep{strings.TrimSpace(c.rest[:i]), e})
		case "loop":
			n, err := strconv.Atoi(strings.Fields(c.rest)[0])
			if err != nil {
				return fail(err)
			}
			loop = &LoopC{}
			cur.Loops[n] = loop
		case "invariant":
			e, err := pe(c.rest)
			if err != nil {
				return fail(err)
			}
			loop.Invs = append(loop.Invs, Clause{E: e, Src: c.rest, Line: loc})
		case "endfreeze":
			loop.EndAsserts = append(loop.EndAsserts, Clause{Src: c.rest, Line: loc})
		case "assert", "endassert":
			e, err := pe(c.rest)
			if err != nil {
				return fail(err)
			}
			if c.kw == "assert" {
				loop.Asserts = append(loop.Asserts, Clause{E: e, Src: c.rest, Line: loc})
			} else {
				loop.EndAsserts = append(loop.EndAsserts, Clause{E: e, Src: c.rest, Line: loc})
			}
		case "step", "init":
			i := strings.Index(c.rest, "=")
			e, err := pe(c.rest[i+1:])
			if err != nil {
				return fail(err)
			}
			g := GhostStep{strings.TrimSpace(c.rest[:i]), e}
			if c.kw == "step" {
				loop.Steps = append(loop.Steps, g)
			} else {
				loop.Init = append(loop.Init, g)
			}
		case "decreases":
			e, err := pe(c.rest)
			if err != nil {
				return fail(err)
			}
			if loop != nil {
				loop.Decreases = e
			} else {
				cur.Decreases = e
			}
		case "unroll":
			loop.Unroll, _ = strconv.Atoi(c.rest)
		case "keep":
			loop.Keep = true
		case "noauto":
			loop.NoAuto = true
		case "hook":
			// hook callee#n before|after assert expr | ghost x = expr
			fs := strings.SplitN(c.rest, " ", 4)
			h := &HookC{When: fs[1], Kind: fs[2]}
			h.Callee = fs[0]
			if i := strings.Index(fs[0], "#"); i >= 0 {
				h.Callee = fs[0][:i]
				h.N, _ = strconv.Atoi(fs[0][i+1:])
			}
			body := fs[3]
			h.Src = body
			if h.Kind == "ghost" {
				i := strings.Index(body, "=")
				h.Name = strings.TrimSpace(body[:i])
				body = body[i+1:]
			}
			if h.Kind == "freeze" {
				// names of ghosts and heap fields whose value gets a name
				cur.Hooks = append(cur.Hooks, h)
				break
			}
			e, err := pe(body)
			if err != nil {
				return fail(err)
			}
			h.E = e
			cur.Hooks = append(cur.Hooks, h)
		case "trusted":
			cur.Trusted = true
			cur.Note = c.rest
		case "pure":
			cur.Pure = true
		case "function":
			cur.Function, cur.Pure = true, true
		case "noframe":
			cur.NoFrame = true
		case "noterm":
			cur.NoTerm = true
		case "variant":
			for i, w := range strings.Fields(strings.ReplaceAll(c.rest, ",", " ")) {
				if i == 0 {
					cur.Variant = w
				} else {
					// NAME -KEY…: calls to KEY go to the contract without suffix
					cur.NoVariant = append(cur.NoVariant, strings.TrimPrefix(w, "-"))
				}
			}
		case "paths":
			cur.Paths = true
		case "maypanic":
			cur.MayPanic = true
		case "property":
			cur.Props = append(cur.Props, strings.Fields(strings.ReplaceAll(c.rest, ",", " "))...)
		case "timeout":
			cur.Timeout, _ = strconv.Atoi(c.rest)
		case "note":
			cur.Note = c.rest
		case "inline":
			for _, k := range strings.Fields(strings.ReplaceAll(c.rest, ",", " ")) {
				cur.Inline[k] = true
			}
		case "use":
			cur.Uses = append(cur.Uses, strings.Fields(strings.ReplaceAll(c.rest, ",", " "))...)
		case "bounded":
			cur.Bounded = c.rest
		}
	}
	return nil
}
