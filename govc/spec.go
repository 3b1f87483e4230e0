package main

// The specification language: s-expressions read from /verif/contracts/*.spec.

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Sx struct {
	atom string
	str  bool // quoted string
	list []*Sx
	line int
	file string
}

func (x *Sx) isAtom() bool { return x.list == nil && (x.atom != "" || x.str) }
func (x *Sx) head() string {
	if x.list != nil && len(x.list) > 0 && x.list[0].isAtom() {
		return x.list[0].atom
	}
	return ""
}
func (x *Sx) String() string {
	if x.str {
		return strconv.Quote(x.atom)
	}
	if x.list == nil {
		if x.atom == "" {
			return "()"
		}
		return x.atom
	}
	var s []string
	for _, y := range x.list {
		s = append(s, y.String())
	}
	return "(" + strings.Join(s, " ") + ")"
}

func parseSx(file, src string) []*Sx {
	line := 1
	i := 0
	var rec func() *Sx
	skip := func() {
		for i < len(src) {
			c := src[i]
			if c == '\n' {
				line++
				i++
			} else if c == ' ' || c == '\t' || c == '\r' {
				i++
			} else if c == ';' {
				for i < len(src) && src[i] != '\n' {
					i++
				}
			} else {
				break
			}
		}
	}
	rec = func() *Sx {
		skip()
		if src[i] == '(' {
			x := &Sx{list: []*Sx{}, line: line, file: file}
			i++
			for {
				skip()
				if i >= len(src) {
					panic(toolErr{fmt.Sprintf("%s:%d: unbalanced (", file, x.line)})
				}
				if src[i] == ')' {
					i++
					return x
				}
				x.list = append(x.list, rec())
			}
		}
		if src[i] == '"' {
			j := i + 1
			for src[j] != '"' {
				if src[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(src[i : j+1])
			if err != nil {
				panic(toolErr{fmt.Sprintf("%s:%d: bad string", file, line)})
			}
			i = j + 1
			return &Sx{atom: s, str: true, line: line, file: file}
		}
		j := i
		for j < len(src) && !strings.ContainsRune(" \t\r\n();", rune(src[j])) {
			j++
		}
		if j == i {
			panic(toolErr{fmt.Sprintf("%s:%d: unexpected %q", file, line, src[i])})
		}
		x := &Sx{atom: src[i:j], line: line, file: file}
		i = j
		return x
	}
	var out []*Sx
	for {
		skip()
		if i >= len(src) {
			return out
		}
		out = append(out, rec())
	}
}

type ufDecl struct {
	args []Sort
	res  Sort
}
type rule struct {
	pats []*Sx
	body *Sx
}
type axiom struct {
	name  string
	trigs []*Sx
	body  *Sx
}
type defn struct {
	params []string
	body   *Sx
}

type Clause struct {
	kind  string // requires / ensures
	name  string
	props []string
	body  *Sx
}

type Contract struct {
	name    string
	params  []string
	rets    []*Sx
	heap    *Sx
	okheap  *Sx
	hide    []string
	clauses []Clause
	props   []string // default props of value clauses
	safety  []string // props blamed for safety obligations
	loops   []*Sx
	flags   map[string]bool
	sx      *Sx
	retains []string
	lets    []*Sx
	panics  *Sx
	sig     string
	codec   *Sx // kind of the codec it returns
	out     *Sx   // text of the generated file afterwards
	outs    []*Sx // or one of these
	info    *Sx // message type of the descriptor it returns
}

type Spec struct {
	ufs     map[string]ufDecl
	rules   map[string][]rule
	ondem   map[string][]rule
	axioms  map[string][]axiom // by head of first trigger
	defs    map[string]defn
	consts  map[string]*Term
	fns     map[string]*Contract
	order   []string
	labels  map[string][]string
	groups  map[string][]string
	lemmas  []*lemma
	codecs  map[string]*Sx
	kinds   map[string]*Sx
	axCount int
	depth   int
}

var spec *Spec

func loadSpec(dir string) *Spec {
	sp := &Spec{ufs: map[string]ufDecl{}, rules: map[string][]rule{}, ondem: map[string][]rule{}, axioms: map[string][]axiom{}, defs: map[string]defn{}, consts: map[string]*Term{}, fns: map[string]*Contract{}, labels: map[string][]string{}, groups: map[string][]string{}, codecs: map[string]*Sx{}, kinds: map[string]*Sx{}}
	spec = sp
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	if len(files) == 0 {
		panic(toolErr{"no contracts in " + dir})
	}
	var forms []*Sx
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(toolErr{err.Error()})
		}
		forms = append(forms, parseSx(filepath.Base(f), string(b))...)
	}
	for _, x := range forms {
		sp.form(x)
	}
	reUF = sp.apply
	return sp
}

func symsOf(x *Sx) []string {
	var r []string
	for _, y := range x.list {
		if y.list != nil {
			r = append(r, y.list[0].atom)
		} else {
			r = append(r, y.atom)
		}
	}
	return r
}

func (sp *Spec) props(xs []*Sx) []string {
	var r []string
	seen := map[string]bool{}
	for _, x := range xs {
		ps := []string{x.atom}
		if g, ok := sp.groups[x.atom]; ok {
			ps = g
		}
		for _, p := range ps {
			if !seen[p] {
				seen[p] = true
				r = append(r, p)
			}
		}
	}
	return r
}

func (sp *Spec) form(x *Sx) {
	l := x.list
	switch x.head() {
	case "declare": // (declare NAME (sorts) sort)
		d := ufDecl{res: Sort(l[3].atom)}
		for _, s := range l[2].list {
			d.args = append(d.args, Sort(s.atom))
		}
		sp.ufs[l[1].atom] = d
	case "const": // (const NAME expr)
		sp.consts[l[1].atom] = sp.eval(l[2], nil)
	case "define":
		sp.defs[l[1].list[0].atom] = defn{symsOf(&Sx{list: l[1].list[1:]}), l[2]}
	case "rule":
		n := l[1].list[0].atom
		sp.rules[n] = append(sp.rules[n], rule{l[1].list[1:], l[2]})
	case "ondemand":
		n := l[1].list[0].atom
		sp.ondem[n] = append(sp.ondem[n], rule{l[1].list[1:], l[2]})
	case "axiom": // (axiom name (trigger...) body)
		a := axiom{l[1].atom, l[2].list, l[3]}
		h := a.trigs[0].list[0].atom
		sp.axioms[h] = append(sp.axioms[h], a)
		sp.axCount++
	case "group":
		sp.groups[l[1].atom] = sp.props(l[2:])
	case "label":
		sp.labels[l[1].atom] = sp.props(l[2:])
	case "lemma":
		sp.lemmas = append(sp.lemmas, parseLemma(sp, x))
	case "codec":
		sp.codecs[l[1].atom] = x
	case "kind":
		sp.kinds[l[1].atom] = x
	case "fn":
		c := &Contract{name: l[1].atom, flags: map[string]bool{}, sx: x}
		for _, y := range l[2:] {
			switch y.head() {
			case "params":
				c.params = symsOf(&Sx{list: y.list[1:]})
			case "let":
				c.lets = append(c.lets, y.list[1:]...)
			case "ret":
				c.rets = y.list[1:]
			case "hide": // axioms not needed for this function
				for _, z := range y.list[1:] {
					c.hide = append(c.hide, z.atom)
				}
			case "heap":
				c.heap = y.list[1]
			case "okheap": // memory if the last result is a nil error
				c.okheap = y.list[1]
			case "props":
				c.props = sp.props(y.list[1:])
			case "safety":
				c.safety = sp.props(y.list[1:])
			case "requires":
				c.clauses = append(c.clauses, Clause{"requires", y.list[1].atom, nil, y.list[2]})
			case "ensures": // (ensures name (props) body)
				c.clauses = append(c.clauses, Clause{"ensures", y.list[1].atom, sp.props(y.list[2].list), y.list[3]})
			case "loop":
				c.loops = append(c.loops, y)
			case "flag":
				for _, z := range y.list[1:] {
					c.flags[z.atom] = true
				}
			case "panics": // explicit panics only if
				c.panics = y.list[1]
			case "retains":
				for _, z := range y.list[1:] {
					c.retains = append(c.retains, z.atom)
				}
			case "out": // text of the generated file afterwards; _ : more text
				c.out = y.list[1]
				c.outs = y.list[1:]
			case "codec":
				c.codec = y.list[1]
			case "info":
				c.info = y.list[1]
			case "sig":
				c.sig = y.list[1].atom
			default:
				panic(toolErr{fmt.Sprintf("%s:%d: unknown clause %s", y.file, y.line, y.head())})
			}
		}
		sp.fns[c.name] = c
		sp.order = append(sp.order, c.name)
	default:
		panic(toolErr{fmt.Sprintf("%s:%d: unknown form %s", x.file, x.line, x.head())})
	}
}

type Env map[string]*Term

func (e Env) with(k string, v *Term) Env {
	n := make(Env, len(e)+1)
	for a, b := range e {
		n[a] = b
	}
	n[k] = v
	return n
}

var ctorSort = map[string]Sort{"ENil": SErr, "EPlain": SErr, "EFe": SErr, "KBad": SKind, "KSc": SKind, "KPtr": SKind, "KMsg": SKind, "KSlice": SKind, "KMap": SKind}

func (sp *Spec) eval(x *Sx, env Env) *Term {
	fail := func(f string, a ...interface{}) *Term {
		panic(toolErr{fmt.Sprintf("%s:%d: %s in %s", x.file, x.line, fmt.Sprintf(f, a...), x)})
	}
	if x.list == nil {
		if x.str {
			return StrC(x.atom)
		}
		if t, ok := env[x.atom]; ok {
			return t
		}
		if t, ok := sp.consts[x.atom]; ok {
			return t
		}
		switch x.atom {
		case "true":
			return tTrue
		case "false":
			return tFalse
		case "eps":
			return eps
		case "ENil", "KBad":
			return Ctor(ctorSort[x.atom], x.atom)
		}
		if v, err := strconv.ParseInt(x.atom, 0, 64); err == nil {
			return CI(v)
		}
		if v, err := strconv.ParseUint(x.atom, 0, 64); err == nil {
			return C64(v)
		}
		return fail("unbound symbol %q", x.atom)
	}
	h := x.head()
	if h == "" {
		return fail("bad form")
	}
	a := func(i int) *Term {
		if i+1 >= len(x.list) {
			return fail("missing argument")
		}
		return sp.eval(x.list[i+1], env)
	}
	rest := func(from int) []*Term {
		var r []*Term
		for i := from; i+1 < len(x.list); i++ {
			r = append(r, a(i))
		}
		return r
	}
	switch h {
	case "let":
		e := env
		for _, b := range x.list[1].list {
			e = e.with(b.list[0].atom, sp.eval(b.list[1], e))
		}
		return sp.eval(x.list[2], e)
	case "ite":
		c := a(0)
		if c == tTrue {
			return a(1)
		}
		if c == tFalse {
			return a(2)
		}
		return Ite(c, a(1), a(2))
	case "case":
		c := sp.eval(x.list[2], env)
		l := x.list[1].atom
		if c == tFalse {
			return sp.eval(x.list[4], env)
		}
		if c == tTrue {
			return Lab(l, sp.eval(x.list[3], env))
		}
		return Case(l, c, sp.eval(x.list[3], env), sp.eval(x.list[4], env))
	case "lab":
		return Lab(x.list[1].atom, sp.eval(x.list[2], env))
	case "cond": // (cond (c label e) ... (else label e))
		for i := len(x.list) - 1; i >= 1; i-- {
			_ = i
		}
		var build func(i int) *Term
		build = func(i int) *Term {
			cl := x.list[i].list
			if cl[0].atom == "else" {
				return Lab(cl[1].atom, sp.eval(cl[2], env))
			}
			c := sp.eval(cl[0], env)
			if c == tFalse {
				return build(i + 1)
			}
			if c == tTrue {
				return Lab(cl[1].atom, sp.eval(cl[2], env))
			}
			return Case(cl[1].atom, c, sp.eval(cl[2], env), build(i+1))
		}
		return build(1)
	case "and":
		return And(rest(0)...)
	case "or":
		return Or(rest(0)...)
	case "not":
		return Not(a(0))
	case "=>":
		return Imp(a(0), a(1))
	case "=":
		return Eq(a(0), a(1))
	case "/=":
		return Ne(a(0), a(1))
	case "+":
		r := a(0)
		for _, y := range rest(1) {
			r = Add(r, y)
		}
		return r
	case "-":
		return Sub(a(0), a(1))
	case "*":
		return Mul(a(0), a(1))
	case "<<":
		return Shl(a(0), a(1))
	case ">>":
		return Lshr(a(0), a(1))
	case ">>s":
		return Ashr(a(0), a(1))
	case "&":
		return BvAnd(a(0), a(1))
	case "|":
		return BvOr(a(0), a(1))
	case "^":
		return BvXor(a(0), a(1))
	case "~":
		return BvNot(a(0))
	case "u<":
		return Ult(a(0), a(1))
	case "u<=":
		return Ule(a(0), a(1))
	case "s<":
		return Slt(a(0), a(1))
	case "s<=":
		return Sle(a(0), a(1))
	case "b8":
		return Trunc(a(0), S8)
	case "w32":
		return Trunc(a(0), S32)
	case "zext64":
		return Zext(a(0), S64)
	case "zext32":
		return Zext(a(0), S32)
	case "sext64":
		return Sext(a(0), S64)
	case "cat":
		return Cat(rest(0)...)
	case "unit":
		return Unit(a(0))
	case "encv":
		return Encv(a(0))
	case "le":
		return LE(a(0))
	case "itoa":
		return mk("itoa", SBytes, 0, "", nil, a(0))
	case "blen":
		return Blen(a(0))
	case "starts": // (starts b p): b starts with p
		if hasPrefix(a(0), a(1)) {
			return tTrue
		}
		return Eq(Bsl(a(0), C64(0), Blen(a(1))), a(1))
	case "bsl":
		return Bsl(a(0), a(1), a(2))
	case "bsl*": // raw root slice
		return mk("bsl", SBytes, 0, "", nil, a(0), a(1), a(2))
	case "bidx*":
		return mk("bidx", S8, 0, "", nil, a(0), a(1))
	case "at":
		return AtBytes(a(0), a(1), a(2))
	case "isvdef":
		return octetsOf(a(0), a(1), a(2))
	case "root":
		r, _, _ := extent(a(0))
		return r
	case "lo":
		_, l, _ := extent(a(0))
		return l
	case "hi":
		_, _, l := extent(a(0))
		return l
	case "bn": // octet i of a byte string
		return byteAt(a(0), a(1))
	case "c8":
		if !a(0).isC() {
			panic("c8 of an unknown number")
		}
		return BV(S8, a(0).v)
	case "c32":
		return BV(S32, a(0).v)
	case "vlen":
		return Vlen(a(0))
	case "ld":
		return Select(hpart(a(1), x.list[1].atom), a(2))
	case "st":
		hh := a(1)
		return hset(hh, x.list[1].atom, Store(hpart(hh, x.list[1].atom), a(2), a(3)))
	case "ecls":
		return Ecls(a(0))
	case "is":
		return IsCtor(x.list[1].atom, a(1))
	case "gtc":
		return GTC(x.list[1].atom)
	case "EPlain", "EFe", "KSc", "KPtr", "KMsg", "KSlice", "KMap":
		return Ctor(ctorSort[h], h, rest(0)...)
	}
	if d, ok := sp.defs[h]; ok {
		as := rest(0)
		if len(as) != len(d.params) {
			return fail("wrong number of arguments for %s", h)
		}
		e := Env{}
		for i, p := range d.params {
			e[p] = as[i]
		}
		sp.depth++
		if sp.depth > 200 {
			return fail("definition recursion")
		}
		r := sp.eval(d.body, e)
		sp.depth--
		return r
	}
	if d, ok := sp.ufs[h]; ok {
		as := rest(0)
		if len(as) != len(d.args) {
			return fail("wrong number of arguments for %s", h)
		}
		for i := range as {
			if as[i].s != d.args[i] {
				return fail("argument %d of %s has sort %s, want %s", i, h, as[i].s, d.args[i])
			}
		}
		return sp.apply(h, d.res, as)
	}
	return fail("unknown function %q", h)
}

// Ecls maps an error to its class (0 = nil).
func Ecls(e *Term) *Term {
	switch {
	case isCtor(e) && e.str == "ENil":
		return BV(S8, 0)
	case isCtor(e) && e.str == "EPlain":
		return e.args[0]
	case isCtor(e) && e.str == "EFe":
		return e.args[2]
	case e.op == "ite":
		return Ite(e.args[0], Ecls(e.args[1]), Ecls(e.args[2]))
	case e.op == "lab":
		return Ecls(e.args[0])
	}
	return mk("ecls", S8, 0, "", nil, e)
}
func IsCtor(n string, t *Term) *Term {
	if isCtor(t) {
		return B(t.str == n)
	}
	if t.op == "ite" {
		return Ite(t.args[0], IsCtor(n, t.args[1]), IsCtor(n, t.args[2]))
	}
	if t.op == "lab" {
		return IsCtor(n, t.args[0])
	}
	return mk("is", SBool, 0, n, nil, t)
}
func GTC(n string) *Term { return mk("gtc", SType, 0, n, nil) }

func (sp *Spec) match(p *Sx, t *Term, env Env) bool {
	if p.list == nil {
		if p.str {
			return t == StrC(p.atom)
		}
		if p.atom == "_" {
			return true
		}
		if c, ok := sp.consts[p.atom]; ok {
			return t == c
		}
		if v, err := strconv.ParseInt(p.atom, 0, 64); err == nil {
			return t.isC() && int64(t.v) == v
		}
		switch p.atom {
		case "KBad", "ENil":
			return isCtor(t) && t.str == p.atom
		}
		if o, ok := env[p.atom]; ok {
			return o == t
		}
		env[p.atom] = t
		return true
	}
	h := p.head()
	if _, ok := ctorSort[h]; ok {
		if !isCtor(t) || t.str != h {
			return false
		}
	} else if h == "blen" || h == "encv" || h == "cat" || h == "itoa" || h == "select" || h == "vlen" {
		if t.op != h {
			return false
		}
	} else if h == "bidx*" {
		if t.op != "bidx" {
			return false
		}
	} else if h == "bsl*" {
		if t.op != "bsl" {
			return false
		}
	} else if h == "+1" { // (+1 j): a linear term with a positive constant part
		if t.isC() && t.v >= 1 && t.v < 64 {
			return sp.match(p.list[1], C64(t.v-1), env)
		}
		if t.op == "lin" && t.v >= 1 && t.v < 64 {
			return sp.match(p.list[1], Sub(t, C64(1)), env)
		}
		return false
	} else {
		if t.op != "uf" || t.str != h {
			return false
		}
	}
	if len(p.list)-1 != len(t.args) {
		return false
	}
	for i, q := range p.list[1:] {
		if !sp.match(q, t.args[i], env) {
			return false
		}
	}
	return true
}

func (sp *Spec) apply(name string, s Sort, args []*Term) *Term {
	if name == "ck" {
		return CK(args[0])
	}
	if r := textFn(name, args); r != nil {
		return r
	}
	if rs, ok := sp.rules[name]; ok {
		// labels are transparent in arguments
		for i, a := range args {
			for a.op == "lab" {
				a = a.args[0]
			}
			args[i] = a
		}
		for _, r := range rs {
			env := Env{}
			ok := true
			for i, p := range r.pats {
				if !sp.match(p, args[i], env) {
					ok = false
					break
				}
			}
			if ok {
				return sp.eval(r.body, env)
			}
		}
	}
	return UF(name, s, args...)
}

// unfold applies an on-demand definition once.
func (sp *Spec) unfold(t *Term) (*Term, bool) {
	if t.op != "uf" || hidden[t.str] {
		return nil, false
	}
	for _, r := range sp.ondem[t.str] {
		env := Env{}
		ok := true
		for i, p := range r.pats {
			if !sp.match(p, t.args[i], env) {
				ok = false
				break
			}
		}
		if ok {
			return sp.eval(r.body, env), true
		}
	}
	return nil, false
}

// factsFor instantiates the axioms of the specification (and the built-in
// facts of the byte-string theory) for the terms of a query.
func factsFor(as []*Term) []*Term {
	var facts []*Term
	have := map[int]bool{}
	cur := as
	seenTerm := map[int]bool{}
	byHead := map[string][]*Term{}
	for round := 0; round < 4; round++ {
		var newT []*Term
		subterms(cur, func(t *Term) {
			if seenTerm[t.id] {
				return
			}
			seenTerm[t.id] = true
			newT = append(newT, t)
			byHead[headOf(t)] = append(byHead[headOf(t)], t)
		})
		if len(newT) == 0 {
			break
		}
		isNew := map[int]bool{}
		for _, t := range newT {
			isNew[t.id] = true
		}
		var next []*Term
		add := func(f *Term) {
			if f == tTrue || have[f.id] {
				return
			}
			have[f.id] = true
			facts = append(facts, f)
			next = append(next, f)
		}
		for _, t := range newT {
			builtinFacts(t, add)
		}
		for _, axs := range spec.axioms {
			for _, ax := range axs {
				if hidden[ax.name] {
					continue
				}
				spec.instAxiom(ax, 0, Env{}, byHead, isNew, false, add)
			}
		}
		cur = next
	}
	return facts
}

func headOf(t *Term) string {
	switch t.op {
	case "uf", "ctor":
		return t.str
	case "bidx":
		return "bidx*"
	case "bsl":
		return "bsl*"
	}
	return t.op
}

func (sp *Spec) instAxiom(ax axiom, i int, env Env, byHead map[string][]*Term, isNew map[int]bool, any bool, add func(*Term)) {
	if i == len(ax.trigs) {
		if any {
			add(sp.eval(ax.body, env))
		}
		return
	}
	tr := ax.trigs[i]
	for _, t := range byHead[tr.list[0].atom] {
		e := make(Env, len(env)+4)
		for k, v := range env {
			e[k] = v
		}
		if sp.match(tr, t, e) {
			sp.instAxiom(ax, i+1, e, byHead, isNew, any || isNew[t.id], add)
		}
	}
}

// hidden axioms: those the contract at hand declares irrelevant.
var hidden = map[string]bool{}

var maxLen = C64(1 << 48)

func builtinFacts(t *Term, add func(*Term)) {
	switch t.op {
	case "blen":
		add(Ult(t, maxLen))
	case "select":
		if a := t.args[0]; a.op == "hsel" && a.str == "yn" {
			add(Imp(t, Eq(Blen(Select(hpart(a.args[0], "yc"), t.args[1])), C64(0))))
		}
	case "bsl":
		// nothing: extents are explicit
	case "uf":
		switch {
		case t.str == "mkc", t.str == "mki", t.str == "newaddr", t.str == "newarr", t.str == "newmap", t.str == "pooladdr", t.str == "mapk", t.str == "mapv", t.str == "zeroobj", t.str == "zeroaddr", t.str == "rtype", strings.HasPrefix(t.str, "cg."):
			add(Ne(t, C64(0)))
		case t.str == "telem", t.str == "tkey", t.str == "tftype", t.str == "structof":
			add(Ne(t, nilType))
		case t.str == "tkind":
			add(Or(Ne(t.args[0], nilType), Eq(t, C64(0))))
		}
	case "ecls":
		e := t.args[0]
		add(Iff(Eq(t, BV(S8, 0)), Eq(e, Ctor(SErr, "ENil"))))
	}
}
