package main

// The contract language: one clause per line (continuation lines are any lines
// that do not start with a clause keyword).

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

type SExpr struct {
	Kind string // id int str bool nil field index slice call un bin quant old cond
	Name string
	Args []*SExpr
	Vars []SVar
	Pats []*SExpr
	Src  string
}
type SVar struct{ Name, Type string }

type Clause struct {
	Expr *SExpr
	Src  string
	Tags []string // property ids; empty = always
	Meta []SVar   // invariant metavariables
	File string
	Line int
	Firm bool // written "invariant firm": worth more effort before it is dropped
}

func (c *Clause) active(prop string) bool {
	if len(c.Tags) == 0 || prop == "" {
		return true
	}
	for _, t := range c.Tags {
		if t == prop {
			return true
		}
	}
	return false
}

type Contract struct {
	Key      string
	Params   []string
	Results  []string
	Requires []*Clause
	Ensures  []*Clause
	Modifies []*Clause
	Invs     []*Clause
	Decr     []*Clause
	Reads    []*Clause // locations a pure function depends on
	Sets     []*Clause // ghost variables set at the exits
	Uses     []*Clause // lemma-ish assumptions proved elsewhere (hints instantiated at exit)
	Pure     bool
	Extern   bool
	MayPanic bool
	NoTerm   bool // termination not claimed
	Iface    bool
	Inline   bool
	Trusted  bool
	Split    int
	Opts     map[string]string
	File     string
	Line     int
	Props    []string
}

type Macro struct {
	Name   string
	Params []SVar
	Body   *SExpr
	Rec    bool
	Opaque bool // expanded only where a contract says 'opt unfold NAME'
	Ret    string
	Src    string
	keys   []string // recursive: heap keys read
	keysOK bool
}

type UFun struct {
	Name string
	Args []string
	Ret  string
}
type Axiom struct {
	Name string
	Expr *SExpr
	Src  string
	Prop string
}
type Lemma struct {
	Name     string
	Params   []SVar
	Requires []*Clause
	Ensures  []*Clause
	Decr     []*Clause
	Uses     []*Clause
	Tags     []string
	File     string
	Line     int
}

type Specs struct {
	Modsets   map[string]string
	Contracts map[string]*Contract
	Order     []string
	Macros    map[string]*Macro
	UFuns     map[string]*UFun
	Axioms    []*Axiom
	Lemmas    map[string]*Lemma
	LOrder    []string
}

func newSpecs() *Specs {
	return &Specs{Contracts: map[string]*Contract{}, Macros: map[string]*Macro{}, UFuns: map[string]*UFun{}, Lemmas: map[string]*Lemma{}}
}

// ---- lexer

type tok struct {
	k string // id num str op eof
	s string
}

func lexSpec(s string) ([]tok, error) {
	var out []tok
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case unicode.IsLetter(rune(c)) || c == '_' || c == '$':
			j := i + 1
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_' || s[j] == '$') {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
		case c >= '0' && c <= '9':
			j := i
			for j < len(s) && (s[j] >= '0' && s[j] <= '9') {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
		case c == '"':
			var b strings.Builder
			j := i + 1
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						b.WriteByte('\n')
					case 't':
						b.WriteByte('\t')
					case 'r':
						b.WriteByte('\r')
					default:
						b.WriteByte(s[j])
					}
				} else {
					b.WriteByte(s[j])
				}
				j++
			}
			if j >= len(s) {
				return nil, fmt.Errorf("unterminated string in %q", s)
			}
			out = append(out, tok{"str", b.String()})
			i = j + 1
		case c == '\'':
			j := i + 1
			var v int
			if s[j] == '\\' {
				j++
				switch s[j] {
				case 'n':
					v = '\n'
				case 't':
					v = '\t'
				case 'r':
					v = '\r'
				default:
					v = int(s[j])
				}
				j++
			} else {
				r := []rune(s[j:])[0]
				v = int(r)
				j += len(string(r))
			}
			if j >= len(s) || s[j] != '\'' {
				return nil, fmt.Errorf("bad char literal in %q", s)
			}
			out = append(out, tok{"num", fmt.Sprint(v)})
			i = j + 1
		default:
			ops := []string{"<==>", "==>", "...", "&&", "||", "==", "!=", "<=", ">=", "::", ":="}
			f := ""
			for _, o := range ops {
				if strings.HasPrefix(s[i:], o) {
					f = o
					break
				}
			}
			if f == "" {
				f = string(c)
			}
			out = append(out, tok{"op", f})
			i += len(f)
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type sparser struct {
	t []tok
	p int
}

func (p *sparser) peek() tok { return p.t[p.p] }
func (p *sparser) next() tok { t := p.t[p.p]; p.p++; return t }
func (p *sparser) is(s string) bool {
	t := p.peek()
	return (t.k == "op" || t.k == "id") && t.s == s
}
func (p *sparser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *sparser) expect(s string) {
	if !p.accept(s) {
		panic(fmt.Errorf("expected %q, found %q", s, p.peek().s))
	}
}

func parseExpr(s string) (e *SExpr, err error) {
	ts, err := lexSpec(s)
	if err != nil {
		return nil, err
	}
	p := &sparser{t: ts}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v in %q", r, s)
		}
	}()
	e = p.expr(0)
	if p.peek().k != "eof" {
		return nil, fmt.Errorf("trailing %q in %q", p.peek().s, s)
	}
	e.Src = s
	return e, nil
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7}

func (p *sparser) expr(min int) *SExpr {
	l := p.unary()
	for {
		t := p.peek()
		if t.k != "op" && !(t.k == "id" && t.s == "in") {
			return l
		}
		pr, ok := prec[t.s]
		if !ok || pr < min {
			return l
		}
		p.next()
		var r *SExpr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		// chained comparisons a <= b < c
		if pr == 5 && l.Kind == "bin" && l.Name == "chain" {
			last := l.Args[1]
			l = &SExpr{Kind: "bin", Name: "chain", Args: []*SExpr{{Kind: "bin", Name: "&&", Args: []*SExpr{l.Args[0], {Kind: "bin", Name: t.s, Args: []*SExpr{last, r}}}}, r}}
			continue
		}
		if pr == 5 && (t.s == "<=" || t.s == "<" || t.s == ">=" || t.s == ">") {
			l = &SExpr{Kind: "bin", Name: "chain", Args: []*SExpr{{Kind: "bin", Name: t.s, Args: []*SExpr{l, r}}, r}}
			continue
		}
		l = &SExpr{Kind: "bin", Name: t.s, Args: []*SExpr{l, r}}
	}
}

func (p *sparser) unary() *SExpr {
	t := p.peek()
	if t.k == "op" && (t.s == "!" || t.s == "-") {
		p.next()
		return &SExpr{Kind: "un", Name: t.s, Args: []*SExpr{p.unary()}}
	}
	if t.k == "id" && (t.s == "forall" || t.s == "exists") {
		p.next()
		var vs []SVar
		for {
			n := p.next()
			every := p.accept("every") // also what is not allocated
			ty := p.typ()
			if every {
				ty = "every " + ty
			}
			vs = append(vs, SVar{n.s, ty})
			if p.accept(",") {
				continue
			}
			break
		}
		p.expect("::")
		var pats []*SExpr
		if p.accept("{") {
			for {
				pats = append(pats, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
		}
		body := p.expr(0)
		return &SExpr{Kind: "quant", Name: t.s, Vars: vs, Args: []*SExpr{body}, Pats: pats}
	}
	return p.postfix(p.primary())
}

// typ parses a type as source text.
func (p *sparser) typ() string {
	t := p.next()
	switch {
	case t.s == "*":
		return "*" + p.typ()
	case t.s == "[":
		p.expect("]")
		return "[]" + p.typ()
	case t.k == "id" && t.s == "map":
		p.expect("[")
		k := p.typ()
		p.expect("]")
		return "map[" + k + "]" + p.typ()
	case t.k == "id" && (t.s == "struct" || t.s == "interface"):
		p.expect("{")
		p.expect("}")
		return t.s + "{}"
	case t.k == "id":
		if p.is(".") {
			p.next()
			n := p.next()
			return t.s + "." + n.s
		}
		return t.s
	}
	panic(fmt.Errorf("bad type at %q", t.s))
}

func (p *sparser) primary() *SExpr {
	t := p.next()
	switch t.k {
	case "num":
		return &SExpr{Kind: "int", Name: t.s}
	case "str":
		return &SExpr{Kind: "str", Name: t.s}
	case "id":
		switch t.s {
		case "true", "false":
			return &SExpr{Kind: "bool", Name: t.s}
		case "nil":
			return &SExpr{Kind: "nil"}
		case "old", "entry":
			p.expect("(")
			e := p.expr(0)
			p.expect(")")
			return &SExpr{Kind: t.s, Args: []*SExpr{e}}
		case "if":
			c := p.expr(0)
			p.expect("then")
			a := p.expr(0)
			p.expect("else")
			b := p.expr(0)
			return &SExpr{Kind: "cond", Args: []*SExpr{c, a, b}}
		case "let":
			n := p.next().s
			p.expect(":=")
			v := p.expr(6)
			p.expect("in")
			b := p.expr(0)
			return &SExpr{Kind: "let", Name: n, Args: []*SExpr{v, b}}
		case "is", "as", "zero", "typetag":
			p.expect("(")
			var args []*SExpr
			if t.s == "is" || t.s == "as" {
				args = append(args, p.expr(0))
				p.expect(",")
			}
			ty := p.typ()
			p.expect(")")
			return &SExpr{Kind: t.s, Name: ty, Args: args}
		}
		return &SExpr{Kind: "id", Name: t.s}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.expect(")")
			if e.Kind == "bin" && e.Name == "chain" {
				e = e.Args[0]
			}
			return e
		}
	}
	panic(fmt.Errorf("unexpected %q", t.s))
}

func (p *sparser) postfix(e *SExpr) *SExpr {
	for {
		switch {
		case p.is("."):
			p.next()
			n := p.next()
			e = &SExpr{Kind: "field", Name: n.s, Args: []*SExpr{e}}
		case p.is("("):
			p.next()
			var args []*SExpr
			for !p.is(")") {
				args = append(args, p.expr(0))
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			name := ""
			switch e.Kind {
			case "id":
				name = e.Name
			case "field": // pkg.Func or method-like spec function
				if e.Args[0].Kind == "id" {
					name = e.Args[0].Name + "." + e.Name
				}
			}
			if name == "" {
				panic(fmt.Errorf("bad call"))
			}
			e = &SExpr{Kind: "call", Name: name, Args: args}
		case p.is("["):
			p.next()
			var a, b *SExpr
			if !p.is(":") {
				a = p.expr(0)
			}
			if p.accept(":") {
				if !p.is("]") {
					b = p.expr(0)
				}
				p.expect("]")
				e = &SExpr{Kind: "slice", Args: []*SExpr{e, a, b}}
				continue
			}
			p.expect("]")
			e = &SExpr{Kind: "index", Args: []*SExpr{e, a}}
		default:
			return e
		}
	}
}

// ---- files

var clauseKw = map[string]bool{"func": true, "extern": true, "iface": true, "requires": true, "ensures": true, "modifies": true, "invariant": true, "decreases": true, "pure": true, "maypanic": true, "noterm": true, "inline": true, "trusted": true, "split": true, "pred": true, "rec": true, "opaque": true, "ufun": true, "axiom": true, "lemma": true, "use": true, "opt": true, "verify": true, "modset": true, "reads": true, "set": true}

func (sp *Specs) loadDir(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	if len(fs) == 0 {
		return fmt.Errorf("no contracts in %s", dir)
	}
	for _, f := range fs {
		if err := sp.load(f); err != nil {
			return err
		}
	}
	return nil
}

func (sp *Specs) load(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	type raw struct {
		s    string
		line int
	}
	var items []raw
	for n, l := range strings.Split(string(data), "\n") {
		s := strings.TrimSpace(l)
		if s == "" || strings.HasPrefix(s, "#") {
			continue
		}
		w := s
		if i := strings.IndexFunc(s, func(r rune) bool { return !unicode.IsLetter(r) }); i >= 0 {
			w = s[:i]
		}
		if clauseKw[w] {
			items = append(items, raw{s, n + 1})
		} else if len(items) > 0 {
			items[len(items)-1].s += "\n" + s
		} else {
			return fmt.Errorf("%s:%d: unexpected %q", file, n+1, s)
		}
	}
	var cur *Contract
	var lem *Lemma
	var defTags []string
	for _, it := range items {
		i := strings.IndexFunc(it.s, func(r rune) bool { return !unicode.IsLetter(r) })
		kw, rest := it.s, ""
		if i >= 0 {
			kw, rest = it.s[:i], strings.TrimSpace(it.s[i:])
		}
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v", file, it.line, e) }
		mkClause := func() (*Clause, error) {
			c := &Clause{File: filepath.Base(file), Line: it.line, Tags: defTags}
			r := rest
			for strings.HasPrefix(r, "@") {
				j := strings.IndexAny(r, " \n\t")
				c.Tags = append(append([]string{}, c.Tags...), strings.Split(r[1:j], ",")...)
				r = strings.TrimSpace(r[j:])
			}
			if kw == "invariant" && strings.HasPrefix(r, "firm ") { // worth a longer attempt
				c.Firm = true
				r = strings.TrimSpace(r[5:])
			}
			if kw == "invariant" || kw == "decreases" {
				if strings.HasPrefix(r, "[$") {
					j := strings.Index(r, "]:")
					if j < 0 {
						return nil, fail(fmt.Errorf("metavariables need ']:'"))
					}
					for _, m := range strings.Split(r[1:j], ",") {
						m = strings.TrimSpace(m)
						k := strings.IndexByte(m, ' ')
						c.Meta = append(c.Meta, SVar{m[:k], strings.TrimSpace(m[k:])})
					}
					r = strings.TrimSpace(r[j+2:])
				}
			}
			c.Src = strings.ReplaceAll(r, "\n", " ")
			e, err := parseExpr(r)
			if err != nil {
				return nil, fail(err)
			}
			c.Expr = e
			return c, nil
		}
		switch kw {
		case "func", "extern", "iface":
			lem = nil
			c := &Contract{Extern: kw == "extern", Iface: kw == "iface", Opts: map[string]string{}, File: filepath.Base(file), Line: it.line, Split: -1}
			// key(params) (results)
			j := strings.LastIndex(rest, ")")
			if j < 0 {
				return fail(fmt.Errorf("no parameter list"))
			}
			first := matchOpen(rest)
			c.Key = strings.TrimSpace(rest[:first])
			k := strings.Index(rest[first:], ")") + first
			c.Params = splitNames(rest[first+1 : k])
			if k < j {
				o := strings.Index(rest[k:], "(") + k
				c.Results = splitNames(rest[o+1 : j])
			}
			if _, dup := sp.Contracts[c.Key]; dup {
				return fail(fmt.Errorf("duplicate contract for %s", c.Key))
			}
			sp.Contracts[c.Key] = c
			sp.Order = append(sp.Order, c.Key)
			cur = c
		case "requires", "ensures", "modifies", "invariant", "decreases", "use", "reads", "set":
			if kw == "modifies" || kw == "reads" {
				all, err := sp.expandMods(rest)
				if err != nil {
					return fail(err)
				}
				for _, m := range splitTop(all) {
					rest = m
					c, err := mkClause()
					if err != nil {
						return err
					}
					if kw == "reads" {
						cur.Reads = append(cur.Reads, c)
						cur.Pure = true
					} else {
						cur.Modifies = append(cur.Modifies, c)
					}
				}
				break
			}
			c, err := mkClause()
			if err != nil {
				return err
			}
			if lem != nil {
				switch kw {
				case "requires":
					lem.Requires = append(lem.Requires, c)
				case "ensures":
					lem.Ensures = append(lem.Ensures, c)
				case "decreases":
					lem.Decr = append(lem.Decr, c)
				case "use":
					lem.Uses = append(lem.Uses, c)
				}
				break
			}
			if cur == nil {
				return fail(fmt.Errorf("clause outside a contract"))
			}
			switch kw {
			case "requires":
				cur.Requires = append(cur.Requires, c)
			case "ensures":
				cur.Ensures = append(cur.Ensures, c)
			case "invariant":
				cur.Invs = append(cur.Invs, c)
			case "decreases":
				cur.Decr = append(cur.Decr, c)
			case "use":
				cur.Uses = append(cur.Uses, c)
			case "set":
				if ghostSet(c.Expr) == "" {
					return fail(fmt.Errorf("set needs the form forall x every T :: ghost[x] <==> expression without that ghost"))
				}
				cur.Sets = append(cur.Sets, c)
			}
		case "pure":
			cur.Pure = true
		case "maypanic":
			cur.MayPanic = true
		case "noterm":
			cur.NoTerm = true
		case "inline":
			cur.Inline = true
		case "trusted":
			cur.Trusted = true
		case "split":
			fmt.Sscan(rest, &cur.Split)
		case "opt":
			kv := strings.SplitN(rest, " ", 2)
			if len(kv) == 1 {
				kv = append(kv, "true")
			}
			cur.Opts[kv[0]] = kv[1]
		case "verify": // verify C01 C02 : this contract belongs to these properties
			cur.Props = append(cur.Props, strings.Fields(rest)...)
		case "pred", "rec", "opaque":
			o := strings.Index(rest, "(")
			c := strings.Index(rest, ")")
			e := strings.Index(rest[c:], "=") + c
			m := &Macro{Name: strings.TrimSpace(rest[:o]), Rec: kw != "pred", Opaque: kw == "opaque", Ret: strings.TrimSpace(rest[c+1 : e]), Src: rest}
			for _, a := range splitNames2(rest[o+1 : c]) {
				m.Params = append(m.Params, a)
			}
			b, err := parseExpr(strings.TrimSpace(rest[e+1:]))
			if err != nil {
				return fail(err)
			}
			m.Body = b
			if _, dup := sp.Macros[m.Name]; dup {
				return fail(fmt.Errorf("duplicate pred %s", m.Name))
			}
			sp.Macros[m.Name] = m
		case "modset": // modset NAME = $.f, elems($.g): a named list of locations
			e := strings.Index(rest, "=")
			if sp.Modsets == nil {
				sp.Modsets = map[string]string{}
			}
			sp.Modsets[strings.TrimSpace(rest[:e])] = strings.TrimSpace(rest[e+1:])
		case "ufun":
			o := strings.Index(rest, "(")
			c := strings.LastIndex(rest, ")")
			u := &UFun{Name: strings.TrimSpace(rest[:o]), Ret: strings.TrimSpace(rest[c+1:])}
			for _, a := range strings.Split(rest[o+1:c], ",") {
				if strings.TrimSpace(a) != "" {
					u.Args = append(u.Args, strings.TrimSpace(a))
				}
			}
			sp.UFuns[u.Name] = u
		case "axiom":
			j := strings.Index(rest, ":")
			e, err := parseExpr(rest[j+1:])
			if err != nil {
				return fail(err)
			}
			sp.Axioms = append(sp.Axioms, &Axiom{Name: strings.TrimSpace(rest[:j]), Expr: e, Src: strings.TrimSpace(strings.ReplaceAll(rest[j+1:], "\n", " "))})
		case "lemma":
			o := strings.Index(rest, "(")
			c := strings.LastIndex(rest, ")")
			lem = &Lemma{Name: strings.TrimSpace(rest[:o]), Params: splitNames2(rest[o+1 : c]), File: filepath.Base(file), Line: it.line}
			if t := strings.TrimSpace(rest[c+1:]); strings.HasPrefix(t, "@") {
				lem.Tags = strings.Split(t[1:], ",")
			}
			sp.Lemmas[lem.Name] = lem
			sp.LOrder = append(sp.LOrder, lem.Name)
			cur = nil
		}
	}
	return nil
}

// expandMods replaces @NAME(x) by the locations of the modset NAME.
func (sp *Specs) expandMods(s string) (string, error) {
	var out []string
	for _, m := range splitTop(s) {
		if !strings.HasPrefix(m, "@") {
			out = append(out, m)
			continue
		}
		o := strings.IndexByte(m, '(')
		b, ok := sp.Modsets[m[1:o]]
		if !ok {
			return "", fmt.Errorf("no modset %s", m[1:o])
		}
		t, err := sp.expandMods(strings.ReplaceAll(b, "$", m[o+1:len(m)-1]))
		if err != nil {
			return "", err
		}
		out = append(out, t)
	}
	return strings.Join(out, ", "), nil
}

// matchOpen finds the '(' that opens the parameter list in keys such as
// scanner.(*Scanner).next(s).
func matchOpen(s string) int {
	for i := 0; i < len(s); i++ {
		if s[i] == '(' && !(i > 0 && s[i-1] == '.') {
			return i
		}
	}
	return -1
}

func splitTop(s string) []string {
	var out []string
	d, st := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[st:]); t != "" {
		out = append(out, t)
	}
	return out
}

func splitNames(s string) []string {
	var out []string
	for _, f := range splitTop(s) {
		out = append(out, strings.Fields(f)[0])
	}
	return out
}
func splitNames2(s string) []SVar {
	var out []SVar
	for _, f := range splitTop(s) {
		p := strings.SplitN(f, " ", 2)
		v := SVar{Name: p[0]}
		if len(p) > 1 {
			v.Type = strings.TrimSpace(p[1])
		}
		out = append(out, v)
	}
	return out
}

// ghostSet returns the ghost variable a clause "forall x every T :: g[x] <==> e" defines:
// such a definition can always be met, so assuming it adds nothing about anything else.
func ghostSet(e *SExpr) string {
	if e.Kind != "quant" || e.Name != "forall" || len(e.Vars) != 1 || len(e.Args) != 1 {
		return ""
	}
	b := e.Args[0]
	if b.Kind != "bin" || b.Name != "<==>" && b.Name != "==" || len(b.Args) != 2 {
		return ""
	}
	l := b.Args[0]
	if l.Kind != "index" || len(l.Args) != 2 || l.Args[0].Kind != "id" || l.Args[1].Kind != "id" || l.Args[1].Name != e.Vars[0].Name {
		return ""
	}
	g := l.Args[0].Name
	var has func(x *SExpr) bool
	has = func(x *SExpr) bool {
		if x == nil {
			return false
		}
		if x.Kind == "call" || x.Kind == "id" && x.Name == g {
			return x.Kind == "id" || x.Name != "old" && x.Name != "len"
		}
		for _, a := range x.Args {
			if has(a) {
				return true
			}
		}
		return false
	}
	if has(b.Args[1]) {
		return ""
	}
	return g
}
