package main

// A recogniser of the schema language over its tokens, written from the
// grammar: what ParseFile has to accept and what it has to refuse.

import (
	"strconv"
	"strings"
	"unicode"

	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
)

type rtok struct {
	t   token.Token
	lit string
}

type recog struct {
	l  []rtok
	ok bool
}

func rtoks(src string) []rtok {
	fset := token.NewFileSet()
	file := fset.AddFile("g.hbuf", -1, len(src))
	var s scanner.Scanner
	s.Init(file, []byte(src), func(p token.Position, m string) {}, 0)
	var l []rtok
	for i := 0; i < 3*len(src)+5; i++ {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		l = append(l, rtok{t, lit})
	}
	return l
}

func (r *recog) at(t token.Token) bool { return len(r.l) > 0 && r.l[0].t == t }

func (r *recog) take(t token.Token) string {
	if !r.ok || !r.at(t) {
		r.ok = false
		return ""
	}
	s := r.l[0].lit
	r.l = r.l[1:]
	return s
}

func (r *recog) maybe(t token.Token) bool {
	if r.ok && r.at(t) {
		r.l = r.l[1:]
		return true
	}
	return false
}

// end is the end of an entry: a line end or ';', not needed before ')' and '}'.
func (r *recog) end() {
	if r.at(token.RPAREN) || r.at(token.RBRACE) {
		return
	}
	r.take(token.SEMICOLON)
}

func (r *recog) name() {
	r.take(token.IDENT)
	r.maybe(token.Question)
}

func (r *recog) typ() {
	r.name()
	if r.maybe(token.LBRACK) {
		r.take(token.RBRACK)
		r.maybe(token.Question)
	} else if r.maybe(token.LSS) {
		r.typ()
		r.take(token.GTR)
		r.maybe(token.Question)
	}
}

func (r *recog) id() {
	r.take(token.ASSIGN)
	r.take(token.INT)
}

func (r *recog) tags() {
	for r.ok && r.maybe(token.LBRACK) {
		r.take(token.IDENT)
		r.take(token.COLON)
		for r.ok && !r.at(token.RBRACK) {
			r.take(token.IDENT)
			r.take(token.ASSIGN)
			r.take(token.STRING)
			for r.maybe(token.COMMA) {
				r.take(token.STRING)
			}
			r.maybe(token.SEMICOLON)
		}
		r.take(token.RBRACK)
		r.end()
	}
}

func (r *recog) extends() {
	if !r.at(token.COLON) {
		return
	}
	for r.ok && (r.maybe(token.COLON) || r.maybe(token.COMMA)) {
		r.take(token.IDENT)
		r.id()
	}
}

func (r *recog) body(entry func()) {
	r.take(token.LBRACE)
	for r.ok && !r.at(token.RBRACE) {
		r.tags()
		entry()
		r.end()
	}
	r.take(token.RBRACE)
	r.maybe(token.ASSIGN)
	r.end()
}

func importable(lit string) bool {
	s, _ := strconv.Unquote(lit)
	for _, c := range s {
		if !unicode.IsGraphic(c) || unicode.IsSpace(c) || strings.ContainsRune("!\"#$%&'()*,:;<=>?[\\]^{|}`\uFFFD", c) {
			return false
		}
	}
	return s != ""
}

// grammatical tells whether the tokens of src form a schema file.
func grammatical(src string) bool {
	r := &recog{l: rtoks(src), ok: true}
	for r.ok && r.maybe(token.PACKAGE) {
		r.maybe(token.IDENT)
		r.take(token.ASSIGN)
		r.take(token.STRING)
		r.end()
	}
	for r.ok && r.maybe(token.IMPORT) {
		if !importable(r.take(token.STRING)) {
			r.ok = false
		}
		r.end()
	}
	for r.ok && len(r.l) > 0 {
		r.tags()
		switch {
		case r.maybe(token.DATA):
			r.take(token.IDENT)
			r.extends()
			r.body(func() {
				r.typ()
				r.take(token.IDENT)
				r.id()
				r.maybe(token.STRING)
			})
		case r.maybe(token.SERVER):
			r.take(token.IDENT)
			r.extends()
			r.body(func() {
				r.name()
				r.take(token.IDENT)
				r.take(token.LPAREN)
				r.name()
				r.take(token.IDENT)
				r.take(token.RPAREN)
				r.id()
			})
		case r.maybe(token.ENUM):
			r.take(token.IDENT)
			r.body(func() {
				r.take(token.IDENT)
				r.id()
			})
		default:
			r.ok = false
		}
	}
	return r.ok
}
