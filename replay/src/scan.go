package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"
	"unicode"
	"unicode/utf8"

	"hbuf/pkg/scanner"
	"hbuf/pkg/token"
)

func init() {
	oracles["C01"] = oracle{search: func(r *rand.Rand) { scanSearch(r, 1) }}
	oracles["C02"] = oracle{search: func(r *rand.Rand) { scanSearch(r, 2) }}
	oracles["C03"] = oracle{search: func(r *rand.Rand) { scanSearch(r, 3); }}
}

var frags = []string{"a", "_x1", "data", "enum", "server", "import", "package", "dat", "data1", "Data", "x", "é", "日本", "0", "007", "12", "0x1F", "0b101", "0o17", "1_000", "0x", "08", "1__2", "_", "0b12", "\"s\"", "\"a\\nb\"", "\"\\x41\"", "\"\\u00e9\"", "\"\\q\"", "\"unterminated", "`raw`", "`raw\nline`", "`raw\r\nx`", "`open", "// c", "// c\r", "/* c */", "/* a\nb */", "/* open", "/*\r*/", "//", "/**/", "/*/", "/", ",", ":", ";", "(", ")", "[", "]", "{", "}", "<", ">", "=", "?", ".", ".5", "'", "'a'", "@", "#", "\x00", "\xff", "\uFEFF", " ", "\t", "\n", "\r", "\r\n", "\n\n", "a?", "string[]", "*", "/ /", "/*x*/\n", "//line x:3\n", "//line a.go:10:5\n", "/*line z:7*/", "//line :0\n", "//line x:-1\n", "//line\n", "//line", "//line ", "/*line*/", "/*line */", "/*line", "//lin\n"}

func soup(r *rand.Rand) []byte {
	var b bytes.Buffer
	n := 1 + r.Intn(10)
	for i := 0; i < n; i++ {
		b.WriteString(frags[r.Intn(len(frags))])
		if r.Intn(3) == 0 {
			b.WriteString([]string{" ", "\n", "\t", "\r\n"}[r.Intn(4)])
		}
	}
	return b.Bytes()
}

func quoteSrc(src []byte, mode scanner.Mode) string {
	return fmt.Sprintf("source %q, scan mode %d", src, mode)
}

var ops = map[byte]token.Token{',': token.COMMA, ':': token.COLON, ';': token.SEMICOLON, '(': token.LPAREN, ')': token.RPAREN, '[': token.LBRACK, ']': token.RBRACK, '{': token.LBRACE, '}': token.RBRACE, '<': token.LSS, '>': token.GTR, '=': token.ASSIGN, '?': token.Question}
var kws = map[string]token.Token{"import": token.IMPORT, "package": token.PACKAGE, "data": token.DATA, "server": token.SERVER, "enum": token.ENUM}

func scanSearch(r *rand.Rand, level int) {
	// every single fragment and pair first, then random soup
	var list [][]byte
	for _, a := range frags {
		list = append(list, []byte(a))
		for _, b := range frags {
			list = append(list, []byte(a+b))
		}
	}
	for i := 0; left(); i++ {
		var src []byte
		if i < len(list) {
			src = list[i]
		} else {
			src = soup(r)
		}
		for _, m := range []scanner.Mode{scanner.ScanComments, 0} {
			scanOne(src, m, level)
		}
	}
}

func ws(b byte) bool { return b == ' ' || b == '\t' || b == '\n' || b == '\r' }

func scanOne(src []byte, mode scanner.Mode, level int) {
	in := quoteSrc(src, mode)
	lineDir := bytes.Contains(src, []byte("line "))
	try(in, func() {
		fset := token.NewFileSet()
		pad := fset.AddFile("pad", -1, 3)
		file := fset.AddFile("f.hbuf", -1, len(src))
		errs := 0
		type ep struct {
			pos token.Position
			msg string
		}
		var reported []ep
		var s scanner.Scanner
		s.Init(file, src, func(p token.Position, m string) { errs++; reported = append(reported, ep{p, m}) }, mode)
		prevEnd := 0
		if bytes.HasPrefix(src, []byte("\uFEFF")) {
			prevEnd = 3
		}
		type tk struct {
			off int
			tok token.Token
			lit string
		}
		var toks []tk
		wantSemi := false
		for n := 0; ; n++ {
			if n > 3*len(src)+5 {
				fail(in, "the scanner makes no progress: more tokens than the source can hold")
			}
			e0 := s.ErrorCount
			pos, tok, lit := s.Scan()
			off := int(pos) - file.Base()
			if off < 0 || off > len(src) {
				fail(in, fmt.Sprintf("token %s at offset %d, outside the source", tok, off))
			}
			if off < prevEnd && !(tok == token.SEMICOLON && lit == "\n") {
				fail(in, fmt.Sprintf("token %s %q at offset %d overlaps the token before it, which ended at %d", tok, lit, off, prevEnd))
			}
			if tok == token.EOF {
				if off != len(src) {
					fail(in, fmt.Sprintf("end of file reported at offset %d of %d", off, len(src)))
				}
				break
			}
			toks = append(toks, tk{off, tok, lit})
			if tok == token.ILLEGAL && off < len(src) && src[off] != '/' && src[off] < 0x80 && s.ErrorCount == e0 {
				fail(in, fmt.Sprintf("illegal token at offset %d without an error", off))
			}
			auto := tok == token.SEMICOLON && lit == "\n"
			if level == 2 {
				n := 0
				for _, e := range reported[min(e0, len(reported)):] {
					if !strings.HasPrefix(e.msg, "illegal") && e.pos.Offset >= off {
						n++
					}
				}
				checkTok(in, src, off, tok, lit, mode, n)
				if mode != 0 && !auto && !wantSemi {
					for k := prevEnd; k < off; k++ {
						if !ws(src[k]) {
							fail(in, fmt.Sprintf("source byte %q at offset %d belongs to no token", src[k], k))
						}
					}
				}
				if auto && !wantSemi {
					fail(in, fmt.Sprintf("a semicolon was inserted at offset %d after a token that does not end a line", off))
				}
			}
			switch tok {
			case token.COMMENT:
			case token.ILLEGAL:
			case token.IDENT, token.INT, token.STRING, token.RPAREN, token.RBRACK, token.RBRACE, token.GTR:
				wantSemi = true
			default:
				wantSemi = false
			}
			if auto {
				wantSemi = false
			}
			if !auto {
				end := tokEnd(src, off, tok, lit)
				if end > prevEnd {
					prevEnd = end
				}
			}
			_ = pad
		}
		if s.ErrorCount != errs {
			fail(in, "number of errors reported and number counted differ")
		}
		if level == 3 && !lineDir {
			chk := func(off int, p token.Position, what string) {
				line := 1 + bytes.Count(src[:off], []byte("\n"))
				col := off - (bytes.LastIndexByte(src[:off], '\n') + 1) + 1
				if p.Filename != "f.hbuf" || p.Line != line || p.Column != col || p.Offset != off {
					fail(in, fmt.Sprintf("%s at offset %d is mapped to %s:%d:%d (offset %d), it is at f.hbuf:%d:%d", what, off, p.Filename, p.Line, p.Column, p.Offset, line, col))
				}
			}
			if n := bytes.Count(src, []byte("\n")); file.LineCount() != n+1 && len(src) > 0 && src[len(src)-1] != '\n' || file.LineCount() != n && len(src) > 0 && src[len(src)-1] == '\n' {
				fail(in, fmt.Sprintf("%d lines recorded for a source with %d newlines", file.LineCount(), n))
			}
			for o := 0; o < len(src); o++ {
				chk(o, fset.Position(token.Pos(file.Base()+o)), "the byte")
			}
			for _, e := range reported {
				if e.pos.Offset <= len(src) && e.pos.Offset < len(src) {
					chk(e.pos.Offset, e.pos, "the error "+e.msg)
				}
			}
			if f := fset.File(token.Pos(pad.Base())); f != pad {
				fail(in, "a position of the first file is attributed to another file")
			}
			if f := fset.File(token.Pos(file.Base() + len(src))); f != file {
				fail(in, "the end position of the second file is not attributed to it")
			}
			// many files
			fs2 := token.NewFileSet()
			var fl []*token.File
			for i := 0; i < 6; i++ {
				fl = append(fl, fs2.AddFile(fmt.Sprint("f", i), -1, (len(src)*i)%7))
			}
			for i, f := range fl {
				for o := 0; o <= f.Size(); o++ {
					if g := fs2.File(token.Pos(f.Base() + o)); g != f {
						fail(in, fmt.Sprintf("offset %d of file %d of 6 is attributed to another file", o, i))
					}
					if g := fs2.File(f.Pos(o)); f.Offset(f.Pos(o)) != o || g != f {
						fail(in, "offsets and positions do not correspond")
					}
				}
			}
			// the lines set from the content agree with those the scanner records
			f3 := fs2.AddFile("c", -1, len(src))
			f3.SetLinesForContent(src)
			for o := 0; o < len(src); o++ {
				line := 1 + bytes.Count(src[:o], []byte("\n"))
				if got := f3.Line(f3.Pos(o)); got != line {
					fail(in, fmt.Sprintf("line of offset %d computed from the content is %d, expected %d", o, got, line))
				}
			}
		}
	})
}

func tokEnd(src []byte, off int, tok token.Token, lit string) int {
	switch tok {
	case token.IDENT, token.INT, token.IMPORT, token.PACKAGE, token.DATA, token.SERVER, token.ENUM:
		return off + len(lit)
	case token.STRING, token.COMMENT:
		if bytes.Contains(src[off:], []byte("\r")) {
			// carriage returns are dropped from some literals: look at the source
			rest := src[off:]
			i := -1
			switch {
			case rest[0] == '`':
				i = bytes.IndexByte(rest[1:], '`') + 2
			case bytes.HasPrefix(rest, []byte("//")):
				i = bytes.IndexByte(rest, '\n')
			case bytes.HasPrefix(rest, []byte("/*")):
				i = bytes.Index(rest[2:], []byte("*/")) + 4
			default:
				return off + len(lit)
			}
			if i < 2 {
				i = len(rest)
			}
			return off + i
		}
		return off + len(lit)
	case token.ILLEGAL:
		_, w := utf8.DecodeRune(src[off:])
		return off + max(w, 1)
	}
	return off + 1
}

func letter(c rune) bool { return c == '_' || unicode.IsLetter(c) }

// checkTok compares one token with an independent reading of the source.
func checkTok(in string, src []byte, off int, tok token.Token, lit string, mode scanner.Mode, errs int) {
	if tok == token.SEMICOLON && lit == "\n" {
		return
	}
	if off >= len(src) {
		fail(in, fmt.Sprintf("token %s %q at the end of the source", tok, lit))
	}
	rest := src[off:]
	c, _ := utf8.DecodeRune(rest)
	bad := func(what string) {
		fail(in, fmt.Sprintf("at offset %d the scanner returns %s %q: %s", off, tok, lit, what))
	}
	switch {
	case letter(c):
		n := 0
		for n < len(rest) {
			d, w := utf8.DecodeRune(rest[n:])
			if !letter(d) && !unicode.IsDigit(d) {
				break
			}
			n += w
		}
		if lit != string(rest[:n]) {
			bad(fmt.Sprintf("the identifier is %q", rest[:n]))
		}
		want, kw := kws[lit]
		if !kw {
			want = token.IDENT
		}
		if tok != want {
			bad("expected " + want.String())
		}
	case c >= '0' && c <= '9':
		if tok != token.INT {
			bad("expected a number")
		}
		if !strings.HasPrefix(string(rest), lit) || lit == "" {
			bad("the literal is not the source text")
		}
		n := numLen(rest)
		if len(lit) != n {
			bad(fmt.Sprintf("the literal is %q", rest[:n]))
		}
		if good := goodNum(lit); good != (errs == 0) {
			bad(fmt.Sprintf("well formed: %v, errors reported: %d", good, errs))
		}
	case c == '"':
		if tok != token.STRING {
			bad("expected a string")
		}
		n := 1
		esc := false
		closed := false
		for n < len(rest) && rest[n] != '\n' {
			b := rest[n]
			n++
			if esc {
				esc = false
				continue
			}
			if b == '\\' {
				esc = true
			} else if b == '"' {
				closed = true
				break
			}
		}
		if closed && errs == 0 && lit != string(rest[:n]) {
			bad(fmt.Sprintf("the string is %q", rest[:n]))
		}
		if !closed && errs == 0 {
			bad("an unterminated string is accepted")
		}
	case c == '`':
		if tok != token.STRING {
			bad("expected a raw string")
		}
		i := bytes.IndexByte(rest[1:], '`')
		if i < 0 {
			if errs == 0 {
				bad("an unterminated raw string is accepted")
			}
		} else if w := strings.ReplaceAll(string(rest[:i+2]), "\r", ""); lit != w {
			bad(fmt.Sprintf("the raw string is %q", w))
		}
	case bytes.HasPrefix(rest, []byte("//")) || bytes.HasPrefix(rest, []byte("/*")):
		if tok != token.COMMENT || mode == 0 {
			bad("expected a comment, and only when comments are asked for")
		}
		if rest[1] == '/' {
			n := bytes.IndexByte(rest, '\n')
			if n < 0 {
				n = len(rest)
			}
			w := string(rest[:n])
			if strings.Count(w, "\r") == 0 && lit != w {
				bad(fmt.Sprintf("the comment is %q", w))
			}
			if w2 := strings.TrimSuffix(w, "\r"); strings.Count(w2, "\r") == 0 && lit != w2 {
				bad(fmt.Sprintf("the comment is %q", w2))
			}
		} else if i := bytes.Index(rest[2:], []byte("*/")); i >= 0 {
			if w := string(rest[:i+4]); !strings.Contains(w, "\r") && lit != w {
				bad(fmt.Sprintf("the comment is %q", w))
			}
		} else if errs == 0 {
			bad("an unterminated comment is accepted")
		}
	default:
		if t, ok := ops[rest[0]]; ok {
			if tok != t {
				bad("expected " + t.String())
			}
			return
		}
		if tok != token.ILLEGAL {
			bad("expected an illegal token")
		}
	}
}

// numLen is the length of the number at the start of s.
func numLen(s []byte) int {
	low := func(b byte) byte { return b | 0x20 }
	i := 0
	hex := false
	if s[0] == '0' && len(s) > 1 && (low(s[1]) == 'x' || low(s[1]) == 'o' || low(s[1]) == 'b') {
		hex = low(s[1]) == 'x'
		i = 2
	}
	for i < len(s) {
		b := s[i]
		if b == '_' || b >= '0' && b <= '9' || hex && low(b) >= 'a' && low(b) <= 'f' {
			i++
			continue
		}
		break
	}
	return i
}

func goodNum(l string) bool {
	base := 10
	d := l
	pre := false
	if len(l) > 1 && l[0] == '0' {
		switch l[1] | 0x20 {
		case 'x':
			base, d, pre = 16, l[2:], true
		case 'o':
			base, d, pre = 8, l[2:], true
		case 'b':
			base, d, pre = 2, l[2:], true
		default:
			base = 8
		}
	}
	if strings.Trim(d, "_") == "" {
		return false
	}
	prevDigit := pre
	for i := 0; i < len(d); i++ {
		b := d[i]
		if b == '_' {
			if !prevDigit || i+1 == len(d) {
				return false
			}
			prevDigit = false
			continue
		}
		v := 99
		switch {
		case b >= '0' && b <= '9':
			v = int(b - '0')
		default:
			v = int(b|0x20-'a') + 10
		}
		if v >= base {
			return false
		}
		prevDigit = true
	}
	return true
}
