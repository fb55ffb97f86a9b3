package main

import (
	"fmt"
	"math/rand"
	"strings"
	"unicode/utf8"

	"hbuf/pkg/build"
)

func init() {
	oracles["C09"] = oracle{search: namesSearch, bounded: namesSearch}
}

var nameParts = []string{"a", "B", "_", "9", "é", "É", "Z", "ß"}

// wantHump: every part between underscores with its first letter in upper case.
func wantHump(s string) string {
	out, first := "", true
	for _, c := range s {
		switch {
		case c == '_':
			first = true
			continue
		case first:
			out += strings.ToUpper(string(c))
		default:
			out += string(c)
		}
		first = false
	}
	return out
}

func lowFirst(s string) string {
	c, n := utf8.DecodeRuneInString(s)
	if n == 0 {
		return s
	}
	return strings.ToLower(string(c)) + s[n:]
}

// wantUnder: an underscore before every upper-case ASCII letter that is neither
// first nor after an odd number of underscores; one leading underscore dropped.
func wantUnder(s string, conv func(string) string) string {
	out, run := "", 0
	for i, c := range s {
		if 'A' <= c && c <= 'Z' && i > 0 && run%2 == 0 {
			out += "_"
		}
		if c == '_' {
			run++
		} else {
			run = 0
		}
		if c != '_' || i > 0 {
			out += conv(string(c))
		}
	}
	return out
}

func nameCase(s string) {
	try(fmt.Sprintf("the name %q", s), func() {
		in := fmt.Sprintf("the name %q", s)
		eq := func(what, got, want string) {
			if got != want {
				fail(in, fmt.Sprintf("%s gives %q, want %q", what, got, want))
			}
		}
		eq("StringToHumpName", build.StringToHumpName(s), wantHump(s))
		eq("StringToFirstLower", build.StringToFirstLower(s), lowFirst(wantHump(s)))
		eq("StringToUnderlineName", build.StringToUnderlineName(s), wantUnder(s, strings.ToLower))
		eq("StringToAllUpper", build.StringToAllUpper(s), wantUnder(s, strings.ToUpper))
	})
	for n := 0; n < 12; n += 3 {
		try(fmt.Sprintf("StringFillRight(%q, '.', %d)", s, n), func() {
			want := s
			for len(want) < n {
				want += "."
			}
			if got := build.StringFillRight(s, '.', n); got != want {
				fail(fmt.Sprintf("StringFillRight(%q, '.', %d)", s, n), fmt.Sprintf("gives %q, want %q", got, want))
			}
		})
	}
}

// namesSearch tries every name of up to five of the letters above, then random ones.
func namesSearch(r *rand.Rand) {
	var all func(s string, n int)
	all = func(s string, n int) {
		nameCase(s)
		if n == 0 || !left() {
			return
		}
		for _, p := range nameParts {
			all(s+p, n-1)
		}
	}
	all("", 5)
	more := append([]string{"__", "Ab", "id", "ID", "y2K", "ü", "世", "Σ"}, nameParts...)
	for left() {
		s := ""
		for n := r.Intn(14); n >= 0; n-- {
			s += pick(r, more)
		}
		nameCase(s)
	}
}
