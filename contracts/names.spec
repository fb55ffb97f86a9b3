# ---- pkg/build: conversion of names

ufun Upper(string) string
ufun Lower(string) string
# the underline name of a text: StringToUnderlineName is a function of its argument (assumed; what it
# computes is checked bounded, its totality is proved)
ufun Under(string) string
ufun AllUpper(string) string
ufun RuneLen(string) int
extern strings.ToUpper(s) (r)
ensures r == Upper(s)

extern strings.ToLower(s) (r)
ensures r == Lower(s)

# the parts of a text between separators
ufun Parts(string, string) int
ufun Part(string, string, int) string
extern strings.Split(s, sep) (r)
ensures len(sep) > 0 ==> len(r) == Parts(s, sep) && len(r) >= 1
ensures len(sep) > 0 ==> forall k int :: 0 <= k < len(r) ==> r[k] == Part(s, sep, k)

# first letter (a rune) converted, the rest as it is
pred UpFirst(s string) string = Upper(s[0:RuneLen(s)]) + s[RuneLen(s):len(s)]
pred LowFirst(s string) string = Lower(s[0:RuneLen(s)]) + s[RuneLen(s):len(s)]
rec Humps(s string, n int) string = if n <= 0 then "" else Humps(s, n - 1) + UpFirst(Part(s, "_", n - 1))
opaque Hump(s string) string = if len(s) == 0 then s else Humps(s, Parts(s, "_"))
opaque LowHump(s string) string = if len(s) == 0 then s else LowFirst(Humps(s, Parts(s, "_")))

func build.StringToHumpName(val) (r)
verify C09
opt unfold Hump
ensures r == Hump(val)
invariant [$r phi string, $n count]: $r == Humps(val, $n)

func build.StringToFirstLower(val) (r)
verify C09
opt unfold LowHump
ensures r == LowHump(val)
invariant [$r phi string, $n count]: $r == Humps(val, $n)

# ---- text builders
ufun $strings.Builder.text() string
extern strings.(*Builder).WriteString(b, s) (n, err)
requires b != nil
modifies b.$text
ensures b.$text == old(b.$text) + s

extern strings.(*Builder).WriteByte(b, c) (err)
requires b != nil
modifies b.$text
ensures b.$text == old(b.$text) + Chr(c)

extern strings.(*Builder).String(b) (r)
requires b != nil
ensures r == b.$text

extern strings.(*Builder).Len(b) (n)
requires b != nil
ensures n == len(b.$text)

ufun Chr(int) string
rec Times(c int, n int) string = if n <= 0 then "" else Times(c, n - 1) + Chr(c)

func build.StringFillRight(text, fill, length) (r)
verify C09
ensures r == text + Times(fill, length - len(text))
invariant [$b *strings.Builder, $n count]: $b.$text == text + Times(fill, $n)
invariant [$n count]: $n <= length - len(text) || $n == 0
invariant [$b *strings.Builder, $n intval]: $b.$text == text + Times(fill, length - len(text) - $n)
invariant [$n intval]: $n >= 0 || $n == length - len(text)

# ---- cutting at upper-case letters: no input makes it fail (what comes out is compared with a model, bounded)
extern regexp.MustCompile(p) (r)
ensures r != nil

extern regexp.(*Regexp).FindAllStringSubmatchIndex(re, s, n) (m)
requires re != nil
ensures forall k int :: 0 <= k < len(m) ==> len(m[k]) >= 2 && 0 <= m[k][0] && m[k][0] <= m[k][1] && m[k][1] <= len(s)
ensures forall k int :: 0 <= k < len(m) ==> forall j int :: 0 <= j < k ==> m[j][1] <= m[k][0]

extern strings.Index(s, sub) (r)
ensures 0 - 1 <= r
ensures r >= 0 ==> r + len(sub) <= len(s)
ensures r == 0 <==> len(sub) <= len(s) && prefix(s, sub)

func build.StringToUnderlineName(val) (r)
verify C09
ensures @C10 @C13 @C14 r == Under(val)
invariant [$m [][]int, $i intval, $n count]: 0 <= $i && $i <= len(val) && ($n < len($m) ==> $i <= $m[$n][0])
invariant [$m [][]int, $i intval, $n count]: $i == 0 || exists k int :: 0 <= k < $n && $m[k][0] == $i

func build.StringToAllUpper(val) (r)
verify C09
ensures @C12 r == AllUpper(val)
invariant [$m [][]int, $i intval, $n count]: 0 <= $i && $i <= len(val)
invariant [$m [][]int, $i intval, $n count]: $i == 0 || exists k int :: 0 <= k < $n && $m[k][0] == $i
