# ---- pkg/scanner: the lexer

extern utf8.DecodeRune(p) (r, size)
ensures len(p) == 0 ==> size == 0 && r == 65533
ensures len(p) > 0 ==> 1 <= size <= 4 && size <= len(p)
ensures len(p) > 0 && p[0] < 128 ==> r == p[0] && size == 1
ensures len(p) > 0 && p[0] >= 128 ==> 128 <= r <= 1114111
ensures forall k int :: 1 <= k < size ==> p[k] >= 128
ensures r == 65279 ==> size == 3

extern utf8.DecodeRuneInString(s) (r, size)
ensures len(s) == 0 ==> size == 0 && r == 65533
ensures len(s) > 0 ==> 1 <= size <= 4 && size <= len(s) && 0 <= r <= 1114111
ensures size == RuneLen(s)

extern unicode.IsLetter(r) (b)
pure

extern unicode.IsDigit(r) (b)
pure

extern unicode.IsUpper(r) (b)
pure

pred FileSized(s *scanner.Scanner) = s != nil && FileOK(s.file) && s.file.size == len(s.src)
pred Offs(s *scanner.Scanner) = 0 <= s.lineOffset && s.lineOffset <= s.offset && s.offset <= s.rdOffset && s.rdOffset <= len(s.src)
# the current character is the one at offset, or -1 at the end of the text
pred ChOK(s *scanner.Scanner) =
  (s.ch == 0 - 1 && s.offset == len(s.src)) ||
  (0 <= s.ch && s.offset < s.rdOffset
    && (s.src[s.offset] < 128 ==> s.ch == s.src[s.offset] && s.rdOffset == s.offset + 1)
    && (s.src[s.offset] >= 128 ==> s.ch >= 128)
    && (s.ch == 65279 ==> s.rdOffset == s.offset + 3)
    && (forall k int :: s.offset < k < s.rdOffset ==> s.src[k] >= 128))
# the line table lists exactly the line starts seen so far
pred LinesOK(s *scanner.Scanner) =
  (forall k int :: 1 <= k < len(s.file.lines) ==> s.src[s.file.lines[k] - 1] == 10)
  && (forall k int, o int :: 0 <= k && k + 1 < len(s.file.lines) && s.file.lines[k] <= o && o + 1 < s.file.lines[k + 1] ==> s.src[o] != 10)
  && (forall o int :: s.file.lines[len(s.file.lines) - 1] <= o && o < s.offset && o + 1 < len(s.src) ==> s.src[o] != 10)
pred ScanOK(s *scanner.Scanner) = FileSized(s) && Offs(s) && ChOK(s) && LinesOK(s)
# either a current character has been read, or none of the text has
pred NextPre(s *scanner.Scanner) = FileSized(s) && Offs(s) && LinesOK(s) && (ChOK(s) || (s.ch != 10 && s.rdOffset == s.offset))


pred IsLetter(ch int) = 97 <= ch <= 122 || 65 <= ch <= 90 || ch == 95 || ch >= 128 && unicode.IsLetter(ch)
pred IsDecimal(ch int) = 48 <= ch <= 57
pred IsHex(ch int) = 48 <= ch <= 57 || 97 <= ch <= 102 || 65 <= ch <= 70

func scanner.lower(ch) (r)
opt inlinecalls 1
ensures 65 <= ch <= 90 ==> r == ch + 32
ensures 97 <= ch <= 122 ==> r == ch
ensures !(65 <= ch <= 90 || 97 <= ch <= 122) ==> !(97 <= r <= 122)
ensures ch < 0 ==> r < 0
ensures ch == 48 ==> r == 48

func scanner.isLetter(ch) (r)
ensures r == IsLetter(ch)

func scanner.isDigit(ch) (r)
ensures r == (IsDecimal(ch) || ch >= 128 && unicode.IsDigit(ch))

func scanner.isHex(ch) (r)
ensures r == IsHex(ch)

func scanner.(*Scanner).next(s)
verify C01 C02 C03
requires NextPre(s)
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.offset == old(s.rdOffset)
ensures old(s.ch) >= 0 && old(ChOK(s)) ==> s.offset > old(s.offset)
ensures old(s.ch) != 10 ==> s.lineOffset == old(s.lineOffset) && len(s.file.lines) == old(len(s.file.lines))
ensures s.ErrorCount >= old(s.ErrorCount)

func scanner.(*Scanner).error(s, offs, msg)
verify C01
requires s != nil && FileOK(s.file) && 0 <= offs && offs <= s.file.size
modifies s.ErrorCount
ensures s.ErrorCount == old(s.ErrorCount) + 1

func scanner.(*Scanner).errorf(s, offs, format, args)
verify C01
requires s != nil && FileOK(s.file) && 0 <= offs && offs <= s.file.size
modifies s.ErrorCount
ensures s.ErrorCount == old(s.ErrorCount) + 1

func scanner.(*Scanner).Init(s, file, src, err, mode)
verify C01 C02 C03
requires s != nil && FileOK(file) && file.size == len(src) && len(file.lines) == 1
modifies object(s), file.lines, elems(file.lines)
ensures ScanOK(s)
ensures s.file == file && s.src == src && s.mode == mode && !s.insertSemi
ensures 0 <= s.offset <= 3
ensures s.ErrorCount >= 0

func scanner.(*Scanner).skipWhitespace(s)
verify C01 C02
requires ScanOK(s)
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset >= old(s.offset)
ensures forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] == 32 || s.src[k] == 9 || s.src[k] == 10 && !s.insertSemi || s.src[k] == 13
ensures !(s.ch == 32 || s.ch == 9 || s.ch == 10 && !s.insertSemi || s.ch == 13)
ensures s.insertSemi ==> s.lineOffset == old(s.lineOffset)
ensures s.insertSemi ==> len(s.file.lines) == old(len(s.file.lines))
invariant s.offset >= old(s.offset)
invariant s.insertSemi ==> s.lineOffset == old(s.lineOffset) && len(s.file.lines) == old(len(s.file.lines))
invariant forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] == 32 || s.src[k] == 9 || s.src[k] == 10 && !s.insertSemi || s.src[k] == 13
invariant s.ErrorCount >= old(s.ErrorCount)
decreases len(s.src) - s.offset

pred IdentByte(b int) = b >= 128 || 97 <= b <= 122 || 65 <= b <= 90 || b == 95 || 48 <= b <= 57

func scanner.(*Scanner).scanIdentifier(s) (lit)
verify C01 C02
requires ScanOK(s)
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset >= old(s.offset)
ensures IsLetter(old(s.ch)) ==> s.offset > old(s.offset)
ensures lit == str(s.src[old(s.offset):s.offset])
ensures forall k int :: old(s.offset) <= k < s.offset ==> IdentByte(s.src[k])
ensures 0 <= s.ch && s.ch < 128 ==> !IdentByte(s.ch)
invariant s.offset >= old(s.offset)
invariant IsLetter(old(s.ch)) && s.offset == old(s.offset) ==> s.ch == old(s.ch)
invariant forall k int :: old(s.offset) <= k < s.offset ==> IdentByte(s.src[k])
invariant s.ErrorCount >= old(s.ErrorCount)
decreases len(s.src) - s.offset

func scanner.digitVal(ch) (r)
ensures IsDecimal(ch) ==> r == ch - 48
ensures 97 <= ch <= 102 ==> r == ch - 87
ensures 65 <= ch <= 70 ==> r == ch - 55
ensures !IsHex(ch) ==> r == 16

func scanner.(*Scanner).digits(s, base, invalid) (digsep)
verify C01 C02
requires ScanOK(s) && invalid != nil && 2 <= base <= 16
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
modifies cell(invalid)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset >= old(s.offset)
ensures 0 <= digsep <= 3
ensures forall k int :: old(s.offset) <= k < s.offset ==> IsHex(s.src[k]) || s.src[k] == 95
ensures old(deref(invalid)) >= 0 ==> deref(invalid) == old(deref(invalid))
ensures old(deref(invalid)) < 0 ==> deref(invalid) == old(deref(invalid)) || old(s.offset) <= deref(invalid) && deref(invalid) < s.offset
ensures base <= 10 ==> !(IsDecimal(s.ch) || s.ch == 95)
ensures base > 10 ==> !(IsHex(s.ch) || s.ch == 95)
ensures base <= 10 ==> forall k int :: old(s.offset) <= k < s.offset ==> IsDecimal(s.src[k]) || s.src[k] == 95
invariant s.offset >= old(s.offset)
invariant [$d phi]: 0 <= $d && $d <= 3
invariant forall k int :: old(s.offset) <= k < s.offset ==> IsHex(s.src[k]) || s.src[k] == 95
invariant base <= 10 ==> forall k int :: old(s.offset) <= k < s.offset ==> IsDecimal(s.src[k]) || s.src[k] == 95
invariant old(deref(invalid)) >= 0 ==> deref(invalid) == old(deref(invalid))
invariant old(deref(invalid)) < 0 ==> deref(invalid) == old(deref(invalid)) || old(s.offset) <= deref(invalid) && deref(invalid) < s.offset
invariant s.ErrorCount >= old(s.ErrorCount)
decreases len(s.src) - s.offset

func scanner.litname(prefix) (r)

func scanner.invalidSep(x) (r)
verify C01
ensures 0 - 1 <= r < len(x)
invariant [$i phi]: 0 <= $i

func scanner.(*Scanner).scanNumber(s) (tok, lit)
split 100
verify C01 C02
requires ScanOK(s)
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset >= old(s.offset)
ensures IsDecimal(old(s.ch)) ==> s.offset > old(s.offset)
ensures old(s.ch) != 46 ==> tok == token.INT
ensures lit == str(s.src[old(s.offset):s.offset])

func scanner.(*Scanner).scanEscape(s, quote) (ok)
verify C01 C02
requires ScanOK(s)
requires quote == 34 || quote == 39
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset >= old(s.offset)
ensures forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 10
invariant s.offset >= old(s.offset)
invariant forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 10
invariant s.ErrorCount >= old(s.ErrorCount)
decreases [$n phi]: $n

func scanner.(*Scanner).scanString(s) (lit)
verify C01 C02
requires ScanOK(s) && s.offset >= 1
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset >= old(s.offset)
ensures lit == str(s.src[old(s.offset)-1:s.offset])
ensures forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 10
ensures s.ErrorCount == old(s.ErrorCount) ==> s.offset > old(s.offset) && s.src[s.offset-1] == 34
invariant s.offset >= old(s.offset)
invariant s.ErrorCount >= old(s.ErrorCount)
invariant forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 10
decreases len(s.src) - s.offset

func scanner.(*Scanner).scanRawString(s) (lit)
verify C01 C02
requires ScanOK(s) && s.offset >= 1 && s.src[s.offset-1] == 96
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset >= old(s.offset)
ensures (forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 13) ==> lit == str(s.src[old(s.offset)-1:s.offset])
ensures s.ErrorCount == old(s.ErrorCount) ==> s.offset > old(s.offset) && s.src[s.offset-1] == 96
ensures forall k int :: old(s.offset) <= k < s.offset - 1 ==> s.src[k] != 96
invariant s.offset >= old(s.offset)
invariant s.ErrorCount >= old(s.ErrorCount)
invariant forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 96
invariant [$h bool]: (forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 13) ==> !$h
decreases len(s.src) - s.offset

func scanner.stripCR(b, comment) (r)
verify C01
ensures len(r) <= len(b)
ensures len(b) >= 2 && b[0] != 13 && b[1] != 13 ==> len(r) >= 2 && r[0] == b[0] && r[1] == b[1]
invariant [$i phi, $j count, $c []byte]: 0 <= $i && $i <= $j && ($j >= 1 && b[0] != 13 ==> $i >= 1 && $c[0] == b[0]) && ($j >= 2 && b[0] != 13 && b[1] != 13 ==> $i >= 2 && $c[1] == b[1])

extern bytes.LastIndexByte(s, c) (r)
ensures 0 - 1 <= r < len(s)
ensures r >= 0 ==> s[r] == c

extern bytes.HasPrefix(s, prefix) (r)
ensures r ==> len(s) >= len(prefix)
ensures r ==> forall k int :: 0 <= k < len(prefix) ==> s[k] == prefix[k]

func scanner.trailingDigits(text) (i, n, ok)
ensures 0 <= i <= len(text)
ensures ok ==> i >= 1

func scanner.(*Scanner).updateLineInfo(s, next, offs, text)
verify C01 C03
requires FileSized(s) && 0 <= next && 0 <= offs && offs + len(text) <= s.file.size && len(text) >= 7
requires text[1] == 42 ==> len(text) >= 9
modifies s.ErrorCount, s.file.infos, elems(s.file.infos)
ensures FileOK(s.file)
ensures s.ErrorCount >= old(s.ErrorCount)

func scanner.(*Scanner).scanComment(s) (lit)
verify C01 C02
requires ScanOK(s) && s.offset >= 1 && s.src[s.offset-1] == 47 && (s.ch == 47 || s.ch == 42)
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
modifies s.file.infos, elems(s.file.infos)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset > old(s.offset)
ensures len(lit) >= 2
ensures old(s.ch) == 47 ==> (s.ch == 10 || s.ch == 0 - 1)
ensures old(s.ch) == 47 ==> forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 10
ensures old(s.ch) == 42 && s.ErrorCount == old(s.ErrorCount) ==> s.offset >= old(s.offset) + 3 && s.src[s.offset-1] == 47 && s.src[s.offset-2] == 42
ensures (forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 13) ==> lit == str(s.src[old(s.offset)-1:s.offset])
invariant s.offset > old(s.offset)
invariant s.ErrorCount >= old(s.ErrorCount)
invariant old(s.ch) == 47 ==> forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 10
invariant [$n phi]: $n >= 0 && ((forall k int :: old(s.offset) <= k < s.offset ==> s.src[k] != 13) ==> $n == 0)
decreases len(s.src) - s.offset

func scanner.(*Scanner).findLineEnd(s) (r)
verify C01 C02
requires ScanOK(s) && s.insertSemi && s.offset >= 1 && s.src[s.offset-1] == 47 && (s.ch == 47 || s.ch == 42) && s.lineOffset < s.offset
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.file.lines, elems(s.file.lines)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures s.offset == old(s.offset) && s.ch == old(s.ch) && s.rdOffset == old(s.rdOffset) && s.lineOffset == old(s.lineOffset)
invariant s.offset >= old(s.offset)
invariant s.lineOffset == old(s.lineOffset)
invariant len(s.file.lines) == old(len(s.file.lines))
invariant s.ErrorCount >= old(s.ErrorCount)
decreases len(s.src) - s.offset

func scanner.(*Scanner).peek(s) (b)
requires s != nil && 0 <= s.rdOffset
ensures s.rdOffset < len(s.src) ==> b == s.src[s.rdOffset]
ensures s.rdOffset >= len(s.src) ==> b == 0

# token of an operator character
pred OpTok(c int, t int) =
  (c == 44 && t == token.COMMA) || (c == 58 && t == token.COLON) || (c == 59 && t == token.SEMICOLON)
  || (c == 40 && t == token.LPAREN) || (c == 41 && t == token.RPAREN) || (c == 91 && t == token.LBRACK) || (c == 93 && t == token.RBRACK)
  || (c == 123 && t == token.LBRACE) || (c == 125 && t == token.RBRACE) || (c == 60 && t == token.LSS) || (c == 62 && t == token.GTR)
  || (c == 61 && t == token.ASSIGN) || (c == 63 && t == token.Question)
pred IsOp(c int) = c == 44 || c == 58 || c == 59 || c == 40 || c == 41 || c == 91 || c == 93 || c == 123 || c == 125 || c == 60 || c == 62 || c == 61 || c == 63
pred KeywordOrIdent(t int) = t == token.IDENT || t == token.IMPORT || t == token.PACKAGE || t == token.DATA || t == token.SERVER || t == token.ENUM

# how much scanning is left: every token but the end mark makes it smaller
pred ScanLeft(s *scanner.Scanner) int = 2 * (len(s.src) - s.offset) + (if s.insertSemi then 1 else 0)

func scanner.(*Scanner).Scan(s) (pos, tok, lit)
verify C01 C02
split 200
requires ScanOK(s)
requires 0 <= s.mode
modifies s.ch, s.offset, s.rdOffset, s.lineOffset, s.ErrorCount, s.insertSemi, s.file.lines, elems(s.file.lines), s.file.infos, elems(s.file.infos)
ensures ScanOK(s)
ensures s.ErrorCount >= old(s.ErrorCount)
ensures old(s.offset) <= pos - s.file.base
ensures pos - s.file.base <= len(s.src)
ensures s.offset >= pos - s.file.base
ensures tok != token.EOF && !(tok == token.SEMICOLON && lit == "\n") ==> s.offset > pos - s.file.base
ensures tok == token.SEMICOLON && lit == "\n" ==> old(s.insertSemi) && !s.insertSemi
ensures tok == token.EOF ==> pos - s.file.base == len(s.src) && s.offset == len(s.src) && s.ch == 0 - 1
ensures tok == token.INT || KeywordOrIdent(tok) || tok == token.COMMENT && (forall k int :: pos - s.file.base <= k < s.offset ==> s.src[k] != 13) ==> lit == str(s.src[pos - s.file.base:s.offset])
ensures tok == token.STRING && s.src[pos - s.file.base] == 34 ==> lit == str(s.src[pos - s.file.base:s.offset])
ensures tok == token.STRING ==> s.src[pos - s.file.base] == 34 || s.src[pos - s.file.base] == 96
ensures KeywordOrIdent(tok) ==> (forall k int :: pos - s.file.base <= k < s.offset ==> IdentByte(s.src[k])) && tok == token.Lookup(lit)
ensures tok == token.INT ==> IsDecimal(s.src[pos - s.file.base]) || s.src[pos - s.file.base] == 46
ensures pos - s.file.base < len(s.src) && IsOp(s.src[pos - s.file.base]) && !(tok == token.SEMICOLON && lit == "\n") ==> OpTok(s.src[pos - s.file.base], tok) && s.offset == pos - s.file.base + 1
ensures pos - s.file.base < len(s.src) && IsDecimal(s.src[pos - s.file.base]) ==> tok == token.INT
ensures pos - s.file.base < len(s.src) && s.src[pos - s.file.base] == 34 ==> tok == token.STRING
ensures tok == token.ILLEGAL && s.src[pos - s.file.base] != 47 && s.src[pos - s.file.base] < 128 ==> s.ErrorCount > old(s.ErrorCount)
ensures s.mode == 0 ==> tok != token.COMMENT
ensures tok == token.COMMENT ==> len(lit) >= 2
ensures tok != token.EOF && s.mode <= 1 ==> ScanLeft(s) < old(ScanLeft(s))
ensures tok == token.EOF && s.mode <= 1 ==> ScanLeft(s) == 0
ensures s.mode == 1 ==> forall k int :: old(s.offset) <= k < pos - s.file.base ==> s.src[k] == 32 || s.src[k] == 9 || s.src[k] == 13 || s.src[k] == 10
invariant s.offset >= old(s.offset)
invariant s.ErrorCount >= old(s.ErrorCount)
invariant s.mode == 1 ==> s.offset == old(s.offset)
invariant ScanLeft(s) <= old(ScanLeft(s))
invariant s.insertSemi ==> old(s.insertSemi)
decreases len(s.src) - s.offset
