L='schema/ridl/lexer.go'; TK='schema/ridl/tokenizer.go'
def ed(f,*prs):
    src=open('/repo/'+f).read(); cur=src
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,src,cur)]
M=[
('b-space-nl','bug',['C11'],ed(L,('for isSpace(lx.peek()) {','for isSpace(lx.peek()) || isSpace(rune(0)) || lx.peek() == 0xa0 {'))),
('b-nul','bug',['C11'],ed(L,('case isEmpty(r) && lx.pos >= lx.length:','case isEmpty(r):'))),
('b-break','bug',['C11'],ed(L,('[]()<>{}=:¿?¡!,\\"','[]()<>{}=:¿?¡!\\"'))),
('b-col','bug',['C11'],ed(L,('	lx.col = 0\n',''))),
('b-extra','bug',['C11'],ed(L,('''	return lexPushTokenState(tokenExtra)''','''	lx.next()
	lx.start = lx.pos
	return lexDefaultState'''))),
('b-dropspace','bug',['C11'],ed(TK,('''		tokens = append(tokens, tok)
	}''','''		if tok.tt == tokenExtra && !parsingComment {
			continue
		}
		tokens = append(tokens, tok)
	}'''))),
('b-bang','bug',['C11'],ed(L,('	case isAt(r):','	case isBang(r):\n		return lexStateAt\n\n	case isAt(r):'))),
('b-equal','bug',['C11'],ed(L,('''	case isCloseAngleBracket(r):
		return lexStateRocket
''','''	case isCloseAngleBracket(r), isEqual(r):
		return lexStateRocket
'''))),
('b-cr','bug',['C11'],ed(TK,('''		tokens = append(tokens, tok)
	}''','''		if n := len(tokens); tok.tt == tokenWhitespace && n > 0 && tokens[n-1].tt == tokenNewLine && tok.val == "\\t" {
			continue
		}
		tokens = append(tokens, tok)
	}'''))),
('r-peek','refac',['C11','C13'],ed(L,('''	for {
		lx.next()
		if isWordBreak(lx.peek()) {
			break
		}
	}

	lx.emit(tokenWord)''','''	lx.next()
	for !isWordBreak(lx.peek()) {
		lx.next()
	}

	lx.emit(tokenWord)'''),('''	for i := range wordBreak {
		if r == wordBreak[i] {
			return true
		}
	}
	return false''','''	return strings.ContainsRune(string(wordBreak), r)'''),('import (\n','import (\n	"strings"\n'))),
('r-slices','refac',['C11','C13'],ed(L,('''		for i := range tokenTypeValue[tt] {
			if tokenTypeValue[tt][i] == r {
				return true
			}
		}
		return false''','''		return slices.Contains(tokenTypeValue[tt], r)'''),('import (\n','import (\n	"slices"\n'))),
('r-switch','refac',['C11','C13'],ed(L,('''	case isQuote(r):
		return lexStateQuote

	case isSlash(r):
		return lexStateSlash
''','''	case r == '"':
		return lexPushTokenState(tokenQuote)

	case r == '/':
		return func(lx *lexer) lexState {
			lx.next()
			lx.emit(tokenSlash)
			return lexDefaultState
		}
'''))),
('r-next','refac',['C11','C13'],ed(L,('''	newPos := lx.pos + 1
	if newPos > lx.length {
		return false
	}
	lx.pos = newPos
''','''	if lx.pos >= lx.length {
		return false
	}
	lx.pos++
'''))),
('r-wordrange','refac',['C11','C13'],ed(L,('''	for i := range wordBeginning {
		if r == wordBeginning[i] {
			return true
		}
	}
	return false''','''	switch {
	case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_':
		return true
	}
	return false'''))),
('r-index','refac',['C11'],ed(L,("""	for i := range wordBeginning {
		if r == wordBeginning[i] {
			return true
		}
	}
	return false""","""	return strings.IndexRune(string(wordBeginning), r) >= 0"""),('import (\n','import (\n	"strings"\n'))),
('r-unicode','refac',['C11'],ed(L,("""	for i := range wordBeginning {
		if r == wordBeginning[i] {
			return true
		}
	}
	return false""","""	return r == '_' || r < 128 && (unicode.IsLetter(r) || unicode.IsDigit(r))"""),('import (\n','import (\n	"unicode"\n'))),
]
