exec(open('swallow.py').read().split('IMPS=')[0])
C=['C10']
I='schema/ridl/import_parser.go'; L='schema/ridl/lexer.go'
M=[
('b-eof-comment','bug',C,ed((P,'''		case tokenNewLine, tokenEOF:
			return nil
		case tokenWord:''','''		case tokenNewLine:
			return nil
		case tokenWord:'''))),
('b-eof-meta','bug',C,ed((P,'case tokenWhitespace, tokenNewLine, tokenEOF:\n			break loop','case tokenWhitespace, tokenNewLine:\n			break loop'))),
('b-eof-string','bug',C,ed((P,'''		case tokenEOF:
			return nil, errUnexpectedEOF

		case tokenBackslash:''','''		case tokenBackslash:'''))),
('b-go-on','bug',C,ed((P,'''	p.emit(err)
	return nil
}''','''	p.emit(err)
	if cur.tt == tokenNewLine {
		return parserStateNewLine
	}
	return nil
}'''))),
('b-silent','bug',C,ed((P,'''	default:
		return p.stateError(errUnexpectedToken)
	}

	return nil
}''','''	case tokenQuote:
		return nil

	default:
		return p.stateError(errUnexpectedToken)
	}

	return nil
}'''))),
('b-close-late','bug',C,ed((P,'''func (p *parser) stateError(err error) parserState {''','''func (p *parser) stateError(err error) parserState {
	if p.pos >= p.length {
		defer p.emit(errUnexpectedEOF)
	}'''))),
('b-close-error','bug',C,ed((P,'''func (p *parser) stateError(err error) parserState {''','''func (p *parser) stateError(err error) parserState {
	if p.pos >= p.length {
		close(p.words)
	}'''))),
('b-continue','bug',C,ed((P,'''	if !p.next() {
		return parserStateEOF
	}
	return parserDefaultState''','''	p.next()
	if p.cursor().tt == tokenEOF {
		return parserStateContinue
	}
	return parserDefaultState'''))),
('b-lexer-close','bug',C,ed((L,'''	lx.emit(tokenEOF)
	close(lx.tokens)''','''	if lx.pos > lx.start {
		lx.emit(tokenEOF)
	}'''))),
('b-args-eof','bug',C,ed((TP,'''		case tokenWhitespace:
			p.next()
			continue

		case tokenCloseParen:''','''		case tokenWhitespace, tokenEOF:
			p.next()
			continue

		case tokenCloseParen:'''))),
('b-ping','bug',C,ed((P,'''	case tokenNewLine:
		return parserStateNewLine

	case tokenWord:''','''	case tokenNewLine:
		return parserStateNewLine

	case tokenDot:
		return parserStateSpace

	case tokenWord:'''),(P,'''func parserStateSpace(p *parser) parserState {
	p.next()
''','''func parserStateSpace(p *parser) parserState {
'''))),
('r-buffered','refac',C,ed((P,'words:    make(chan interface{}),','words:    make(chan interface{}, 8),'))),
('r-loop','refac',C,ed((P,'''		state := parserDefaultState
		for state != nil {''','''		for state := parserState(parserDefaultState); state != nil; {'''))),
('r-eof','refac',C,ed((P,'''	for {
		tok := p.cursor()

		switch tok.tt {
		case tokenNewLine, tokenEOF:
			return nil
		case tokenWord:
			words = append(words, tok.String())
		}

		p.next()
	}

	panic("unreachable")''','''	for tok := p.cursor(); tok.tt != tokenNewLine && tok.tt != tokenEOF; tok = p.cursor() {
		if tok.tt == tokenWord {
			words = append(words, tok.String())
		}
		p.next()
	}
	return nil'''))),
('r-eofmsg','refac',C,ed((P,'''	close(p.words)
	return nil''','''	p.emit(tokenEOF)
	return nil'''))),
('r-skip','refac',C,ed((P,'''	p.next()

	for p.cursor().tt == tokenWhitespace {
		// Keep skipping newlines.
		p.next()
	}
''','''	for {
		p.next()
		if p.cursor().tt != tokenWhitespace {
			break
		}
	}
'''))),
('r-meta','refac',C,ed((P,'''		switch tok.tt {
		case tokenWhitespace, tokenNewLine, tokenEOF:
			break loop
		}

		tokens = append(tokens, tok)
		p.next()''','''		if tok.tt == tokenWhitespace || tok.tt == tokenNewLine || tok.tt == tokenEOF {
			break loop
		}

		tokens = append(tokens, tok)
		p.next()'''))),
]
