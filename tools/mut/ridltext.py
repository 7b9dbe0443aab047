P='schema/ridl/parser.go'; SV='schema/ridl/service_parser.go'; ST='schema/ridl/struct_parser.go'; EP='schema/ridl/error_parser.go'; EN='schema/ridl/enum_parser.go'; TA='schema/ridl/type_alias_parser.go'; TP='schema/ridl/type_parser.go'; DP='schema/ridl/definition_parser.go'; EL='schema/ridl/error_list_parser.go'; TK='schema/ridl/tokenizer.go'; IP='schema/ridl/import_parser.go'
def ed(f,*prs):
    src=open('/repo/'+f).read(); cur=src
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,src,cur)]
M=[
('b-http-any','bug',['C11'],ed(EP,('''		if err := expectWord(matches[1], "HTTP"); err != nil {
			p.rewind(1)
			return p.stateError(fmt.Errorf("expecting optional 'HTTP <status code>' but got '%s'", matches[1].val))
		}

''',''))),
('b-eol-words','bug',['C11'],ed(P,('''		case tokenWhitespace:
			p.next()
			continue

		case tokenEOF, tokenNewLine:''','''		case tokenWhitespace, tokenWord:
			p.next()
			continue

		case tokenEOF, tokenNewLine:'''))),
('b-decl-default','bug',['C11'],ed(P,('''	default:
		return p.stateError(errUnexpectedToken)
	}

	return parserDefaultState
}''','''	default:
		return parserStateComment
	}

	return parserDefaultState
}'''))),
('b-stream-any','bug',['C11'],ed(SV,('''				} else {
					return p.stateError(errUnexpectedToken)
				}''','''				}'''))),
('b-structmeta-word','bug',['C11'],ed(ST,('''		case tokenPlusSign:
			return parserStateStructFieldMetaDefinition(mn)
''','''		case tokenPlusSign:
			return parserStateStructFieldMetaDefinition(mn)

		case tokenQuote:
			p.expectStringValue()
'''))),
('b-enum-eol','bug',['C11'],ed(EN,('''tokenWord, tokenEOL)''','''tokenWord)
	p.continueUntilEOL()'''))),
('b-errors-kw','bug',['C11'],ed(SV,('''			if err := expectWord(matches[1], wordErrors); err != nil {
				p.rewind(1)
				return p.stateError(err)
			}

''',''))),
('b-alias-eol','bug',['C11'],ed(TA,('''	ta := &TypeAliasNode{''','''	if p.cursor().tt == tokenWhitespace {
		p.continueUntilEOL()
	}

	ta := &TypeAliasNode{'''))),
('b-optional-sticks','bug',['C13'],ed(TP,('''loop:
	for {
		tok := p.cursor()

		switch tok.tt {

		case tokenWhitespace:
			p.next()
			continue

		case tokenCloseParen:''','''	optional := false

loop:
	for {
		tok := p.cursor()

		switch tok.tt {

		case tokenWhitespace:
			p.next()
			continue

		case tokenCloseParen:'''),('''				optional := false

''',''))),
('b-annot-keep','bug',['C13'],ed(SV,('''		defer func() {
			// clear annotation buffer
			sn.methodAnnotations = []*AnnotationNode{}
		}()

''',''),('''		if proxy {
			sn.methods = append(sn.methods, mn)
''','''		if len(mn.annotations) > 1 {
			sn.methodAnnotations = []*AnnotationNode{}
		}

		if proxy {
			sn.methods = append(sn.methods, mn)
'''))),
('b-meta-first','bug',['C13'],ed(ST,('mn.fields[len(mn.fields)-1]','mn.fields[0]'))),
('b-meta-first2','bug',['C13'],ed(ST,('field := mn.fields[len(mn.fields)-1]','field := mn.fields[len(mn.fields)-1]\n		if len(field.meta) > 1 {\n			field = mn.fields[0]\n		}'))),
('b-stream-out','bug',['C13'],ed(SV,('mn.outputs.stream = true','mn.inputs.stream = true'))),
('b-comment-tok','bug',['C13'],ed(TK,('''			lineComments[tok.line] = strings.Join(commentTokens, " ")
			commentTokens = []string{}
			parsing''','''			lineComments[tok.line] = strings.Join(commentTokens, " ")
			parsing'''))),
('b-enum-val-comment','bug',['C13'],ed(EN,('''			en.comment = parseComments(p.comments, explicitValue.line)
''','''			dn.comment = parseComments(p.comments, explicitValue.line)
'''))),
('b-meta-dot','bug',['C13'],ed(P,('''			tokens = append(tokens, matches...)
			continue''','''			tokens = append(tokens, matches[1:]...)
			continue'''))),
('r-eol','refac',['C11','C13'],ed(P,('''		switch tok.tt {

		case tokenWhitespace:
			p.next()
			continue

		case tokenEOF, tokenNewLine:
			// end of line
			return nil

		case tokenHash:
			return p.continueUntilEOL()

		default:
			// another kind of token, stop
			return errUnexpectedToken
		}

		panic("unreachable")''','''		if tok.tt == tokenWhitespace {
			p.next()
			continue
		}
		if tok.tt == tokenHash {
			return p.continueUntilEOL()
		}
		if tok.tt != tokenEOF && tok.tt != tokenNewLine {
			return errUnexpectedToken
		}
		return nil'''),('''	return nil
}

func (p *parser) stateError''','''}

func (p *parser) stateError'''))),
('r-match','refac',['C11','C13'],ed(P,('''	matcher := func(p *parser) ([]*token, error) {
		tokens := make''','''	{
		tokens := make'''),('''		return tokens, nil
	}

	return matcher(p)''','''		return tokens, nil
	}'''))),
('r-service','refac',['C11','C13'],ed(SV,('''			// is stream?
			matches, err := p.match(tokenWord, tokenWhitespace)
			if err == nil {
				if matches[0].val == wordStream {
					mn.outputs.stream = true
				} else {
					return p.stateError(errUnexpectedToken)
				}
			}
''','''			stream, err := p.expectOptionalStream()
			if err != nil {
				return p.stateError(err)
			}
			mn.outputs.stream = stream
'''),('''func parserStateServiceMethod(''','''func (p *parser) expectOptionalStream() (bool, error) {
	matches, err := p.match(tokenWord, tokenWhitespace)
	if err != nil {
		return false, nil
	}
	if matches[0].val != wordStream {
		return false, errUnexpectedToken
	}
	return true, nil
}

func parserStateServiceMethod('''))),
('r-run','refac',['C11','C13'],ed(P,('''		state := parserDefaultState
		for state != nil {
			fname := runtime.FuncForPC(reflect.ValueOf(state).Pointer()).Name()
			_ = fname
			// log.Printf("state: %v", fname)
			state = state(p)
		}''','''		for state := parserState(parserDefaultState); state != nil; {
			state = state(p)
		}'''),('''	"reflect"
	"runtime"
''',''))),
('r-tokenize','refac',['C11','C13'],ed(TK,('''		if parsingComment && tok.tt != tokenNewLine && tok.tt != tokenWhitespace {
			commentTokens = parseCommentToken(tok, tokens, commentTokens)
		}

		if tok.tt == tokenNewLine && parsingComment {
			lineComments[tok.line] = strings.Join(commentTokens, " ")
			commentTokens = []string{}
			parsingComment = false
		}
''','''		if parsingComment {
			switch tok.tt {
			case tokenNewLine:
				lineComments[tok.line] = strings.Join(commentTokens, " ")
				commentTokens = nil
				parsingComment = false
			case tokenWhitespace:
			default:
				commentTokens = parseCommentToken(tok, tokens, commentTokens)
			}
		}
'''))),
('r-composed','refac',['C11','C13'],ed(P,('''	values := []string{}
	for _, t := range tokens {
		values = append(values, t.val)
	}

	stringValue, err := unescapeString(strings.Join(values, ""))''','''	var value strings.Builder
	for _, t := range tokens {
		value.WriteString(t.val)
	}

	stringValue, err := unescapeString(value.String())'''))),
('r-comments','refac',['C11','C13'],ed(P,('''	if len(c) > 0 {
		// slices.Reverse is introduced with go 1.22
		for i, j := 0, len(c)-1; i < j; i, j = i+1, j-1 {
			c[i], c[j] = c[j], c[i]
		}
	}

	return strings.Join(c, "\\n")''','''	out := ""
	for i := len(c) - 1; i >= 0; i-- {
		out += c[i]
		if i > 0 {
			out += "\\n"
		}
	}

	return out'''))),
('r-loopstate','refac',['C11','C13'],ed(ST,('''		switch tok.tt {

		case tokenNewLine, tokenWhitespace:
			p.next()

		case tokenHash:
			p.continueUntilEOL()

		case tokenDash:
			return parserStateStructFieldDefinition(mn)

		default:
			p.emit(mn)
			return parserDefaultState

		}

		return parserStateStructField(mn)''','''		for tok.tt == tokenNewLine || tok.tt == tokenWhitespace || tok.tt == tokenHash {
			if tok.tt == tokenHash {
				p.continueUntilEOL()
			} else {
				p.next()
			}
			tok = p.cursor()
		}

		if tok.tt == tokenDash {
			return parserStateStructFieldDefinition(mn)
		}
		p.emit(mn)
		return parserDefaultState'''))),
]
