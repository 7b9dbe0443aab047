exec(open('swallow.py').read().split('IMPS=')[0])
C=['C09']
SN='schema/ridl/parser_node.go'; SF='schema/ridl/struct_parser.go'; A='schema/ridl/type_alias_parser.go'
M=[
('b-null-method','bug',C,ed((S,'''			if method == nil {
				return fmt.Errorf("schema error: method definition cannot be null in service '%s'", svc.Name)
			}
''',''))),
('b-null-output','bug',C,ed((S,'''			for _, output := range method.Outputs {
				if output == nil {
					return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
				}
			}
''',''))),
('b-vartype-nil','bug',C,ed((V,'if t == nil || t.Expr == "" {','if t.Expr == "" {'))),
('b-vartype-string','bug',C,ed((V,'''	if t == nil {
		return ""
	}
	return t.Expr''','''	return t.Expr'''))),
('b-map-comma','bug',C,ed((V,'''	if p < 0 {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}
''',''))),
('b-composed-empty','bug',C,ed((P,'''	if len(tokens) < 1 {
		return nil, errors.New("expecting token")
	}

''',''))),
('b-right-nil','bug',C,ed((SN,'''	if dn.rightNode == nil {
		return invalidToken
	}
''',''))),
('b-argtype-nil','bug',C,ed((SN,'''	if an.argumentType == nil {
		return invalidToken
	}
''',''))),
('b-unescape-end','bug',C,ed((U,'''			if i < size {
				switch''','''			if i <= size {
				switch'''))),
('b-comment-first','bug',C,ed((TK,'if commentLen > 0 {','if commentLen >= 0 {'))),
('b-succinct-unknown','bug',C,ed((R,'''		if typ == nil {
			return nil, true, fmt.Errorf("unknown type for succinct definition of '%s'", structName)
		}
''',''))),
('b-json-assert','bug',C,ed((T,'''				jsonMetaString, ok := jsonMeta.(string)
				if !ok {
					return fmt.Errorf("schema error: invalid json type '%T' in field '%s' in type '%s': must be string", jsonMeta, fieldName, typName)
				}
''','''				jsonMetaString := jsonMeta.(string)
'''))),
('b-exit','bug',C,ed((P,'''func parserStateUnexpectedEOF(p *parser) parserState {
	return''','''func parserStateUnexpectedEOF(p *parser) parserState {
	log.Fatal(errUnexpectedEOF)
	return'''))),
('b-foreign-word','bug',C,ed((P,'''	err = fmt.Errorf("%d:%d: error near %q: %v", cur.line, cur.col, cur.val, err)
	p.emit(err)''','''	p.emit(fmt.Sprintf("%d:%d: error near %q: %v", cur.line, cur.col, cur.val, err))'''))),
('b-annot-value','bug',C,ed((R,'''		if a.Value() != nil {
			an.Value = a.Value().String()
		}''','''		an.Value = a.Value().String()'''))),
('b-last-token','bug',C,ed((P,'''	if p.pos >= p.length {
		return eofToken
	}
	return &p.tokens[p.pos]''','''	if p.pos > p.length {
		return eofToken
	}
	return &p.tokens[p.pos]'''))),
('b-first-char','bug',C,ed((T,'''	if len(s) == 0 {
		return false
	}
	first, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(first)''','''	first := []rune(s)[0]
	_ = utf8.RuneError
	return unicode.IsUpper(first)'''))),
('b-quote','bug',C,ed((V,'if len(b) <= 2 {','if b == nil {'))),
('b-map-bracket','bug',C,ed((V,'''	if !isMapExpr(expr) {
		return "", "", fmt.Errorf("schema error: invalid map expr for '%s'", expr)
	}

''',''),(V,'mapTest := CoreTypeToString[T_Map] + "<"','mapTest := CoreTypeToString[T_Map]'))),
# quiet
('r-null-helper','refac',C,ed((S,'''			for _, output := range method.Outputs {
				if output == nil {
					return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
				}
			}
''','''			for i := 0; i < len(method.Outputs); i++ {
				if method.Outputs[i] != nil {
					continue
				}
				return fmt.Errorf("schema error: output argument cannot be null for method '%s' in service '%s'", method.Name, svc.Name)
			}
'''))),
('r-cut','refac',C,ed((V,'''	p := strings.Index(expr, ",")
	if p < 0 {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}

	key := expr[0:p]
	value := expr[p+1:]
''','''	key, value, ok := strings.Cut(expr, ",")
	if !ok {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}
'''))),
('r-first-char','refac',C,ed((T,'''	if len(s) == 0 {
		return false
	}
	first, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(first)''','''	rs := []rune(s)
	_ = utf8.RuneError
	return len(rs) > 0 && unicode.IsUpper(rs[0])'''))),
('r-trim','refac',C,ed((V,'''	s = s[1:]
	s = s[:len(s)-1]
''','''	s = s[1 : len(s)-1]
'''))),
('r-suffix','refac',C,ed((V,'''	if expr[0:1] != "<" {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}
	if expr[len(expr)-1:] != ">" {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}
	expr = expr[1 : len(expr)-1]
''','''	if !strings.HasPrefix(expr, "<") || !strings.HasSuffix(expr, ">") {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}
	expr = strings.TrimSuffix(expr[1:], ">")
'''))),
('r-lastbyte','refac',C,ed((V,'''	if expr[len(expr)-1:] != ">" {''','''	if expr[len(expr)-1] != '>' {'''))),
('r-cursor','refac',C,ed((P,'''	if p.pos >= p.length {
		return eofToken
	}
	return &p.tokens[p.pos]''','''	if p.pos < len(p.tokens) {
		return &p.tokens[p.pos]
	}
	return eofToken'''))),
('r-comment','refac',C,ed((TK,'''	commentLen := len(commentTokens)
	if commentLen > 0 {''','''	if commentLen := len(commentTokens); commentLen != 0 {'''))),
('r-composed','refac',C,ed((P,'''	baseToken := tokens[0]

	values := []string{}
	for _, t := range tokens {
		values = append(values, t.val)
	}
''','''	values := make([]string, len(tokens))
	for i := range tokens {
		values[i] = tokens[i].val
	}
	baseToken := tokens[0]
'''))),
('r-unescape','refac',C,ed((U,'''			i++
			if i < size {
				switch''','''			if i++; i < len(in) {
				switch'''))),
('r-last-annot','refac',C,ed((SP,'''			commentLine = sn.methodAnnotations[len(sn.methodAnnotations)-1].AnnotationType().tok.line''','''			last := sn.methodAnnotations[len(sn.methodAnnotations)-1:]
			commentLine = last[0].AnnotationType().tok.line'''))),
]
