import os
def ed(*trip):
    fs={}
    out=[]
    for f,o,n in trip:
        s=open('/repo/'+f).read()
        cur=fs.get(f,s)
        assert cur.count(o)>=1,(f,o)
        fs[f]=cur.replace(o,n,1)
    return [(f,open('/repo/'+f).read(),fs[f]) for f in fs]
R='schema/ridl/ridl.go'; P='schema/ridl/parser.go'; V='schema/var_type.go'; S='schema/schema.go'
E='schema/error.go'; T='schema/type.go'; SV='schema/service.go'; SP='schema/ridl/service_parser.go'; EP='schema/ridl/error_parser.go'
U='schema/ridl/parser_util.go'; W='webrpc.go'; J='schema/parser.go'; TP='schema/ridl/type_parser.go'; TK='schema/ridl/tokenizer.go'; EN='schema/ridl/enum_parser.go'
C=['C08']
IMPS='import (\n'
def imp(f,*p): return [(f,IMPS,IMPS+''.join('\t"%s"\n'%x for x in p))]
LIST='''		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
'''
MAPV='''		err = ParseVarTypeExpr(schema, expr, vt.Map.Value)
		if err != nil {
			return err
		}
'''
ALIAS='''		if err != nil {
			return nil, fmt.Errorf("type alias %q: unknown type: %v", name, line.TypeName())
		}
'''
STATUS='''			if err != nil {
				return nil, fmt.Errorf("error %q: invalid HTTP status code: %w", line.name, err)
			}
'''
READ='''	src, err := fs.ReadFile(p.fsys, p.path)
	if err != nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}
'''
PARSE='''	s, err := p.parse()
	if err != nil {
		return nil, err
	}
'''
VAL='''	err = s.Validate()
	if err != nil {
		return nil, err
	}
'''
TYPES='''		err := s.Types[i].Parse(s)
		if err != nil {
			return err
		}
'''
JSON='''	err := json.Unmarshal(jsondata, &schema)
	if err != nil {
		return nil, err
	}
'''
SE='''	p.emit(err)
	return nil
'''
OUT='''		err := output.Type.Parse(schema)
		if err != nil {
			return err
		}
'''
IMPORT='''			if p.cache[importPath], err = parser.Parse(); err != nil {
				return nil, newImportError(parser, err)
			}
'''
RUN='''	err := p.collect()
	if err != nil {
		return err
	}

	return nil
'''
FLD='''			err := field.Type.Parse(schema)
			if err != nil {
				return err
			}
'''
FLDB='''			err := field.Type.Parse(schema)
'''
ARGS='''			outputArguments, err := p.expectArgumentList()
			if err != nil {
				return p.stateError(err)
			}
'''
M=[
('b-list','bug',C,ed((V,LIST,'		_ = ParseVarTypeExpr(schema, expr, vt.List.Elem)\n'))),
('b-list2','bug',C,ed((V,LIST,'		ParseVarTypeExpr(schema, expr, vt.List.Elem)\n'))),
('b-mapval','bug',C,ed((V,MAPV,MAPV.replace('return err','vt.Map.Value.Type = T_Any')))),
('b-alias','bug',C,ed((R,ALIAS,'		if err != nil {\n			aliasType = schema.VarType{Expr: "any", Type: schema.T_Any}\n		}\n'))),
('b-alias2','bug',C,ed((R,ALIAS,'		if err != nil {\n			continue\n		}\n'))),
('b-status','bug',C,ed((R,STATUS,'			if err != nil {\n				httpStatus = 400\n			}\n'))),
('b-read','bug',C,ed((R,READ,'''	src, err := fs.ReadFile(p.fsys, p.path)
	if err != nil && p.parent == nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}
'''))),
('b-readmissing','bug',C,ed((R,READ,'''	src, err := fs.ReadFile(p.fsys, p.path)
	if errors.Is(err, fs.ErrNotExist) {
		return &schema.WebRPCSchema{}, nil
	} else if err != nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}
'''))),
('b-validate','bug',C,ed((R,VAL,'	if err = s.Validate(); err != nil {\n		log.Printf("%v", err)\n	}\n'),*imp(R,'log'))),
('b-validate2','bug',C,ed((R,VAL,'	if err = s.Validate(); err != nil && p.parent == nil {\n		return nil, err\n	}\n'))),
('b-typesskip','bug',C,ed((S,TYPES,'		err := s.Types[i].Parse(s)\n		if err != nil {\n			if s.Types[i].Kind == TypeKind_Alias {\n				continue\n			}\n			return err\n		}\n'))),
('b-json','bug',C,ed((J,JSON,JSON.replace('err != nil','err != nil && schema == nil')))),
('b-stateerror','bug',C,ed((P,SE,'	if cur.tt != tokenEOF {\n		p.emit(err)\n	}\n	return nil\n'))),
('b-collect','bug',C,ed((P,'			return word\n','			if p.pos < p.length {\n				return word\n			}\n'))),
('b-lastwins','bug',C,ed((SV,OUT,'		failed = output.Type.Parse(schema)\n'),(SV,'	for _, output := range m.Outputs {','	var failed error\n	for _, output := range m.Outputs {'),(SV,'	// Parse+validate errors\n','	if failed != nil {\n		return failed\n	}\n\n	// Parse+validate errors\n'))),
('b-shadow','bug',C,ed((R,IMPORT,'''			if schema, err := parser.Parse(); err != nil {
				err = newImportError(parser, err)
			} else {
				p.cache[importPath] = schema
			}
			if err != nil {
				return nil, err
			}
'''))),
('b-named','bug',C,ed((J,'func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {\n	var schema *WebRPCSchema\n	err :=','func ParseSchemaJSON(jsondata []byte) (schema *WebRPCSchema, err error) {\n	defer func() {\n		if schema != nil {\n			err = nil\n		}\n	}()\n	err ='))),
('b-recover','bug',C,ed((J,'func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {\n	var schema *WebRPCSchema\n	err :=','func ParseSchemaJSON(jsondata []byte) (schema *WebRPCSchema, err error) {\n	defer func() {\n		if r := recover(); r != nil {\n			schema = nil\n		}\n	}()\n	err ='))),
('b-recover2','bug',C,ed((P,'	go func() {\n','	go func() {\n		defer func() { recover() }()\n'))),
('b-runerr','bug',C,ed((P,RUN,'	if err := p.collect(); err != nil && len(p.tokens) > 0 {\n		return err\n	}\n	return nil\n'))),
('b-args','bug',C,ed((SP,ARGS,'			outputArguments, err := p.expectArgumentList()\n			if err != nil {\n				p.emit(tokenEOF)\n				return nil\n			}\n'))),
('b-anns','bug',C,ed((SP,'			anns, err := parseAnnotations(p)\n			if err != nil {\n				return p.stateError(err)\n			}\n','			anns, err := parseAnnotations(p)\n			if err != nil {\n				p.continueUntilEOL()\n			}\n'))),
('b-annval','bug',C,ed((SP,'			annotationValue, err := p.expectStringValue()\n			if err != nil {\n				return nil, err\n			}\n','			annotationValue, err := p.expectStringValue()\n			if err != nil {\n				return annotations, nil\n			}\n')) if 'annotationValue, err := p.expectStringValue()\n			if err != nil {\n				return nil, err\n			}\n' in open('/repo/'+SP).read() else ed((SP,'			annotationValue, err := p.expectStringValue()\n','			annotationValue, err := p.expectStringValue()\n			if err != nil {\n				return annotations, nil\n			}\n'))),
('b-number','bug',C,ed((EP,'	if err := expectNumber(matches[2], matches[2].val); err != nil {','	if err := expectNumber(matches[2], matches[2].val); err != nil && matches[2].val[0] > \'9\' {'))),
('b-forget','bug',C,ed((SV,'				break\n			}\n		}\n		if !found {\n			return fmt.Errorf(','				break\n			}\n		}\n		if !found {\n			_ = fmt.Errorf(') if False else (E,'			return fmt.Errorf("schema error: detected duplicate error code','			_ = fmt.Errorf("schema error: detected duplicate error code'))),
('b-vtunmarshal','bug',C,ed((R,'	q, err := newParser(p.path, src)\n	if err != nil {\n		return nil, err\n	}\n','	q, err := newParser(p.path, src)\n	if q == nil {\n		return nil, err\n	}\n') if False else (R,'			if err != nil {\n				return nil, err\n			}\n\n			if succinctInput','			if outputs == nil {\n				return nil, err\n			}\n\n			if succinctInput'))),
('b-abs','bug',C,ed((W,'	absolutePath, err := filepath.Abs(path)\n	if err != nil {\n		return nil, fmt.Errorf("invalid path %q: %w", path, err)\n	}\n','	absolutePath, err := filepath.Abs(path)\n	if err != nil {\n		absolutePath = path\n	}\n'))),
('b-fieldgo','bug',C,ed((T,FLDB,'			var err error\n			done := make(chan bool)\n			go func() {\n				field.Type.Parse(schema)\n				close(done)\n			}()\n			<-done\n'))),
('b-closure','bug',C,ed((S,TYPES,'		parse := func() bool { return s.Types[i].Parse(s) == nil || s.Types[i].Kind == TypeKind_Enum }\n		if !parse() {\n			return fmt.Errorf("schema error: invalid type \'%s\'", s.Types[i].Name)\n		}\n'))),
# behaviour kept
('r-wrap','refac',C,ed((R,'			return nil, fmt.Errorf("type alias %q: unknown type: %v", name, line.TypeName())\n','			return nil, unknownType("type alias", name, line.TypeName())\n'),(R,'func parseComment(','func unknownType(what, name string, typ *TokenNode) error {\n	return fmt.Errorf("%s %q: unknown type: %v", what, name, typ)\n}\n\nfunc parseComment('))),
('r-named','refac',C,ed((J,'func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {\n	var schema *WebRPCSchema\n	err :=','func ParseSchemaJSON(jsondata []byte) (schema *WebRPCSchema, err error) {\n	err ='),(J,'		return nil, err\n','		return\n'),(J,'		return schema, err\n	}\n\n	return schema, nil\n','		return\n	}\n\n	return\n'))),
('r-switch','refac',C,ed((V,LIST,'		switch err := ParseVarTypeExpr(schema, expr, vt.List.Elem); {\n		case err != nil:\n			return err\n		}\n'))),
('r-positive','refac',C,ed((R,VAL+'\n	return s, nil\n','	if err = s.Validate(); err == nil {\n		return s, nil\n	}\n	return nil, err\n'))),
('r-tail','refac',C,ed((P,RUN,'	return p.collect()\n'))),
('r-var','refac',C,ed((P,RUN,'	var result error\n	if err := p.collect(); err != nil {\n		result = err\n	}\n	return result\n'))),
('r-first','refac',C,ed((S,TYPES,'		if failed = s.Types[i].Parse(s); failed != nil {\n			break\n		}\n'),(S,'	for i := range s.Types {\n','	var failed error\n	for i := range s.Types {\n'),(S,'	for _, e := range s.Errors {\n		err := e.Parse','	if failed != nil {\n		return failed\n	}\n	for _, e := range s.Errors {\n		err := e.Parse'))),
('r-flag','refac',C,ed((S,TYPES,'		err := s.Types[i].Parse(s)\n		ok := err == nil\n		if !ok {\n			return err\n		}\n'))),
('r-join','refac',C,ed((SV,OUT,'		failed = errors.Join(failed, output.Type.Parse(schema))\n		if failed != nil {\n			return failed\n		}\n'),(SV,'	for _, output := range m.Outputs {','	var failed error\n	for _, output := range m.Outputs {'),*([(SV,'import (','import (\n\t"errors"')] if 'import (' in open('/repo/'+SV).read() else [(SV,'import "fmt"','import (\n\t"errors"\n\t"fmt"\n)')]))),
('r-deferwrap','refac',C,ed((S,'func (s *WebRPCSchema) SchemaHash() (string, error) {\n','func (s *WebRPCSchema) SchemaHash() (hash string, err error) {\n	defer func() {\n		if err != nil {\n			err = fmt.Errorf("hash: %w", err)\n		}\n	}()\n'))),
('r-helper','refac',C,ed((S,TYPES,'		if err := s.parseType(i); err != nil {\n			return err\n		}\n'),(S,'func (s *WebRPCSchema) SchemaHash()','func (s *WebRPCSchema) parseType(i int) error {\n	err := s.Types[i].Parse(s)\n	if err != nil {\n		return err\n	}\n	return nil\n}\n\nfunc (s *WebRPCSchema) SchemaHash()'))),
('r-generic','refac',C,ed((S,'	for _, e := range s.Errors {\n		err := e.Parse(s)\n		if err != nil {\n			return err\n		}\n	}\n','	if err := parseAll(s, s.Errors); err != nil {\n		return err\n	}\n'),(S,'func (s *WebRPCSchema) SchemaHash()','func parseAll[P Parser](s *WebRPCSchema, all []P) error {\n	for _, x := range all {\n		if err := x.Parse(s); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\nfunc (s *WebRPCSchema) SchemaHash()'))),
('r-report','refac',C,ed((P,SE,'	return p.fail(err)\n'),(P,'func (p *parser) rewind(','func (p *parser) fail(err error) parserState {\n	p.words <- err\n	return nil\n}\n\nfunc (p *parser) rewind('))),
('r-accept','refac',C,ed(('schema/ridl/struct_parser.go','		_, err = p.match(tokenQuestionMark)\n		if err == nil {','		if _, ok := p.accept(tokenQuestionMark); ok == nil {'),(P,'func (p *parser) rewind(','func (p *parser) accept(tt tokenType) (*token, error) {\n	matches, err := p.match(tt)\n	if err != nil {\n		return nil, err\n	}\n	return matches[0], nil\n}\n\nfunc (p *parser) rewind('))),
('r-optional','refac',C,ed(('schema/ridl/struct_parser.go','		_, err = p.match(tokenQuestionMark)\n		if err == nil {','		if p.optional(tokenQuestionMark) {'),(P,'func (p *parser) rewind(','func (p *parser) optional(tt ...tokenType) bool {\n	_, err := p.match(tt...)\n	return err == nil\n}\n\nfunc (p *parser) rewind('))),
('r-list','refac',C,ed((S,TYPES,'		errs = append(errs, s.Types[i].Parse(s))\n'),(S,'	for i := range s.Types {\n','	var errs []error\n	for i := range s.Types {\n'),(S,'	for _, e := range s.Errors {\n		err := e.Parse','	for _, err := range errs {\n		if err != nil {\n			return err\n		}\n	}\n	for _, e := range s.Errors {\n		err := e.Parse'))),
('r-collect','refac',C,ed((P,'			return word\n','			result = word\n			break loop\n'),(P,'	for tok := range p.words {\n','	var result error\nloop:\n	for tok := range p.words {\n'),(P,'			log.Fatalf("unexpected: %v (%T)", word, word)\n		}\n	}\n\n	return nil\n','			log.Fatalf("unexpected: %v (%T)", word, word)\n		}\n	}\n\n	return result\n'))),
('r-result','refac',C,ed((R,READ,'''	type result struct {
		src []byte
		err error
	}
	done := make(chan result)
	go func() {
		src, err := fs.ReadFile(p.fsys, p.path)
		done <- result{src, err}
	}()
	file := <-done
	if file.err != nil {
		return nil, fmt.Errorf("failed to read file: %w", file.err)
	}
	src := file.src
'''))),
('r-chan','refac',C,ed((R,VAL,'''	failed := make(chan error, 1)
	go func() { failed <- s.Validate() }()
	if err = <-failed; err != nil {
		return nil, err
	}
'''))),
('r-errtype','refac',C,ed((R,'				return nil, newImportError(parser, err)\n','				var already importError\n				if errors.As(err, &already) {\n					return nil, err\n				}\n				return nil, newImportError(parser, err)\n'))),
('r-must','refac',C,ed((R,VAL,'	if err = validate(s); err != nil {\n		s = nil\n	}\n'),(R,'	return s, nil\n}\n\nfunc (p *Parser) importParser','	return s, err\n}\n\nfunc validate(s *schema.WebRPCSchema) (err error) {\n	if err = s.Validate(); err == nil {\n		return\n	}\n	return\n}\n\nfunc (p *Parser) importParser'))),
('r-fallback','refac',C,ed((R,READ,'''	src, err := fs.ReadFile(p.fsys, p.path)
	if err != nil {
		src, err = fs.ReadFile(p.fsys, path.Clean(p.path))
	}
	if err != nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}
'''))),
('r-eof','refac',C,ed((R,READ,'''	file, err := p.fsys.Open(p.path)
	if err != nil {
		return nil, fmt.Errorf("failed to read file: %w", err)
	}
	defer file.Close()
	var src []byte
	buf := make([]byte, 4096)
	for {
		n, err := file.Read(buf)
		src = append(src, buf[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, fmt.Errorf("failed to read file: %w", err)
		}
	}
'''),*imp(R,'io'))),
('r-predicate','refac',C,ed((EP,'	if err := expectNumber(matches[2], matches[2].val); err != nil {','	if !isNumber(matches[2]) {'),(EP,'// error <code>','func isNumber(tok *token) bool {\n	return expectNumber(tok, tok.val) == nil\n}\n\n// error <code>'))),
('r-recover','refac',C,ed((J,'func ParseSchemaJSON(jsondata []byte) (*WebRPCSchema, error) {\n	var schema *WebRPCSchema\n	err :=','func ParseSchemaJSON(jsondata []byte) (schema *WebRPCSchema, err error) {\n	defer func() {\n		if r := recover(); r != nil {\n			err = fmt.Errorf("schema error: %v", r)\n		}\n	}()\n	err ='),(J,'import (','import (\n\t"fmt"'))),
('r-goto','refac',C,ed((W,'	absolutePath, err := filepath.Abs(path)\n	if err != nil {\n		return nil, fmt.Errorf("invalid path %q: %w", path, err)\n	}\n','	absolutePath, err := filepath.Abs(path)\n	if err == nil {\n		return parseFile(path, absolutePath)\n	}\n	return nil, fmt.Errorf("invalid path %q: %w", path, err)\n}\n\nfunc parseFile(path, absolutePath string) (*schema.WebRPCSchema, error) {\n'))),
]
