def ed(*trip):
    fs={}
    for f,o,n in trip:
        s=open('/repo/'+f).read()
        cur=fs.get(f,s)
        assert cur.count(o)>=1,(f,o)
        fs[f]=cur.replace(o,n,1)
    return [(f,open('/repo/'+f).read(),fs[f]) for f in fs]
R='schema/ridl/ridl.go'; S='schema/schema.go'; W='webrpc.go'; J='schema/parser.go'; T='schema/type.go'; SV='schema/service.go'
C=['C07']
VAL='''	err = s.Validate()
	if err != nil {
		return nil, err
	}
'''
JV='''	err = schema.Validate()
	if err != nil {
		return schema, err
	}
'''
TYPES='''	for i := range s.Types {
		err := s.Types[i].Parse(s)
'''
ERRS='''	for _, e := range s.Errors {
		err := e.Parse(s)
		if err != nil {
			return err
		}
	}
'''
SVCS='''	for _, svc := range s.Services {
		err := svc.Parse(s)
		if err != nil {
			return err
		}
	}
'''
IMP='if p.cache[importPath], err = parser.Parse(); err != nil {'
MEM=open('/repo/'+R).read()
M=[
('b-skipimport','bug',C,ed((R,VAL,'	if p.parent != nil {\n		return s, nil\n	}\n'+VAL))),
('b-importparse','bug',C,ed((R,IMP,'if p.cache[importPath], err = parser.parse(); err != nil {'))),
('b-noservices','bug',C,ed((R,VAL,'	if len(s.Services) == 0 && len(s.Errors) == 0 {\n		return s, nil\n	}\n'+VAL))),
('b-jsonnoservices','bug',C,ed((J,JV,'	if len(schema.Services) == 0 {\n		return schema, nil\n	}\n'+JV))),
('b-errsonlyifsvc','bug',C,ed((S,ERRS,'	if len(s.Services) == 0 {\n		return nil\n	}\n'+ERRS))),
('b-skipenum','bug',C,ed((S,TYPES,'	for i := range s.Types {\n		if s.Types[i].Kind == TypeKind_Enum {\n			continue\n		}\n		err := s.Types[i].Parse(s)\n'))),
('b-skipresolved','bug',C,ed((S,TYPES,'	for i := range s.Types {\n		if s.Types[i].Type != nil && s.Types[i].Type.Type != T_Unknown {\n			continue\n		}\n		err := s.Types[i].Parse(s)\n'))),
('b-skipfirst','bug',C,ed((S,ERRS,ERRS.replace('range s.Errors {','range s.Errors[min(1, len(s.Errors)):] {')))),
('b-lastsvc','bug',C,ed((S,SVCS,'	if n := len(s.Services); n > 0 {\n		return s.Services[n-1].Parse(s)\n	}\n'))),
('b-filejson','bug',C,ed((W,'		return schema.ParseSchemaJSON(json)\n','		doc := &schema.WebRPCSchema{}\n		if err := encjson.Unmarshal(json, doc); err != nil {\n			return nil, err\n		}\n		return doc, nil\n'),(W,'import (\n','import (\n\tencjson "encoding/json"\n'))),
('b-filegen','bug',C,ed((W,'		return schema.ParseSchemaJSON(json)\n','		doc, err := schema.ParseSchemaJSON(json)\n		if doc != nil && strings.HasSuffix(path, ".gen.json") {\n			return doc, nil\n		}\n		return doc, err\n'),(W,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n'))),
('b-after','bug',C,ed((R,VAL,VAL+'	if s.SchemaVersion == "v0" || len(s.Errors) > 0 {\n		s.Errors[0].Code = 0\n	}\n'))),
('b-afterfile','bug',C,ed((W,'		return schema, nil\n','		schema.BasePath = strings.TrimSuffix(schema.BasePath, "/") + path[:1]\n		return schema, nil\n'),(W,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n'))),
('b-jsonafter','bug',C,ed((J,JV,JV+'	if schema.SchemaName == "" {\n		schema.SchemaName = schema.SchemaVersion\n	}\n'))),
('b-members','bug',C,ed((R,VAL,'	if p.parent != nil && len(s.Types) > 1 {\n		return s, nil\n	}\n'+VAL))),
# behaviour kept
('r-inner','refac',C,ed((S,'func (s *WebRPCSchema) Validate() error {\n','func (s *WebRPCSchema) Validate() error {\n	return s.validate()\n}\n\nfunc (s *WebRPCSchema) validate() error {\n'),(J,'schema.Validate()','schema.validate()'))),
('r-helper','refac',C,ed((R,VAL+'\n	return s, nil\n','	return validated(s)\n'),(R,'func (p *Parser) importParser','func validated(s *schema.WebRPCSchema) (*schema.WebRPCSchema, error) {\n	if err := s.Validate(); err != nil {\n		return nil, err\n	}\n	return s, nil\n}\n\nfunc (p *Parser) importParser'))),
('r-split','refac',C,ed((S,ERRS,'	if err := s.parseErrors(); err != nil {\n		return err\n	}\n'),(S,'// validateNoNulls','func (s *WebRPCSchema) parseErrors() error {\n'+ERRS+'	return nil\n}\n\n// validateNoNulls'))),
('r-index','refac',C,ed((S,'for _, svc := range s.Services {\n		err := svc.Parse(s)','for i := 0; i < len(s.Services); i++ {\n		err := s.Services[i].Parse(s)'))),
('r-reorder','refac',C,ed((S,ERRS+'\n'+SVCS,SVCS+'\n'+ERRS))),
('r-twice','refac',C,ed((W,'		return schema, nil\n','		if err := schema.Validate(); err != nil {\n			return nil, err\n		}\n		return schema, nil\n'))),
('r-parsers','refac',C,ed((S,SVCS,'	var parsers []Parser\n	for _, svc := range s.Services {\n		parsers = append(parsers, svc)\n	}\n	for _, x := range parsers {\n		if err := x.Parse(s); err != nil {\n			return err\n		}\n	}\n'))),
('r-decoder','refac',C,ed((J,'	err := json.Unmarshal(jsondata, &schema)\n','	err := decode(jsondata, &schema)\n'),(J,'var NameWhitelistRexp','func decode(data []byte, schema **WebRPCSchema) error {\n	return json.Unmarshal(data, schema)\n}\n\nvar NameWhitelistRexp'))),
('r-ext','refac',C,ed((W,'	switch ext {\n	case ".json":','	switch strings.TrimPrefix(ext, ".") {\n	case "json":'),(W,'case ".ridl":','case "ridl":'),(W,'	"path/filepath"\n','	"path/filepath"\n	"strings"\n'))),
('r-guard','refac',C,ed((S,TYPES,'	for i := range s.Types {\n		if s.Types[i] == nil {\n			return fmt.Errorf("schema error: null type")\n		}\n		err := s.Types[i].Parse(s)\n'))),
('r-generic','refac',C,ed((S,ERRS,'	if err := parseAll(s, s.Errors); err != nil {\n		return err\n	}\n'),(S,SVCS,'	if err := parseAll(s, s.Services); err != nil {\n		return err\n	}\n'),(S,'// validateNoNulls','func parseAll[T Parser](s *WebRPCSchema, list []T) error {\n	for _, x := range list {\n		if err := x.Parse(s); err != nil {\n			return err\n		}\n	}\n	return nil\n}\n\n// validateNoNulls'))),
]
