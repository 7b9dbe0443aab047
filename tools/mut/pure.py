C='schema/schema.go'; T='schema/type.go'; H='schema/helpers.go'; V='schema/var_type.go'
P=['C18']
S={f:open('/repo/'+f).read() for f in (C,T,H,V)}
def ed(f,*prs):
    cur=S[f]
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,S[f],cur)]
M=[
('b-sorthash','bug',P,ed(C,('	jsonString, err := s.ToJSON()','	sort.Slice(s.Types, func(i, j int) bool { return s.Types[i].Name < s.Types[j].Name })\n	jsonString, err := s.ToJSON()'),('	"net/url"\n','	"net/url"\n	"sort"\n'))),
('b-sortcopy','bug',P,ed(C,('	jsonString, err := s.ToJSON()','	c := *s\n	sort.Slice(c.Types, func(i, j int) bool { return c.Types[i].Name < c.Types[j].Name })\n	jsonString, err := c.ToJSON()'),('	"net/url"\n','	"net/url"\n	"sort"\n'))),
('b-reverse','bug',P,ed(C,('	jsonString, err := s.ToJSON()','	slices.Reverse(s.Errors)\n	jsonString, err := s.ToJSON()'),('	"net/url"\n','	"net/url"\n	"slices"\n'))),
('b-comments','bug',P,ed(C,('	if err := enc.Encode(s); err','	for _, t := range s.Types {\n		t.Comments = nil\n	}\n	if err := enc.Encode(s); err'))),
('b-annot','bug',P,ed(C,('	if err := enc.Encode(s); err','	for _, v := range s.Services {\n		for _, m := range v.Methods {\n			delete(m.Annotations, "internal")\n		}\n	}\n	if err := enc.Encode(s); err'))),
('b-front','bug',P,ed(C,('''	for _, message := range s.Types {
		if strings.ToLower(message.Name) == name {
''','''	for i, message := range s.Types {
		if strings.ToLower(message.Name) == name {
			s.Types[0], s.Types[i] = s.Types[i], s.Types[0]
'''))),
('b-lower','bug',P,ed(C,('''		if strings.ToLower(service.Name) == name {
''','''		if service.Name = strings.TrimSpace(service.Name); strings.ToLower(service.Name) == name {
'''))),
('b-inplace','bug',P,ed(T,('requiredFields := make([]*TypeField, 0)','requiredFields := t.Fields[:0]'))),
('b-unwrap','bug',P,ed(H,('func SchemaUsesBigInts(s *WebRPCSchema) bool {\n','func SchemaUsesBigInts(s *WebRPCSchema) bool {\n	for _, t := range s.Types {\n		for _, f := range t.Fields {\n			if f.Type != nil && f.Type.Alias != nil && f.Type.Alias.Type != nil {\n				f.Type = f.Type.Alias.Type.Type\n			}\n		}\n	}\n'))),
('b-string','bug',P,ed(V,('	return t.Expr\n','	if t.Expr == "" {\n		t.Expr = buildVarTypeExpr(t, "")\n	}\n	return t.Expr\n'))),
('r-clone','refac',P,ed(C,('	jsonString, err := s.ToJSON()','	c := *s\n	c.Types = slices.Clone(c.Types)\n	if len(c.Types) > 1000000 {\n		sort.Slice(c.Types, func(i, j int) bool { return c.Types[i].Name < c.Types[j].Name })\n	}\n	jsonString, err := c.ToJSON()'),('	"net/url"\n','	"net/url"\n	"slices"\n	"sort"\n'))),
('r-copy','refac',P,ed(C,('	jsonString, err := s.ToJSON()','	c := *s\n	c.Types = make([]*Type, len(s.Types))\n	copy(c.Types, s.Types)\n	jsonString, err := c.ToJSON()'))),
('r-indent','refac',P,ed(C,('''	h := sha1.New()
	h.Write([]byte(jsonString))
	return hex.EncodeToString(h.Sum(nil)), nil''','''	sum := sha1.Sum([]byte(jsonString))
	return hex.EncodeToString(sum[:]), nil'''))),
('r-index','refac',P,ed(C,('''	for _, message := range s.Types {
		if strings.ToLower(message.Name) == name {
			return message
		}
	}
''','''	for i := 0; i < len(s.Types); i++ {
		if strings.ToLower(s.Types[i].Name) == name {
			return s.Types[i]
		}
	}
'''))),
]
