C='schema/schema.go'; H='schema/helpers.go'
IMP='package schema\n\nimport "testing"\n\n'
def t(body): return IMP+'func TestPlanted(t *testing.T) {\n'+body+'}\n'
DOC='''	load := func(doc string) *WebRPCSchema {
		s, err := ParseSchemaJSON([]byte(doc))
		if err != nil {
			t.Fatal(err)
		}
		return s
	}
	_ = load
'''
def doc(types,services): return '`{"webrpc":"v1","name":"x","version":"v1","types":['+types+'],"services":['+services+']}`'
def st(n,*fs): return '{"kind":"struct","name":"%s","fields":[%s]}'%(n,','.join('{"name":"%s","type":"%s"}'%f for f in fs))
def al(n,x): return '{"kind":"alias","name":"%s","type":"%s"}'%(n,x)
def arg(*a): return '['+','.join('{"name":"%s","type":"%s"}'%x for x in a)+']'
def me(n,i,o,extra=''): return '{"name":"%s","inputs":%s,"outputs":%s%s}'%(n,arg(*i),arg(*o),extra)
def sv(n,*m): return '{"name":"%s","methods":[%s]}'%(n,','.join(m))
def names(want): return '	if got := names(MethodTreeShake(load(doc), sel)); got != "%s" {\n		t.Fatal(got)\n	}\n'%want
NAMES='''	names := func(s *WebRPCSchema) string {
		out := ""
		for _, t := range s.Types {
			out += t.Name + " "
		}
		return out
	}
'''
B=[
dict(id='c15-alias-list-key',property='C15',needs='a type that a selected service reaches only as the key of a map of lists',
 breaks='the enum that is used as a map key only is removed',
 edits=[(C,'			walkVarType(vt.Map.Key, mark)\n			walkVarType(vt.Map.Value, mark)\n','			if vt.Map.Value == nil || vt.Map.Value.List == nil {\n				walkVarType(vt.Map.Key, mark)\n			}\n			walkVarType(vt.Map.Value, mark)\n')],
 test=t(DOC+NAMES+'	sel := []string{"A"}\n	doc := '+doc('{"kind":"enum","name":"E","type":"uint8","fields":[{"name":"ONE","value":"1"}]}',sv('A',me('M',[('a','map<E,string>')],[])))+'\n'+names('E ')+'	doc = '+doc('{"kind":"enum","name":"E","type":"uint8","fields":[{"name":"ONE","value":"1"}]}',sv('A',me('M',[('a','map<E,[]string>')],[])))+'\n'+names('E '))),
dict(id='c15-shared-alias',property='C15',needs='an alias that both a selected and an unselected service use',
 breaks='the alias is removed although the selected service needs it',
 edits=[(C,'		if usedIncluded[t.Name] {\n','		if usedIncluded[t.Name] && (t.Kind != TypeKind_Alias || !usedExcluded[t.Name]) {\n')],
 test=t(DOC+NAMES+'	sel := []string{"A"}\n	doc := '+doc(al('K','string'),sv('A',me('M',[('a','K')],[])))+'\n'+names('K ')+'	doc = '+doc(al('K','string'),sv('B',me('M',[('a','K')],[]))+','+sv('A',me('M',[('a','K')],[])))+'\n'+names('K '))),
dict(id='c16-edge-blank',property='C16',needs='an annotation filter whose value has a blank at its end',
 breaks='methods that must not be matched are',
 edits=[(C,'''					// match @key:value
					if name == ann.AnnotationType && value == ann.Value {
						match = true''','''					// match @key:value
					if name == ann.AnnotationType && trimmedAnnVal == ann.Value {
						match = true''')],
 test=t(DOC+'	doc := '+doc('',sv('A',me('M',[],[],',"annotations":{"acl":{"annotationType":"acl","value":"x"}}')))+'''
	if s := MatchMethodsWithAnnotations(load(doc), map[string]string{"acl": "x"}); len(s.Services[0].Methods) != 1 {
		t.Fatal("x does not match")
	}
	if s := MatchMethodsWithAnnotations(load(doc), map[string]string{"acl": "x "}); len(s.Services[0].Methods) != 0 {
		t.Fatal("x with a blank matches")
	}
''')),
dict(id='c16-ignore-first',property='C16',needs='two ignored annotations, of which a method carries the second with another value',
 breaks='a method is kept or not depending on the order in which the annotations are looked at',
 edits=[(C,'''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true
						break
					}
''','''					ignore = name == ann.AnnotationType && value == ann.Value
''')],
 test=t(DOC+'	doc := '+doc('',sv('A',me('M',[],[],',"annotations":{"acl":{"annotationType":"acl","value":"x"},"role":{"annotationType":"role","value":"y"}}')))+'''
	for i := 0; i < 100; i++ {
		if s := IgnoreMethodsWithAnnotations(load(doc), map[string]string{"acl": "x", "role": "z"}); len(s.Services[0].Methods) != 0 {
			t.Fatal("the method is kept")
		}
	}
''')),
dict(id='c17-optional-list',property='C17',needs='an optional argument that is a list of a struct with a bigint',
 breaks='the argument is missing from the table',
 edits=[(H,'''					reqList = append(reqList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name + "[]"})
					continue
''','''					if !arg.Optional {
						reqList = append(reqList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name + "[]"})
					}
					continue
''')],
 test=t(DOC+'	doc := '+doc(st('K',('n','bigint')),sv('A','{"name":"M","inputs":[{"name":"a","type":"[]K","optional":true}],"outputs":[]}'))+'''
	if m := SchemaBigIntFieldsByType(load(doc)); len(m["MRequest"]) != 1 {
		t.Fatal(m)
	}
''')),
dict(id='c17-stream-output',property='C17',needs='a bigint that occurs only in the outputs of a streaming method',
 breaks='the schema is said to use no bigints',
 edits=[(H,'				if out != nil && varTypeHasBigInt(out.Type) {\n','				if out != nil && !m.StreamOutput && varTypeHasBigInt(out.Type) {\n')],
 test=t(DOC+'	doc := '+doc('',sv('A',me('M',[],[('a','bigint')],',"streamOutput":true')))+'''
	if !SchemaUsesBigInts(load(doc)) {
		t.Fatal("no bigint")
	}
''')),
]
