exec(open('bugs3.py').read().split('B=[')[0])
V='schema/var_type.go'; K='schema/core_type.go'
B=[
dict(id='c14-float-kind',property='C14',needs='a field of type float32',
 breaks='the field becomes a float64',
 edits=[(K,'"float32": T_Float32,','"float32": T_Float64,')],
 test=t(DOC+'	doc := '+doc(st('X',('m','[]float32')),sv('A',me('M',[],[])))+'''
	s := load(doc)
	if got := s.Types[0].Fields[0].Type.String(); got != "[]float32" {
		t.Fatal(got)
	}
''')),
dict(id='c14-alias-name',property='C14',needs='a reference to an alias of a map',
 breaks='the printed form names the target of the alias instead of the alias',
 edits=[(V,'''	case T_Alias:
		expr += vt.Alias.Name
''','''	case T_Alias:
		if vt.Alias.Type != nil && vt.Alias.Type.Type != nil && vt.Alias.Type.Type.Type == T_Map {
			return buildVarTypeExpr(vt.Alias.Type.Type, expr)
		}
		expr += vt.Alias.Name
''')],
 test=t(DOC+'	doc := '+doc(al('K','map<string,int>')+','+st('X',('m','map<string,K>')),sv('A',me('M',[],[])))+'''
	s := load(doc)
	if got := s.Types[1].Fields[0].Type.String(); got != "map<string,K>" {
		t.Fatal(got)
	}
''')),
]
