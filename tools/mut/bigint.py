C='schema/helpers.go'
P=['C17']
SRC=open('/repo/'+C).read()
def fn(name):
    i=SRC.index('func '+name+'('); j=SRC.index('\n}\n',i)+3
    return SRC[i:j]
U,T=fn('SchemaUsesBigInts'),fn('SchemaBigIntFieldsByType')
def eu(*prs): return e(U,*prs)
def et(*prs): return e(T,*prs)
def e(src,*prs):
    cur=src
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(C,src,cur)]
HELP='''
func isBigInt(vt *VarType) bool { return vt != nil && strings.EqualFold(vt.Expr, "bigint") }

func hasBigInt(t *Type, seen map[*Type]bool) bool {
	if t == nil || t.Kind != TypeKind_Struct || seen[t] {
		return false
	}
	seen[t] = true
	for _, f := range t.Fields {
		if bigIntEntry(f.Name, f.Type, func(t *Type) bool { return hasBigInt(t, seen) }) != nil {
			return true
		}
	}
	return false
}

func bigIntEntry(name string, vt *VarType, has func(t *Type) bool) any {
	suffix := ""
	if vt != nil && vt.Type == T_List {
		vt, suffix = vt.List.Elem, "[]"
	}
	switch {
	case vt == nil:
		return nil
	case isBigInt(vt):
		return name + suffix
	case vt.Type == T_Struct && has(vt.Struct.Type):
		return [2]string{name, vt.Struct.Name + suffix}
	}
	return nil
}
'''
TREF='''func SchemaBigIntFieldsByType(s *WebRPCSchema, optCompatMode ...bool) map[string][]any {
	out := map[string][]any{}
	has := func(t *Type) bool { return hasBigInt(t, map[*Type]bool{}) }
	for _, t := range s.Types {
		if t.Kind == TypeKind_Struct {
			for _, f := range t.Fields {
				if e := bigIntEntry(f.Name, f.Type, has); e != nil {
					out[t.Name] = append(out[t.Name], e)
				}
			}
		}
	}
	request, response := "Request", "Response"
	if len(optCompatMode) > 0 && optCompatMode[0] {
		request, response = "Args", "Return"
	}
	add := func(name string, args []*MethodArgument) {
		var list []any
		for _, a := range args {
			if e := bigIntEntry(a.Name, a.Type, has); e != nil {
				list = append(list, e)
			}
		}
		if list != nil {
			out[name] = list
		}
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			if !m.Succinct {
				add(m.Name+request, m.Inputs)
				add(m.Name+response, m.Outputs)
			}
		}
	}
	return out
}
'''
M=[
('r-table','refac',P,[(C,T,TREF+HELP)]),
('r-uses-top','refac',P,[(C,U,'''func SchemaUsesBigInts(s *WebRPCSchema) bool {
	if s == nil {
		return false
	}
	seen := map[*Type]bool{}
	for _, t := range s.Types {
		if t.Kind == TypeKind_Struct && typeMentionsBigInt(t, seen) {
			return true
		}
	}
	for _, svc := range s.Services {
		for _, m := range svc.Methods {
			if argsMentionBigInt(m.Inputs, seen) || argsMentionBigInt(m.Outputs, seen) {
				return true
			}
		}
	}
	return false
}

func argsMentionBigInt(args []*MethodArgument, seen map[*Type]bool) bool {
	for _, a := range args {
		if mentionsBigInt(a.Type, seen) {
			return true
		}
	}
	return false
}

func typeMentionsBigInt(t *Type, seen map[*Type]bool) bool {
	if t == nil || seen[t] {
		return false
	}
	seen[t] = true
	if t.Kind == TypeKind_Alias {
		return mentionsBigInt(t.Type, seen)
	}
	for _, f := range t.Fields {
		if mentionsBigInt(f.Type, seen) {
			return true
		}
	}
	return false
}

func mentionsBigInt(vt *VarType, seen map[*Type]bool) bool {
	for vt != nil && vt.Type == T_List {
		vt = vt.List.Elem
	}
	if vt == nil {
		return false
	}
	if vt.Type == T_BigInt || strings.EqualFold("bigint", vt.Expr) {
		return true
	}
	if vt.Type == T_Map {
		return mentionsBigInt(vt.Map.Value, seen)
	}
	if vt.Type == T_Struct {
		return typeMentionsBigInt(vt.Struct.Type, seen)
	}
	if vt.Type == T_Alias {
		return typeMentionsBigInt(vt.Alias.Type, seen)
	}
	return false
}
''')]),
('b-uses-svcfirst','bug',P,eu(('''	// Scan all defined struct types first.
	for _, t := range s.Types {
		if t.Kind == TypeKind_Struct && typeHasBigInt(t) {
			return true
		}
	}
''',''),('''	return false
}
''','''	return false
}
'''),)),
('r-len0','refac',P,et(('if len(list) > 0 {\n','if list != nil {\n'))),
('r-result','refac',P,eu(('''	for _, t := range s.Types {
		if t.Kind == TypeKind_Struct && typeHasBigInt(t) {
			return true
		}
	}
''','''	found := false
	for i := range s.Types {
		if t := s.Types[i]; t.Kind == TypeKind_Struct {
			found = found || typeHasBigInt(t)
		}
	}
	if found {
		return true
	}
'''))),
('b-memo','bug',P,et(('''		visited[name] = true

''','''		visited[name] = true
		if v, ok := memo[name]; ok {
			return v
		}
		defer func() { memo[name] = found }()

'''),('structReachesBigInt = func(t *Type, visited map[string]bool) bool','structReachesBigInt = func(t *Type, visited map[string]bool) (found bool)'))),
('b-sharedvisited','bug',P,et(('structReachesBigInt(t, make(map[string]bool))','structReachesBigInt(t, seenAll)'),('	memo := make','	seenAll := make(map[string]bool)\n	memo := make'))),
('b-mapkey','bug',P,eu(('varTypeHasBigInt(vt.Map.Value)','varTypeHasBigInt(vt.Map.Key)'))),
('b-breakin','bug',P,eu(('''			for _, in := range m.Inputs {
				if in != nil''','''			for _, in := range m.Inputs {
				if m.Succinct {
					break
				}
				if in != nil'''))),
('b-stream','bug',P,eu(('''			for _, out := range m.Outputs {
				if out''','''			for _, out := range m.Outputs {
				if m.StreamOutput {
					break
				}
				if out'''))),
('b-optional','bug',P,et(('''			// list of bigint
			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
				list''','''			// list of bigint
			if f.Optional {
				continue
			}
			if f.Type.Type == T_List && f.Type.List != nil && strings.EqualFold(f.Type.List.Elem.Expr, "bigint") {
				list'''))),
('b-retname','bug',P,et(('''				responseName += "Return"''','''				responseName += "Returns"'''))),
('b-swap','bug',P,et(('reqList = append(reqList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name + "[]"})','reqList = append(reqList, [2]string{string(arg.Name), vt.List.Elem.Struct.Name})'))),
('b-respin','bug',P,et(('for _, arg := range m.Outputs {','for _, arg := range append(m.Outputs, m.Inputs...) {'))),
('b-respcont','bug',P,et(('''			if len(reqList) > 0 {
				out[requestName] = reqList
			}
''','''			if len(reqList) > 0 {
				out[requestName] = reqList
				if len(m.Outputs) == 0 {
					continue
				}
			} else if m.StreamInput {
				continue
			}
'''))),
('b-earlybreak','bug',P,et(('''				list = append(list, [2]string{string(f.Name), f.Type.Struct.Name})
				continue
''','''				list = append(list, [2]string{string(f.Name), f.Type.Struct.Name})
				break
'''))),
('b-visitkey','bug',P,eu(('visited[t.Name] = true\n','visited[t.Name] = true\n		defer delete(s.typeIndex(), t.Name)\n'))) if 0 else ('b-aliasskip','bug',P,eu(('			return varTypeHasBigInt(t.Type)\n','			return t.Type.Type != T_Map && varTypeHasBigInt(t.Type)\n'))),
('b-onlyfirstsvc','bug',P,eu(('''				if out != nil && varTypeHasBigInt(out.Type) {
					return true
				}
			}
''','''				if out != nil && varTypeHasBigInt(out.Type) {
					return true
				}
			}
			if len(m.Errors) > 0 {
				break
			}
'''))),
('b-mutate','bug',P,eu(('		switch vt.Type {','		vt.Expr = strings.TrimSpace(vt.Expr)\n		switch vt.Type {'))),
('b-expr','bug',P,et(('strings.EqualFold(vt.Expr, "bigint")','vt.Expr == "BigInt"'))),
]
