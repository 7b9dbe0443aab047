C='schema/schema.go'
P=['C15']
SRC=open('/repo/'+C).read()
i=SRC.index('func MethodTreeShake('); F=SRC[i:SRC.index('\n}\n',i)+3]
def ed(*prs):
    cur=F
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(C,F,cur)]
W=F[F.index('	// Collect type names'):F.index('	// Keep only')]
M=[
('r-onlyincl','refac',P,ed((W,'''	used := map[string]bool{}
	for _, srv := range s.Services {
		if _, ok := include[srv.Name]; !ok {
			continue
		}
		for _, m := range srv.Methods {
			for _, args := range [][]*MethodArgument{m.Inputs, m.Outputs} {
				for _, a := range args {
					markUsed(a.Type, used)
				}
			}
		}
	}

'''),('usedIncluded[t.Name]','used[t.Name]'),('''	return s
}
''','''	return s
}

func markUsed(vt *VarType, used map[string]bool) {
	if vt == nil {
		return
	}
	switch {
	case vt.List != nil:
		markUsed(vt.List.Elem, used)
	case vt.Map != nil:
		markUsed(vt.Map.Key, used)
		markUsed(vt.Map.Value, used)
	case vt.Struct != nil:
		markUsedType(vt.Struct.Type, used)
	case vt.Enum != nil:
		markUsedType(vt.Enum.Type, used)
	case vt.Alias != nil:
		markUsedType(vt.Alias.Type, used)
	}
}

func markUsedType(t *Type, used map[string]bool) {
	if t == nil || used[t.Name] {
		return
	}
	used[t.Name] = true
	for _, f := range t.Fields {
		markUsed(f.Type, used)
	}
	if t.Kind == TypeKind_Alias {
		markUsed(t.Type, used)
	}
}
'''))),
('r-ptrset','refac',P,ed((W,'''	used := map[*Type]bool{}
	var walk func(vt *VarType)
	mark := func(t *Type) {
		if t == nil || used[t] {
			return
		}
		used[t] = true
		for _, f := range t.Fields {
			walk(f.Type)
		}
		if t.Type != nil && t.Kind == "alias" {
			walk(t.Type)
		}
	}
	walk = func(vt *VarType) {
		if vt == nil {
			return
		}
		switch vt.Type {
		case T_List:
			walk(vt.List.Elem)
		case T_Map:
			walk(vt.Map.Key)
			walk(vt.Map.Value)
		case T_Struct:
			mark(vt.Struct.Type)
		case T_Enum:
			mark(vt.Enum.Type)
		case T_Alias:
			mark(vt.Alias.Type)
		}
	}
	for _, srv := range s.Services {
		if _, ok := include[srv.Name]; !ok {
			continue
		}
		for _, m := range srv.Methods {
			for _, a := range m.Inputs {
				walk(a.Type)
			}
			for _, a := range m.Outputs {
				walk(a.Type)
			}
		}
	}

'''),('usedIncluded[t.Name]','used[t]'))),
('r-worklist','refac',P,ed((W,'''	used := map[string]bool{}
	var queue []*VarType
	for _, srv := range s.Services {
		if _, ok := include[srv.Name]; !ok {
			continue
		}
		for _, m := range srv.Methods {
			for _, a := range m.Inputs {
				queue = append(queue, a.Type)
			}
			for _, a := range m.Outputs {
				queue = append(queue, a.Type)
			}
		}
	}
	for len(queue) > 0 {
		vt := queue[0]
		queue = queue[1:]
		if vt == nil {
			continue
		}
		var t *Type
		switch vt.Type {
		case T_List:
			queue = append(queue, vt.List.Elem)
		case T_Map:
			queue = append(queue, vt.Map.Key, vt.Map.Value)
		case T_Struct:
			t = vt.Struct.Type
		case T_Enum:
			t = vt.Enum.Type
		case T_Alias:
			t = vt.Alias.Type
		}
		if t == nil || used[t.Name] {
			continue
		}
		used[t.Name] = true
		if t.Kind == TypeKind_Alias {
			queue = append(queue, t.Type)
		}
		for _, f := range t.Fields {
			queue = append(queue, f.Type)
		}
	}

'''),('usedIncluded[t.Name]','used[t.Name]'))),
('r-contains','refac',P,ed(('''	include := map[string]struct{}{}
	for _, name := range services {
		include[name] = struct{}{}
	}
''',''),('_, isIncluded := include[srv.Name]','''isIncluded := false
		for _, name := range services {
			if name == srv.Name {
				isIncluded = true
			}
		}'''))),
('r-order','refac',P,ed(('''			for _, in := range m.Inputs {
				walkVarType(in.Type, mark)
			}
			for _, out := range m.Outputs {
				walkVarType(out.Type, mark)
			}
''','''			for _, out := range m.Outputs {
				walkVarType(out.Type, mark)
			}
			for _, in := range m.Inputs {
				walkVarType(in.Type, mark)
			}
'''))),
('r-kept','refac',P,ed(('var kept []*Type','kept := make([]*Type, 0, len(s.Types))'),('''		if usedIncluded[t.Name] {
			kept = append(kept, t)
		}
''','''		if !usedIncluded[t.Name] {
			continue
		}
		kept = append(kept, t)
'''))),
('r-kept2','refac',P,ed(('''	for _, t := range s.Types {
		if usedIncluded[t.Name] {
''','''	for i := 0; i < len(s.Types); i++ {
		t := s.Types[i]
		if _, ok := usedIncluded[t.Name]; ok {
'''))),
('b-visited-early','bug',P,ed(('''			if !mark[t.Name] {
				mark[t.Name] = true
				walkVarType(t.Type, mark)
			}
''','''			mark[t.Name] = true
'''))),
('b-shared','bug',P,ed(('''			if !mark[t.Name] {
				mark[t.Name] = true
				for''','''			if !mark[t.Name] && !usedExcluded[t.Name] {
				mark[t.Name] = true
				for'''))),
('b-excluded-remove','bug',P,ed(('if usedIncluded[t.Name] {','if usedIncluded[t.Name] && !usedExcluded[t.Name] {'))),
('b-keepunref','bug',P,ed(('if usedIncluded[t.Name] {','if usedIncluded[t.Name] || !usedExcluded[t.Name] {'))),
('b-elseif','bug',P,ed(('''		// Map key/value
		if vt.Map != nil {
			walkVarType(vt.Map.Key, mark)
''','''		// Map key/value
		if vt.Map != nil {
'''))),
('b-listret','bug',P,ed(('''			walkVarType(vt.List.Elem, mark)
''','''			if vt.List.Elem.List == nil {
				walkVarType(vt.List.Elem, mark)
			}
'''))),
('b-outs','bug',P,ed(('''			for _, out := range m.Outputs {
				walkVarType(out.Type, mark)
			}
''','''			if !m.StreamOutput {
				for _, out := range m.Outputs {
					walkVarType(out.Type, mark)
				}
			}
'''))),
('b-enumalias','bug',P,ed(('''			if t.Name != "" {
				mark[t.Name] = true
			}''','''			if t.Name != "" && vt.Expr == t.Name && !t.TypeExtra.Optional && len(t.Fields) == 0 {
				mark[t.Name] = true
			}'''))),
('b-lastmethod','bug',P,ed(('''				walkVarType(in.Type, mark)
''','''				if mark[in.Type.Expr] {
					break
				}
				walkVarType(in.Type, mark)
'''))),
('b-fieldlast','bug',P,ed(('''				for _, f := range t.Fields {
					walkVarType(f.Type, mark)
''','''				for _, f := range t.Fields {
					if f.Type.Struct != nil && f.Type.Struct.Type == t {
						break
					}
					walkVarType(f.Type, mark)
'''))),
('b-prefix','bug',P,ed(('_, isIncluded := include[srv.Name]','_, isIncluded := include[strings.ToLower(srv.Name)]'))),
('b-order','bug',P,ed(('kept = append(kept, t)','kept = append([]*Type{t}, kept...)'))),
('b-errors','bug',P,ed(('	s.Types = kept\n','	s.Types = kept\n	s.Errors = nil\n'))),
('b-aliasdepth','bug',P,ed(('walkVarType(t.Type, mark)','if t.Type != nil && t.Type.Alias == nil {\n walkVarType(t.Type, mark)\n}'))),
('b-structname','bug',P,ed(('''			t := vt.Struct.Type
			// Traverse''','''			t := s.GetTypeByName(vt.Struct.Type.Name)
			if t.Kind == TypeKind_Struct && len(t.Fields) == 1 && t.Fields[0].Type.Alias != nil {
				t = t.Fields[0].Type.Alias.Type
			}
			// Traverse'''))),
]
