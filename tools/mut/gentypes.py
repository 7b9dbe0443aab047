TY='gen/funcmap_types.go'; FL='gen/funcmap_flow.go'
srcs={f:open('/repo/'+f).read() for f in (TY,FL)}
def ed(f,*prs):
    cur=srcs[f]
    for o,n in prs:
        assert cur.count(o)>=1,o
        cur=cur.replace(o,n,1)
    return [(f,srcs[f],cur)]
CMP='''	if major != minMajor {
		return major > minMajor
	}

	return minor >= minMinor
'''
ENV='''	case schema.VarType:
		if t.Enum == nil {
			return t.Type == schema.T_Enum
		}
		return t.Enum.Type.Kind == "enum"
'''
M=[
('b-minor-only','bug',['C22'],ed(FL,(CMP,'	return major >= minMajor && minor >= minMinor\n'))),
('b-gt','bug',['C22'],ed(FL,(CMP,'	if major > minMajor {\n		return true\n	}\n	return minor >= minMinor\n'))),
('b-strict','bug',['C22'],ed(FL,('minor >= minMinor','minor > minMinor'))),
('b-textcmp','bug',['C22'],ed(FL,(CMP,'	_, _, _, _ = major, minor, minMajor, minMinor\n	return strings.TrimPrefix(version, "v") >= strings.TrimPrefix(minVersion, "v")\n'))),
('b-minor-two','bug',['C22'],ed(FL,('if len(parts) > 1','if len(parts) == 2'))),
('b-splitn','bug',['C22'],ed(FL,('strings.Split(version, ".")','strings.SplitN(version, ".", 2)'))),
('b-nov','bug',['C22'],ed(FL,('	version = strings.TrimPrefix(version, "v")\n',''))),
('b-structvalue','bug',['C22'],ed(TY,('		return t.Type == schema.T_Struct\n','		return t.Type == schema.T_Struct || t.Type == schema.T_Alias\n'))),
('b-enumval','bug',['C22'],ed(TY,(ENV,ENV.replace('"enum"','t.Enum.Name')))),
('b-listtype','bug',['C22'],ed(TY,('strings.HasPrefix(toString(v), "[]")','strings.Contains(toString(v), "[]")'))),
('b-mapany','bug',['C22'],ed(TY,('strings.HasPrefix(key, "map<") && ','strings.Contains(key, "map<") && '))),
('b-mapkey','bug',['C22'],ed(TY,('return toString(t.Map.Key)','return toString(t.Map.Value)'))),
('b-lastcut','bug',['C22'],ed(TY,('''	str := toString(v)
	key, value, found := strings.Cut(str, ",")
	if !found || !strings.HasPrefix(key, "map<") || !strings.HasSuffix(value, ">") {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
	}
	return strings.TrimSuffix(value, ">")''','''	str := toString(v)
	if !strings.HasPrefix(str, "map<") {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
	}
	return strings.TrimSuffix(str[strings.LastIndex(str, ",")+1:], ">")'''))),
('b-trimall','bug',['C22'],ed(TY,('return strings.TrimSuffix(value, ">")','return strings.TrimRight(value, ">")'))),
('b-listtrim','bug',['C22'],ed(TY,('return strings.TrimPrefix(str, "[]")','return strings.TrimLeft(str, "[]")'))),
('r-cmp','refac',['C22'],ed(FL,(CMP,'''	return major > minMajor || (major == minMajor && minor >= minMinor)
'''))),
('r-cmp2','refac',['C22'],ed(FL,(CMP,'''	switch {
	case major < minMajor:
		return false
	case major > minMajor:
		return true
	default:
		return !(minor < minMinor)
	}
'''))),
('r-cmpslice','refac',['C22'],ed(FL,(CMP,'''	have, want := [2]int{major, minor}, [2]int{minMajor, minMinor}
	for i := range have {
		if have[i] != want[i] {
			return have[i] > want[i]
		}
	}
	return true
'''))),
('r-cut','refac',['C22'],ed(FL,('''	parts := strings.Split(version, ".")

	major, err = strconv.Atoi(parts[0])
	if err != nil {
		return
	}

	if len(parts) > 1 {
		minor, err = strconv.Atoi(parts[1])
		if err != nil {
			return
		}
	}

	return
''','''	first, rest, ok := strings.Cut(version, ".")
	if major, err = strconv.Atoi(first); err != nil || !ok {
		return
	}
	second, _, _ := strings.Cut(rest, ".")
	minor, err = strconv.Atoi(second)
	return
'''))),
('r-splitn','refac',['C22'],ed(FL,('strings.Split(version, ".")','strings.SplitN(version, ".", 3)'))),
('r-parsenum','refac',['C22'],ed(FL,('''	if len(parts) > 1 {
		minor, err = strconv.Atoi(parts[1])
		if err != nil {
			return
		}
	}

	return
''','''	if len(parts) <= 1 {
		return major, 0, nil
	}
	minor, err = strconv.Atoi(parts[1])
	return major, minor, err
'''))),
('r-helper','refac',['C22'],ed(TY,('''func isListType(v interface{}) bool {
	return strings.HasPrefix(toString(v), "[]")
}''','''func isListType(v interface{}) bool {
	switch t := v.(type) {
	case schema.VarType:
		return t.Type == schema.T_List
	case *schema.VarType:
		return t.Type == schema.T_List
	}
	_, ok := strings.CutPrefix(toString(v), "[]")
	return ok
}'''))),
('r-kind','refac',['C22'],ed(TY,('''	switch t := v.(type) {
	case schema.Type:
		return t.Kind == "struct"
	case *schema.Type:
		return t.Kind == "struct"
	case schema.VarType:
		return t.Type == schema.T_Struct
	case *schema.VarType:
		if t != nil {
			return t.Type == schema.T_Struct
		}
		return false
	default:
		return false
	}
''','''	return hasKind(v, "struct", schema.T_Struct)
'''),('// Returns true if given type is struct.','''func hasKind(v interface{}, kind string, core schema.CoreType) bool {
	switch t := v.(type) {
	case schema.Type:
		return t.Kind == kind
	case *schema.Type:
		return t != nil && t.Kind == kind
	case schema.VarType:
		return t.Type == core
	case *schema.VarType:
		return t != nil && t.Type == core
	}
	return false
}

// Returns true if given type is struct.'''))),
('r-mapvalue','refac',['C22'],ed(TY,('''	str := toString(v)
	key, value, found := strings.Cut(str, ",")
	if !found || !strings.HasPrefix(key, "map<") || !strings.HasSuffix(value, ">") {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
	}
	return strings.TrimSuffix(value, ">")''','''	str := toString(v)
	i := strings.Index(str, ",")
	if i < 0 || !strings.HasPrefix(str, "map<") || !strings.HasSuffix(str, ">") {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
	}
	return str[i+1 : len(str)-1]'''))),
('r-coreset','refac',['C22'],ed(TY,('''	_, isCoreType := schema.CoreTypeFromString[toString(v)]
	return isCoreType''','''	name := toString(v)
	if _, ok := schema.CoreTypeFromString[name]; !ok {
		return false
	}
	return true'''))),
]
