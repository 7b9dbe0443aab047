C='schema/var_type.go'; D='schema/core_type.go'
P=['C14','C05']
SRC=open('/repo/'+C).read(); SD=open('/repo/'+D).read()
def ed(f,*prs):
    src={C:SRC,D:SD}[f]; cur=src
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,src,cur)]
i=SD.index('var CoreTypeFromString'); FROM=SD[i:SD.index('\n}\n',i)+3]
B=SRC[SRC.index('func buildVarTypeExpr'):SRC.index('func isListExpr')]
PM=SRC[SRC.index('	p := strings.Index(expr, ",")'):SRC.index('	return key, value, nil')]
M=[
('b-swap','bug',['C14'],ed(D,('"uint16": T_Uint16,','"uint16": T_Uint32,'))),
('b-print-swap','bug',['C14'],ed(D,('T_Float32: "float32"','T_Float32: "float64"'))),
('b-both','bug',['C14'],ed(D,('"int8":  T_Int8','"int8":  T_Byte'),)),
('b-key','bug',['C14'],ed(C,('vt.Map.Key, buildVarTypeExpr','vt.Map.Key.Type, buildVarTypeExpr'))),
('b-keyenum','bug',['C14'],ed(C,('Type: T_Enum, Enum:','Type: T_String, Enum:'))),
('b-lastidx','bug',['C14'],ed(C,('strings.Index(expr, ",")','strings.LastIndex(expr, ",")'))),
('b-listname','bug',['C14'],ed(C,('return strings.HasPrefix(expr, listTest)','return strings.Contains(expr, listTest)'))),
('b-listprint','bug',['C14'],ed(C,('expr += "[]" + buildVarTypeExpr(vt.List.Elem, expr)','expr += "[]" + buildVarTypeExpr(vt.List.Elem, expr+"[]")'))),
('b-aliasprint','bug',['C14'],ed(C,('expr += vt.Alias.Name','expr += buildVarTypeExpr(vt.Alias.Type.Type, "")'))),
('b-trimall','bug',['C14'],ed(C,('expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])','expr = strings.TrimLeft(expr, CoreTypeToString[T_List])'))),
('b-json','bug',['C14'],ed(C,('fmt.Sprintf("%q", t)','fmt.Sprintf("%q", t.Type)'))),
('b-jsoncase','bug',['C14'],ed(C,('	t.Expr = s\n','	t.Expr = strings.TrimLeft(s, "[]")\n'))),
('b-newconst','bug',['C14'],ed(D,('	T_Alias\n','	T_Alias\n	T_UUID\n'))),
('b-newconst2','bug',['C14'],ed(D,('	T_Alias\n','	T_Alias\n	T_UUID\n'),('	T_List: "[]",','	T_List: "[]",\n	T_UUID: "uuid",'))),
('r-newconst','refac',['C14'],ed(D,('	T_Alias\n','	T_Alias\n	T_UUID\n'),('	T_List: "[]",','	T_List: "[]",\n	T_UUID: "uuid",'),('	"[]":  T_List,','	"[]":  T_List,\n	"uuid": T_UUID,'))),
('r-invert','refac',P,ed(D,(FROM,'''var CoreTypeFromString = func() map[string]CoreType {
	m := make(map[string]CoreType, len(CoreTypeToString))
	for k, v := range CoreTypeToString {
		m[v] = k
	}
	return m
}()
'''))),
('r-cut','refac',P,ed(C,(PM,'''	key, value, ok := strings.Cut(expr, ",")
	if !ok {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}

'''))),
('r-build','refac',P,ed(C,(B,'''func buildVarTypeExpr(vt *VarType, expr string) string {
	var sb strings.Builder
	sb.WriteString(expr)
	writeVarTypeExpr(&sb, vt)
	return sb.String()
}

func writeVarTypeExpr(sb *strings.Builder, vt *VarType) {
	switch {
	case vt.Type == T_Unknown:
		sb.WriteString("<unknown>")
	case vt.Type == T_List:
		sb.WriteString("[]")
		writeVarTypeExpr(sb, vt.List.Elem)
	case vt.Type == T_Map:
		sb.WriteString("map<")
		sb.WriteString(vt.Map.Key.String())
		sb.WriteByte(',')
		writeVarTypeExpr(sb, vt.Map.Value)
		sb.WriteByte('>')
	case vt.Type == T_Struct:
		sb.WriteString(vt.Struct.Name)
	case vt.Type == T_Enum:
		sb.WriteString(vt.Enum.Name)
	case vt.Type == T_Alias:
		sb.WriteString(vt.Alias.Name)
	default:
		sb.WriteString(vt.Type.String())
	}
}

'''))),
('r-quote','refac',P,ed(C,('[]byte(fmt.Sprintf("%q", t))','[]byte(strconv.Quote(t.String()))'),('	"strings"\n','	"strconv"\n	"strings"\n'))),
('r-unjson','refac',P,ed(C,('''	s = s[1:]
	s = s[:len(s)-1]
''','''	s = strings.TrimSuffix(strings.TrimPrefix(s, "\\""), "\\"")
'''))),
('r-unjson2','refac',P,ed(C,('''	if s[0:1] != "\\"" {''','''	if !strings.HasPrefix(s, `"`) {'''),('''	if s[len(s)-1:] != "\\"" {''','''	if !strings.HasSuffix(s, `"`) {'''))),
('r-mjson','refac',P,ed(D,('''	buf := bytes.NewBufferString(`"`)
	buf.WriteString(CoreTypeToString[t])
	buf.WriteString(`"`)
	return buf.Bytes(), nil''','''	return json.Marshal(CoreTypeToString[t])'''),('	"bytes"\n',''))),
('r-mjson2','refac',P,ed(D,('''	buf := bytes.NewBufferString(`"`)
	buf.WriteString(CoreTypeToString[t])
	buf.WriteString(`"`)
	return buf.Bytes(), nil''','''	b := []byte{'"'}
	b = append(b, t.String()...)
	return append(b, '"'), nil'''),('	"bytes"\n',''))),
('r-switchstr','refac',P,ed(D,('	return CoreTypeToString[t]\n','''	if s, ok := CoreTypeToString[t]; ok {
		return s
	}
	return ""
'''))),
('r-trim','refac',P,ed(C,('expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])','expr = expr[len("[]"):]'))),
('r-getType','refac',P,ed(C,('''	for _, typ := range schema.Types {
		if structExpr == string(typ.Name) {
			return typ, true
		}
	}
	return nil, false''','''	i := slices.IndexFunc(schema.Types, func(t *Type) bool { return t.Name == structExpr })
	if i < 0 {
		return nil, false
	}
	return schema.Types[i], true'''),('	"strings"\n','	"slices"\n	"strings"\n'))),
]
