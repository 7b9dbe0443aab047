FL='gen/funcmap_flow.go'; TY='gen/funcmap_types.go'
def t(body,imports=''): return 'package gen\n\nimport (\n\t"testing"\n'+imports+'\n)\n\nfunc TestPlanted(t *testing.T) {\n'+body+'}\n'
SCH='''	"github.com/webrpc/webrpc/schema"'''
PARSE='''	s, err := schema.ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"enum","name":"E","type":"uint32","fields":[{"name":"A","value":"0"}]},{"kind":"struct","name":"S","fields":[{"name":"a","type":"map<string,map<string,bool>>"},{"name":"b","type":"map<string,[]bool>"},{"name":"c","type":"E"},{"name":"d","type":"[]map<string,bool>"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	f := s.Types[1].Fields
	_ = f
'''
B=[
dict(id='c22-patch-version',property='C22',gen=True,pkg='gen',needs='a version with a patch number',
 breaks='the minor number of such a version counts as zero in minVersion',
 edits=[(FL,'	if len(parts) > 1 {','	if len(parts) == 2 {')],
 test=t('''	for _, v := range [][2]string{{"v0.15.2", "v0.15"}, {"1.2", "1.2"}, {"v1", "v0.9"}, {"v0.15.0", "v0.2.9"}} {
		if !minVersion(v[0], v[1]) {
			t.Error(v)
		}
	}
	if minVersion("v0.14", "v0.15.1") {
		t.Error("0.14 is at least 0.15.1")
	}
''')),
dict(id='c22-nested-value',property='C22',gen=True,pkg='gen',needs='a map whose values are maps',
 breaks='mapValueType returns the innermost value type, with a bracket too many',
 edits=[(TY,'''	key, value, found := strings.Cut(str, ",")
	if !found || !strings.HasPrefix(key, "map<") || !strings.HasSuffix(value, ">") {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
	}
	return strings.TrimSuffix(value, ">")''','''	sep := strings.LastIndex(str, ",")
	if sep < 0 || !strings.HasPrefix(str, "map<") || !strings.HasSuffix(str, ">") {
		panic(fmt.Errorf("mapKeyValue: expected map<Type1,Type2>, got %v", str))
	}
	return str[sep+1 : len(str)-1]''')],
 test=t(PARSE+'''	for _, v := range []interface{}{f[0].Type, *f[0].Type, f[0].Type.String()} {
		if got := mapValueType(v); got != "map<string,bool>" {
			t.Errorf("%T: %q", v, got)
		}
	}
	if got := mapValueType(f[1].Type); got != "[]bool" {
		t.Error(got)
	}
''',SCH)),
dict(id='c22-list-of-maps',property='C22',gen=True,pkg='gen',needs='a list of maps',
 breaks='isMapType holds for a list whose elements are maps, as isListType does',
 edits=[(TY,'''	return found && strings.HasPrefix(key, "map<") && strings.HasSuffix(value, ">")''','''	return found && strings.Contains(key, "map<") && strings.HasSuffix(value, ">")''')],
 test=t(PARSE+'''	if isMapType(f[3].Type) || !isListType(f[3].Type) || !isMapType(f[0].Type) || isListType(f[1].Type) {
		t.Error("kinds of lists and maps")
	}
''',SCH)),
dict(id='c22-enum-value',property='C22',gen=True,pkg='gen',needs='a resolved enum type passed by value',
 breaks='isEnumType is false for an enum passed by value and true for it passed by pointer',
 edits=[(TY,'''	case schema.VarType:
		if t.Enum == nil {
			return t.Type == schema.T_Enum
		}
		return t.Enum.Type.Kind == "enum"
''','''	case schema.VarType:
		return t.Enum == nil && t.Type == schema.T_Enum
''')],
 test=t(PARSE+'''	if !isEnumType(f[2].Type) || !isEnumType(*f[2].Type) || !isEnumType(s.Types[0]) || !isEnumType(*s.Types[0]) {
		t.Error("an enum is not an enum")
	}
	if isEnumType(f[0].Type) || isEnumType(*f[0].Type) {
		t.Error("a map is an enum")
	}
''',SCH)),
]
