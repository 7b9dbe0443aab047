R='schema/ridl/ridl.go'; V='schema/var_type.go'; U='schema/ridl/parser_util.go'; N='schema/ridl/parser_node.go'; TK='schema/ridl/tokenizer.go'
def ridl(src): return '''package ridl

import (
	"testing"
	"testing/fstest"
)

func TestPlanted(t *testing.T) {
	defer func() {
		if x := recover(); x != nil {
			t.Errorf("crashed: %v", x)
		}
	}()
	src := "webrpc = v1\\nname = x\\nversion = v1\\n\\n'''+src+'''"
	_, _ = NewParser(fstest.MapFS{"a.ridl": &fstest.MapFile{Data: []byte(src)}}, ".", "a.ridl").Parse()
}
'''
def json(doc): return '''package schema

import "testing"

func TestPlanted(t *testing.T) {
	defer func() {
		if x := recover(); x != nil {
			t.Errorf("crashed: %v", x)
		}
	}()
	_, _ = ParseSchemaJSON([]byte(`'''+doc+'''`))
}
'''
B=[
dict(id='c09-mixed-arguments',property='C09',pkg='schema/ridl',needs='a method that has a named argument followed by one in the succinct form',
 breaks='the loader dereferences the type of an argument that has none',
 edits=[(R,'err := schema.ParseVarTypeExpr(s, arg.TypeName().String(), &varType)','err := schema.ParseVarTypeExpr(s, arg.argumentType.tok.val, &varType)')],
 test=ridl('struct T\\n  - a: string\\n\\nservice S\\n  - M(p: string, T)\\n')),
dict(id='c09-map-comma',property='C09',pkg='schema',needs='a JSON document or RIDL file with a map type that has a single parameter',
 breaks='the key of a map type is cut off at a negative position',
 edits=[(V,'''	p := strings.Index(expr, ",")
	if p < 0 {''','''	p := strings.Index(expr, ",")
	if p == 0 {''')],
 test=json('{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"T","fields":[{"name":"f","type":"map<string>"}]}],"errors":[],"services":[]}')),
dict(id='c09-enum-type',property='C09',pkg='schema',needs='a JSON document with an enum without a base type',
 breaks='the text of a missing type is read through a null pointer',
 edits=[(V,'''	if t == nil {
		return ""
	}
	return t.Expr''','''	return t.Expr''')],
 test=json('{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"enum","name":"T","fields":[]}],"errors":[],"services":[]}')),
dict(id='c09-escape-end',property='C09',pkg='schema/ridl',needs='an unquoted metadata value that ends in a backslash',
 breaks='the character behind the backslash is read past the end of the value',
 edits=[(U,'''			i++
			if i < size {
				switch''','''			if i++; i <= size {
				switch''')],
 test=ridl('struct T\\n  - a: string\\n    + k = v\\\\\\n')),
]
