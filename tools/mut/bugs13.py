V='schema/var_type.go'; R='schema/ridl/ridl.go'; J='schema/parser.go'; SV='schema/service.go'; P='schema/ridl/parser.go'
B=[
dict(id='c08-nested-list',property='C08',pkg='schema',needs='a list of lists of a type that is not defined',
 breaks='the failure to resolve the element of an inner list is dropped and the schema loads',
 edits=[(V,'''		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
''','''		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil && vt.List.Elem.Type != T_List {
			return err
		}
''')],
 test='''package schema

import "testing"

func TestPlanted(t *testing.T) {
	doc := `{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"A","fields":[{"name":"f","type":"%"}]}],"errors":[],"services":[]}`
	for _, typ := range []string{"Nope", "[]Nope", "map<string,Nope>", "[][]Nope"} {
		src := ""
		for _, c := range doc {
			if c == '%' {
				src += typ
			} else {
				src += string(c)
			}
		}
		if _, err := ParseSchemaJSON([]byte(src)); err == nil {
			t.Errorf("%s: no error", typ)
		}
	}
}
'''),
dict(id='c08-missing-import',property='C08',pkg='schema/ridl',needs='an imported file that itself imports a file that does not exist',
 breaks='an imported file that cannot be read because it does not exist counts as empty when it is imported by an imported file',
 edits=[(R,'''	src, err := fs.ReadFile(p.fsys, p.path)
	if err != nil {
''','''	src, err := fs.ReadFile(p.fsys, p.path)
	if p.parent != nil && p.parent.parent != nil && errors.Is(err, fs.ErrNotExist) {
		// nothing to import from
		return &schema.WebRPCSchema{WebrpcVersion: schema.SCHEMA_VERSION, SchemaName: path.Base(p.path), SchemaVersion: "v0"}, nil
	}
	if err != nil {
''')],
 test='''package ridl

import (
	"testing"
	"testing/fstest"
)

func TestPlanted(t *testing.T) {
	head := "webrpc = v1\\nname = x\\nversion = v1\\n"
	fsys := fstest.MapFS{
		"a.ridl": {Data: []byte(head + "import\\n- b.ridl\\n")},
		"b.ridl": {Data: []byte(head + "import\\n- c.ridl\\n\\nstruct B\\n- x: string\\n")},
	}
	if _, err := NewParser(fsys, ".", "b.ridl").Parse(); err == nil {
		t.Error("b.ridl: no error")
	}
	if _, err := NewParser(fsys, ".", "a.ridl").Parse(); err == nil {
		t.Error("a.ridl: no error")
	}
}
'''),
dict(id='c08-json-type',property='C08',pkg='schema',needs='a JSON document in which a value has another type than expected, and is valid otherwise',
 breaks='the decoding error is dropped, and the value is replaced by a default',
 edits=[(J,'''import (
	"encoding/json"
''','''import (
	"encoding/json"
	"errors"
'''),(J,'''	err := json.Unmarshal(jsondata, &schema)
	if err != nil {
''','''	err := json.Unmarshal(jsondata, &schema)
	var mismatch *json.UnmarshalTypeError
	if err != nil && (schema == nil || !errors.As(err, &mismatch)) {
''')],
 test='''package schema

import "testing"

func TestPlanted(t *testing.T) {
	if _, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","types":[],"errors":[{"code":"7","name":"E","message":"m","httpStatus":400}],"services":[]}`)); err == nil {
		t.Error("no error")
	}
	if _, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"S","fields":[{"name":"a","type":"string","optional":"yes"}]}]}`)); err == nil {
		t.Error("no error")
	}
}
'''),
dict(id='c08-output-last',property='C08',pkg='schema',needs='a method with several outputs, of which one that is not the last has a type that is not defined',
 breaks='only the failure of the last output is reported',
 edits=[(SV,'''	for _, output := range m.Outputs {
''','''	var failed error
	for _, output := range m.Outputs {
'''),(SV,'''		err := output.Type.Parse(schema)
		if err != nil {
			return err
		}
''','''		failed = output.Type.Parse(schema)
'''),(SV,'''	// Parse+validate errors
''','''	if failed != nil {
		return failed
	}

	// Parse+validate errors
''')],
 test='''package schema

import "testing"

func TestPlanted(t *testing.T) {
	for _, pair := range [][2]string{{"string", "Nope"}, {"Nope", "string"}} {
		doc := `{"webrpc":"v1","name":"x","version":"v1","types":[],"errors":[],"services":[{"name":"S","methods":[{"name":"M","inputs":[],"outputs":[{"name":"a","type":"` + pair[0] + `"},{"name":"b","type":"` + pair[1] + `"}]}]}]}`
		if _, err := ParseSchemaJSON([]byte(doc)); err == nil {
			t.Errorf("%v: no error", pair)
		}
	}
}
'''),
]
