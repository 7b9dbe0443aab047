R='schema/ridl/ridl.go'; W='webrpc.go'; S='schema/schema.go'; J='schema/parser.go'
HEAD='''	fsys := func(files map[string]string) fstest.MapFS {
		out := fstest.MapFS{}
		for name, src := range files {
			out[name] = &fstest.MapFile{Data: []byte("webrpc = v1\\nname = x\\nversion = v1\\n\\n" + src)}
		}
		return out
	}
'''
B=[
dict(id='c07-types-only',property='C07',pkg='schema/ridl',needs='an imported file without services, of which only some members are imported, with an invalid declaration among the others',
 breaks='an imported file that declares no services is not validated',
 edits=[(R,'''	// run through schema validator, last step to ensure all is good.
''','''	if p.parent != nil && len(s.Services) == 0 {
		// types only, validated along with the schema that imports them
		return s, nil
	}

	// run through schema validator, last step to ensure all is good.
''')],
 test='''package ridl

import (
	"testing"
	"testing/fstest"
)

func TestPlanted(t *testing.T) {
'''+HEAD+'''
	files := fsys(map[string]string{
		"a.ridl": "import b.ridl\\n- B\\n",
		"b.ridl": "struct B\\n- x: string\\n\\nstruct C\\n- x: string\\n- X: string\\n",
	})
	if _, err := NewParser(files, ".", "b.ridl").Parse(); err == nil {
		t.Error("b.ridl is accepted")
	}
	if _, err := NewParser(files, ".", "a.ridl").Parse(); err == nil {
		t.Error("a.ridl is accepted")
	}
}
'''),
dict(id='c07-resolved-alias',property='C07',pkg='schema/ridl',needs='a RIDL file with an alias whose name does not start with an upper-case letter',
 breaks='aliases that are resolved already are not validated',
 edits=[(S,'''	for i := range s.Types {
		err := s.Types[i].Parse(s)
''','''	for i := range s.Types {
		if t := s.Types[i]; t.Kind == TypeKind_Alias && t.Type != nil && t.Type.Type != T_Unknown {
			continue // resolved already
		}
		err := s.Types[i].Parse(s)
''')],
 test='''package ridl

import (
	"testing"
	"testing/fstest"
)

func TestPlanted(t *testing.T) {
'''+HEAD+'''
	files := fsys(map[string]string{
		"a.ridl": "type A: string\\ntype B: int\\n",
		"b.ridl": "type A: string\\ntype b: int\\n",
	})
	if _, err := NewParser(files, ".", "a.ridl").Parse(); err != nil {
		t.Error(err)
	}
	if _, err := NewParser(files, ".", "b.ridl").Parse(); err == nil {
		t.Error("b.ridl is accepted")
	}
}
'''),
dict(id='c07-rename-after',property='C07',pkg='.',needs='a JSON file with a declared error whose name has blanks inside, or is made equal to another one by removing them',
 breaks='names of errors are changed after the validation, so that two may be equal',
 edits=[(W,'''		return schema.ParseSchemaJSON(json)
''','''		doc, err := schema.ParseSchemaJSON(json)
		if err != nil {
			return nil, err
		}
		for _, e := range doc.Errors {
			// names are identifiers in the generated code
			e.Name = strings.ReplaceAll(e.Name, " ", "")
		}
		return doc, nil
'''),(W,'''	"path/filepath"
''','''	"path/filepath"
	"strings"
''')],
 test='''package webrpc

import (
	"os"
	"path/filepath"
	"testing"
)

func TestPlanted(t *testing.T) {
	file := filepath.Join(t.TempDir(), "x.json")
	doc := `{"webrpc":"v1","name":"x","version":"v1","types":[],"services":[],"errors":[{"code":1,"name":"AB","message":"m","httpStatus":400},{"code":2,"name":"A B","message":"m","httpStatus":400}]}`
	if err := os.WriteFile(file, []byte(doc), 0o600); err != nil {
		t.Fatal(err)
	}
	s, err := ParseSchemaFile(file)
	if err == nil && s.Validate() != nil {
		t.Errorf("not valid: %v", s.Validate())
	}
}
'''),
]
