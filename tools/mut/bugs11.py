P='schema/ridl/parser.go'; R='schema/ridl/ridl.go'; V='schema/var_type.go'; SV='schema/service.go'
B=[
dict(id='c20-eof-position',property='C20',pkg='schema/ridl',needs='a truncated document that is loaded after a longer one that also ends too early',
 breaks='the position in the error of the second document is that of the first',
 edits=[(P,'''		return eofToken
''','''		if last := len(p.tokens) - 1; last >= 0 && eofToken.line < p.tokens[last].line {
			eofToken.line, eofToken.col = p.tokens[last].line, p.tokens[last].col
		}
		return eofToken
''')],
 test='''package ridl

import (
	"testing"
	"testing/fstest"
)

func failure(text string) string {
	_, err := NewParser(fstest.MapFS{"a.ridl": {Data: []byte(text)}}, "", "a.ridl").Parse()
	if err == nil {
		return ""
	}
	return err.Error()
}

func TestPlanted(t *testing.T) {
	short := "webrpc = v1\\nstruct A\\n - b"
	first := failure(short)
	failure("webrpc = v1\\n\\n\\n\\n\\n\\nname = a\\n\\n\\nstruct A\\n - b")
	if second := failure(short); first != second || first == "" {
		t.Errorf("%q after %q", second, first)
	}
}
'''),
dict(id='c20-expr-cache',property='C20',pkg='schema',needs='two schemas in which the same type expression refers to different types',
 breaks='the list elements of the second schema refer to the types of the first',
 edits=[(V,'''		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
''','''		if elem, ok := listElems[expr]; ok {
			vt.List.Elem = elem
			return nil
		}
		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
		if len(listElems) < 1024 {
			listElems[expr] = vt.List.Elem
		}
'''),(V,'''func ParseVarTypeExpr(schema *WebRPCSchema''','''// list elements by expression
var listElems = map[string]*VarType{}

func ParseVarTypeExpr(schema *WebRPCSchema''')],
 test='''package schema

import "testing"

func load(t *testing.T, field string) *WebRPCSchema {
	s, err := ParseSchemaJSON([]byte(`{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"Item","fields":[{"name":"` + field + `","type":"string"}]},{"kind":"struct","name":"Box","fields":[{"name":"items","type":"[]Item"}]}]}`))
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func TestPlanted(t *testing.T) {
	load(t, "first")
	s := load(t, "second")
	if got := s.Types[1].Fields[0].Type.List.Elem.Struct.Type.Fields[0].Name; got != "second" {
		t.Errorf("the element type has the field %q", got)
	}
}
'''),
dict(id='c20-visited-buffer',property='C20',pkg='schema/ridl',needs='two documents with imports that are loaded at the same time',
 breaks='the loads use the same map in the search for circular imports',
 edits=[('schema/ridl/internal/graph/graph.go','	visited := make(map[T]bool)\n	recursionStack','	clear(marks)\n	recursionStack'),
  ('schema/ridl/internal/graph/graph.go','		if !visited[node] {\n			if g.isCircular(node, visited,','		if !marks[node] {\n			if g.isCircular(node, marks,'),
  ('schema/ridl/internal/graph/graph.go','visited, recursionStack map[T]bool) bool {','visited map[any]bool, recursionStack map[T]bool) bool {'),
  ('schema/ridl/internal/graph/graph.go','func New[T','// nodes that were reached, kept to save allocations\nvar marks = map[any]bool{}\n\nfunc New[T'),
 ],
 test='''package ridl

import (
	"fmt"
	"runtime"
	"sync"
	"testing"
	"testing/fstest"
)

func TestPlanted(t *testing.T) {
	runtime.GOMAXPROCS(8)
	files := fstest.MapFS{}
	list := ""
	for i := 0; i < 60; i++ {
		list += fmt.Sprintf(" - f%d.ridl\\n", i)
		files[fmt.Sprintf("f%d.ridl", i)] = &fstest.MapFile{Data: []byte(fmt.Sprintf("webrpc = v1\\nname = f\\nversion = v1\\nstruct Item%d\\n - a: string\\n", i))}
	}
	files["a.ridl"] = &fstest.MapFile{Data: []byte("webrpc = v1\\nname = a\\nversion = v1\\nimport\\n" + list)}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 40; n++ {
				if _, err := NewParser(files, "", "a.ridl").Parse(); err != nil {
					t.Error(err)
					return
				}
			}
		}()
	}
	wg.Wait()
}
'''),
]
