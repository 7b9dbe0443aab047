R='schema/ridl/'
RI=R+'ridl.go'
def t(files,body): return '''package ridl

import (
	"testing"
	"testing/fstest"

	"github.com/webrpc/webrpc/schema"
)

func load(files map[string]string) (*schema.WebRPCSchema, error) {
	m := fstest.MapFS{}
	for p, s := range files {
		m[p] = &fstest.MapFile{Data: []byte(s)}
	}
	return NewParser(m, ".", "main.ridl").Parse()
}

func names(s *schema.WebRPCSchema) string {
	out := ""
	for _, t := range s.Types {
		out += t.Name + " "
	}
	return out
}

func TestPlanted(t *testing.T) {
	const hdr = "webrpc = v1\\nname = x\\nversion = v1.0.0\\n"
'''+body+'}\n'
B=[
dict(id='c12-same-base',property='C12',pkg='schema/ridl',needs='two imported files in different directories with the same base name',
 breaks='the second file is taken for the first and its definitions are lost',
 edits=[(RI,'''		importPath := path.Join(path.Dir(p.path), line.Path().String())

		if _, ok := p.cache[importPath]; !ok {''','''		importPath := path.Join(path.Dir(p.path), line.Path().String())
		id := path.Base(importPath)

		if _, ok := p.cache[id]; !ok {'''),(RI,'if p.cache[importPath], err =','if p.cache[id], err ='),(RI,'imported := p.cache[importPath]','imported := p.cache[id]')],
 test=t('','''	s, err := load(map[string]string{
		"main.ridl":     hdr + "import\\n  - a/types.ridl\\n  - b/types.ridl\\n",
		"a/types.ridl": hdr + "struct A\\n  - x: int32\\n",
		"b/types.ridl": hdr + "struct B\\n  - x: int32\\n",
	})
	if err != nil || names(s) != "A B " {
		t.Fatal(err, names(s))
	}
''')),
dict(id='c12-long-cycle',property='C12',pkg='schema/ridl',needs='an import cycle of five or more files',
 breaks='the import never ends',
 edits=[(RI,'	if p.imports.IsCircular() {','''	circular := false
	for q, depth := p, 0; q != nil && depth < 4; q, depth = q.parent, depth+1 {
		circular = circular || q.path == filename
	}
	if circular {''')],
 test=t('','''	load(map[string]string{
		"main.ridl": hdr + "import\\n  - a.ridl\\n",
		"a.ridl":    hdr + "import\\n  - main.ridl\\n",
	})
	n := 0
	_, err := NewParser(counting{t, &n, map[string]string{
		"main.ridl": hdr + "import\\n  - a.ridl\\n",
		"a.ridl":    hdr + "import\\n  - b.ridl\\n",
		"b.ridl":    hdr + "import\\n  - c.ridl\\n",
		"c.ridl":    hdr + "import\\n  - d.ridl\\n",
		"d.ridl":    hdr + "import\\n  - e.ridl\\n",
		"e.ridl":    hdr + "import\\n  - a.ridl\\n",
	}}, ".", "main.ridl").Parse()
	if err == nil {
		t.Fatal("a cycle is accepted")
	}
}

type counting struct {
	t *testing.T
	n *int
	m map[string]string
}

func (c counting) Open(name string) (fs.File, error) {
	if *c.n++; *c.n > 50 {
		c.t.Fatal("the files are read without end")
	}
	return fstest.MapFS{name: {Data: []byte(c.m[name])}}.Open(name)
''').replace('import (\n','import (\n	"io/fs"\n')),
dict(id='c12-filter-cached',property='C12',pkg='schema/ridl',needs='a file imported with a member list by one file and without one by another',
 breaks='the member list of the first import also applies to the others',
 edits=[(RI,'''		if imported := p.cache[importPath]; imported != nil {
''','''		if imported := p.cache[importPath]; imported != nil {
			imported.Types = slices.DeleteFunc(imported.Types, func(t *schema.Type) bool {
				return !isImportAllowed(t.Name, members)
			})
'''),(RI,'if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {','if !slices.Contains(s.Types, imported.Types[i]) {')],
 test=t('','''	s, err := load(map[string]string{
		"main.ridl": hdr + "import\\n  - a.ridl\\n  - b.ridl\\n",
		"a.ridl":    hdr + "import c.ridl\\n  - A\\n",
		"b.ridl":    hdr + "import\\n  - c.ridl\\n",
		"c.ridl":    hdr + "struct A\\n  - x: int32\\nstruct B\\n  - x: int32\\n",
	})
	if err != nil || names(s) != "A B " {
		t.Fatal(err, names(s))
	}
''')),
]
