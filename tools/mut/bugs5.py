exec(open('bugs3.py').read().split('B=[')[0])
T='schema/type.go'; W='schema/service.go'; V='schema/var_type.go'
B=[
dict(id='c18-hash-sort',property='C18',needs='errors that are not declared in the order of their codes, and a hash that is asked for before the errors are used',
 breaks='computing the hash reorders the errors of the schema',
 edits=[(C,'''	jsonString, err := s.ToJSON()
''','''	canonical := *s
	sort.SliceStable(canonical.Errors, func(i, j int) bool { return canonical.Errors[i].Code < canonical.Errors[j].Code })
	jsonString, err := canonical.ToJSON()
'''),(C,'	"net/url"\n','	"net/url"\n	"sort"\n')],
 test=t(DOC+'''	s := load(`{"webrpc":"v1","name":"x","version":"v1","errors":[{"code":2,"name":"B","message":"b","httpStatus":400},{"code":1,"name":"A","message":"a","httpStatus":400}]}`)
	if _, err := s.SchemaHash(); err != nil {
		t.Fatal(err)
	}
	if s.Errors[0].Name != "B" {
		t.Fatal("the errors were reordered")
	}
''')),
dict(id='c18-required-inplace',property='C18',needs='an optional field before a required one, and a second look at the fields',
 breaks='asking for the required fields overwrites the list of all fields',
 edits=[(T,'requiredFields := make([]*TypeField, 0)','requiredFields := t.Fields[:0]')],
 test=t(DOC+'''	s := load(`{"webrpc":"v1","name":"x","version":"v1","types":[{"kind":"struct","name":"X","fields":[{"name":"a","type":"string","optional":true},{"name":"b","type":"string"}]}]}`)
	s.Types[0].RequiredFields()
	if s.Types[0].Fields[0].Name != "a" {
		t.Fatal("the fields were overwritten")
	}
''')),
dict(id='c21-no-services',property='C21',needs='a schema without services that has a base path and errors',
 breaks='its JSON form and hash leave both out',
 edits=[(C,"""	if err := enc.Encode(s); err != nil {
""","""	out := s
	if len(s.Services) == 0 {
		// shared definitions only, there is nothing to be called
		out = &WebRPCSchema{
			WebrpcVersion: s.WebrpcVersion,
			SchemaName:    s.SchemaName,
			SchemaVersion: s.SchemaVersion,
			Types:         s.Types,
			Services:      s.Services,
		}
	}
	if err := enc.Encode(out); err != nil {
""")],
 test=t(DOC+"""	s := load(`{"webrpc":"v1","name":"x","version":"v1","errors":[{"code":1,"name":"A","message":"a","httpStatus":400}]}`)
	before, _ := s.SchemaHash()
	s.Errors[0].Code = 3
	after, _ := s.SchemaHash()
	if before == after {
		t.Fatal("the hash does not depend on an error")
	}
""")),
dict(id='c21-hash-window',property='C21',needs='a schema whose JSON form is longer than 64 KiB',
 breaks='changes after the first 64 KiB of the JSON form do not change the hash',
 edits=[(C,'''	h := sha1.New()
	h.Write([]byte(jsonString))
''','''	h := sha1.New()
	buf := make([]byte, 64<<10)
	n := copy(buf, jsonString)
	h.Write(buf[:n])
''')],
 test=t(DOC+'''	s := load(`{"webrpc":"v1","name":"x","version":"v1"}`)
	for i := 0; i < 2000; i++ {
		s.Types = append(s.Types, &Type{Kind: "struct", Name: fmt.Sprintf("T%d", i)})
	}
	before, _ := s.SchemaHash()
	s.Types[1999].Name = "Other"
	after, _ := s.SchemaHash()
	if before == after {
		t.Fatal("the hash does not depend on the last type")
	}
''').replace('import "testing"','import (\n	"fmt"\n	"testing"\n)')),
]
