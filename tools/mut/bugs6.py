R='schema/ridl/'
EP=R+'error_parser.go'; EN=R+'enum_parser.go'; SV=R+'service_parser.go'; ST=R+'struct_parser.go'; TP=R+'type_parser.go'; P=R+'parser.go'; RI=R+'ridl.go'
IMP='package ridl\n\nimport (\n	"testing"\n	"testing/fstest"\n\n	"github.com/webrpc/webrpc/schema"\n)\n\n'
def t(body): return IMP+'''func load(src string) (*schema.WebRPCSchema, error) {
	src = "webrpc = v1\\nname = x\\nversion = v1.0.0\\n" + src
	return NewParser(fstest.MapFS{"x.ridl": {Data: []byte(src)}}, ".", "x.ridl").Parse()
}

func must(t *testing.T, src string) *schema.WebRPCSchema {
	s, err := load(src)
	if err != nil {
		t.Fatal(err)
	}
	return s
}

func TestPlanted(t *testing.T) {
'''+body+'}\n'
B=[
dict(id='c11-stream-word',property='C11',pkg='schema/ridl',needs='a word other than stream between the arrow of a method and its return values',
 breaks='the word is skipped and the method does not stream',
 edits=[(SV,'''				if matches[0].val == wordStream {
					mn.outputs.stream = true
				} else {
					return p.stateError(errUnexpectedToken)
				}
''','''				mn.outputs.stream = matches[0].val == wordStream
''')],
 test=t('''	must(t, "service A\\n  - M() => stream (a: string)\\n")
	if _, err := load("service A\\n  - M() => steam (a: string)\\n"); err == nil {
		t.Fatal("steam is accepted")
	}
''')),
dict(id='c11-enum-tail',property='C11',pkg='schema/ridl',needs='further words behind an explicit enum value',
 breaks='everything behind the value is skipped up to the end of the line',
 edits=[(EN,'''			en.comment = parseComments(p.comments, explicitValue.line)
''','''			en.comment = parseComments(p.comments, explicitValue.line)
			if err := p.continueUntilEOL(); err != nil {
				return p.stateError(err)
			}
''')],
 test=t('''	must(t, "enum E: uint8\\n  - A = 1 # one\\n  - B = 2\\n")
	if _, err := load("enum E: uint8\\n  - A = 1 or 2\\n  - B = 3\\n"); err == nil {
		t.Fatal("a second value is accepted")
	}
''')),
dict(id='c13-enum-skip',property='C13',pkg='schema/ridl',needs='an enum that mixes members with and without a value',
 breaks='the members behind an explicit value are numbered from it instead of by position',
 edits=[(RI,'''		for i, def := range line.Values() {
			key, val := def.Left().String(), def.Right().String()
''','''		next := 0
		for _, def := range line.Values() {
			key, val := def.Left().String(), def.Right().String()
			i := next
			if n, err := strconv.Atoi(val); err == nil {
				i = n
			}
			next = i + 1
''')],
 test=t('''	s := must(t, "enum E: uint8\\n  - A = 5\\n  - B\\n  - C = 7\\n")
	if f := s.Types[0].Fields; f[0].Value != "5" || f[1].Value != "1" || f[2].Value != "7" {
		t.Fatal("wrong values", f[0].Value, f[1].Value, f[2].Value)
	}
''')),
dict(id='c13-proxy-annotations',property='C13',pkg='schema/ridl',needs='an annotated proxy method that is followed by another method',
 breaks='the annotations of the proxy method are attached to the next method as well',
 edits=[(SV,"""		defer func() {
			// clear annotation buffer
			sn.methodAnnotations = []*AnnotationNode{}
		}()

""",""),(SV,"""			mn.errors = errorNames
		}

		sn.methods = append(sn.methods, mn)
""","""			mn.errors = errorNames
		}

		sn.methods = append(sn.methods, mn)
		sn.methodAnnotations = []*AnnotationNode{}
""")],
 test=t("""	s := must(t, "service A\\n  @x\\n  - proxy M\\n  - N(a: string)\\n")
	if m := s.Services[0].Methods; len(m[0].Annotations) != 1 || len(m[1].Annotations) != 0 {
		t.Fatal("the annotation is inherited")
	}
""")),
]
