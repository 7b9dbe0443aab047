exec(open('/verif/tools/mut/bugs1.py').read().split('B=[')[0])
V='schema/var_type.go'
def hdr(bp='""',ver='"v1"',web='"v1"',svc='[]'): return '`{"webrpc":'+web+',"name":"x","version":'+ver+',"basepath":'+bp+',"types":[],"errors":[],"services":'+svc+'}`'
def hr(**k): return 'mustReject(t, '+hdr(**k)+')'
def ha(**k): return 'mustAccept(t, '+hdr(**k)+')'
B=[
dict(id='c05-stream-error',property='C05',needs='a method with a stream output that lists an undeclared error',
 breaks='the errors listed by streaming methods are not looked up',
 edits=[(S,'	for _, errorName := range m.Errors {\n','	for _, errorName := range m.Errors {\n		if m.StreamOutput {\n			continue\n		}\n')],
 test=t(rej(services='[{"name":"S","methods":[{"name":"A","errors":["Nope"]}]}]'),acc(services='[{"name":"S","methods":[{"name":"A","streamOutput":true,"outputs":[{"name":"x","type":"string"}]}]}]'),
   rej(services='[{"name":"S","methods":[{"name":"A","streamOutput":true,"errors":["Nope"],"outputs":[{"name":"x","type":"string"}]}]}]'))),
dict(id='c05-alias-key',property='C05',needs='a map whose key is an alias of a struct',
 breaks='any alias is accepted as a map key',
 edits=[(V,"t.Kind != TypeKind_Enum && (t.Type == nil || t.Type.Type != T_Enum)","t.Kind != TypeKind_Enum && t.Type == nil")],
 test=t(rej('['+st%('K','{"name":"a","type":"string"}')+',{"kind":"alias","name":"L","type":"K"},'+st%('M','{"name":"m","type":"map<L,string>"}')+']'),
  acc('[{"kind":"enum","name":"E","type":"uint8","fields":[{"name":"X","value":"1"}]},'+st%('M','{"name":"m","type":"map<E,string>"}')+']'))),
dict(id='c06-scheme-first',property='C06',needs='a base path that starts with the scheme separator',
 breaks='a scheme mark at the very start of the base path is not noticed',
 edits=[(C,'strings.Contains(s.BasePath, "://")','strings.Index(s.BasePath, "://") > 0')],
 test=t(ha(bp='"/v1/"'),hr(bp='"http://x/"'),hr(bp='"://x/"'))),
dict(id='c06-edge-blank',property='C06',needs='a base path whose only blank is at its end',
 breaks='blanks at the ends of the base path are overlooked, they stay in the base path',
 edits=[(C,'strings.ContainsAny(s.BasePath, " \\t\\r\\n")','strings.ContainsAny(strings.TrimSpace(s.BasePath), " \\t\\r\\n")')],
 test=t(ha(bp='"/v1/"'),hr(bp='"/a b"'),hr(bp='"/a "'))),
]
