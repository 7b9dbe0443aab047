T='schema/type.go';S='schema/service.go';ER='schema/error.go';C='schema/schema.go'
HEAD='''
package schema

import "testing"

func mustReject(t *testing.T, doc string) {
	t.Helper()
	if _, err := ParseSchemaJSON([]byte(doc)); err == nil {
		t.Fatalf("accepted: %s", doc)
	}
}

func mustAccept(t *testing.T, doc string) {
	t.Helper()
	if _, err := ParseSchemaJSON([]byte(doc)); err != nil {
		t.Fatalf("rejected: %v: %s", err, doc)
	}
}

func TestPlanted(t *testing.T) {
'''
def t(*l): return HEAD+''.join('\t'+x+'\n' for x in l)+'}\n'
def doc(types='[]',errors='[]',services='[]'): return '`{"webrpc":"v1","name":"x","version":"v1","types":'+types+',"errors":'+errors+',"services":'+services+'}`'
def rej(*a,**k): return 'mustReject(t, '+doc(*a,**k)+')'
def acc(*a,**k): return 'mustAccept(t, '+doc(*a,**k)+')'
st='{"kind":"struct","name":"%s","fields":[%s]}'
B=[
dict(id='c01-dup-kind',property='C01',needs='two types of different kinds whose names are equal ignoring case, e.g. a struct and an enum',
 breaks='the duplicate-name check only compares declarations of the same kind, so a struct and an enum (or alias) can share a name',
 edits=[(T,'if msg != t && name == strings.ToLower(string(msg.Name)) {','if msg != t && msg.Kind == t.Kind && name == strings.ToLower(string(msg.Name)) {')],
 test=t(acc('['+st%('A','')+','+st%('B','')+']'),rej('['+st%('A','')+',{"kind":"enum","name":"a","type":"int8","fields":[]}]'.replace('"a"','"A"')))),
dict(id='c01-alias-fields',property='C01',needs='an alias declaration that has fields but no underlying type',
 breaks='an alias that carries a field list is accepted without an underlying type',
 edits=[(T,'''		if t.Type == nil {
			return fmt.Errorf("schema error: alias''','''		if t.Type == nil && len(t.Fields) > 0 {
			return nil // declared inline
		}
		if t.Type == nil {
			return fmt.Errorf("schema error: alias''')],
 test=t(acc('[{"kind":"alias","name":"A","type":"string"}]'),rej('[{"kind":"alias","name":"A","fields":[{"name":"x","type":"string"}]}]'))),
dict(id='c02-json-shadow',property='C02',needs='three fields: one with a JSON name, a later one whose own name is that JSON name',
 breaks='a renamed field does not reserve its JSON name, so a later field can take the same name in JSON',
 edits=[(T,'		jsonFieldList[jsonMetaStringLower] = fieldName\n','		if jsonFieldName == fieldName || !field.Optional {\n			jsonFieldList[jsonMetaStringLower] = fieldName\n		}\n')],
 test=t(acc('['+st%('A','{"name":"a","type":"string","optional":true,"meta":[{"json":"b"}]},{"name":"c","type":"string"}')+']'),
  rej('['+st%('A','{"name":"a","type":"string","optional":true,"meta":[{"json":"b"}]},{"name":"b","type":"string"}')+']'))),
dict(id='c02-enum-value',property='C02',needs='an enum over string with a member that has no value',
 breaks='members of string enums may omit their value',
 edits=[(T,'			if field.Value == "" {\n','			if field.Value == "" && t.Type != nil && t.Type.Expr != "string" {\n')],
 test=t(rej('[{"kind":"enum","name":"A","type":"int8","fields":[{"name":"X"}]}]'),acc('[{"kind":"enum","name":"A","type":"string","fields":[{"name":"X","value":"x"}]}]'),rej('[{"kind":"enum","name":"A","type":"string","fields":[{"name":"X"}]}]'))),
dict(id='c03-method-fold',property='C03',needs='two methods whose names differ only in case, the first of them without inputs',
 breaks='methods without inputs are not registered in the duplicate table',
 edits=[(S,'		methodList[methodNameLower] = methodName\n','		if len(method.Inputs)+len(method.Outputs) > 0 {\n			methodList[methodNameLower] = methodName\n		}\n')],
 test=t(acc(services='[{"name":"S","methods":[{"name":"A"},{"name":"B"}]}]'),rej(services='[{"name":"S","methods":[{"name":"Ping"},{"name":"ping"}]}]'))),
dict(id='c03-succinct-stream',property='C03',needs='a succinct method with a stream output and two outputs',
 breaks='a succinct streaming method may have several outputs',
 edits=[(S,'if len(m.Outputs) > 1 && m.Succinct','if len(m.Outputs) > 1 && m.Succinct && !m.StreamOutput')],
 test=t(acc(services='[{"name":"S","methods":[{"name":"A","succinct":true,"streamOutput":true,"outputs":[{"name":"x","type":"string"}]}]}]'),
  rej(services='[{"name":"S","methods":[{"name":"A","succinct":true,"streamOutput":true,"outputs":[{"name":"x","type":"string"},{"name":"y","type":"string"}]}]}]'))),
dict(id='c04-code-window',property='C04',needs='two errors with the same code that are not adjacent in the list and have different HTTP status codes',
 breaks='error codes are only unique per HTTP status',
 edits=[(ER,'		if _, ok := codeList[e.Code]; ok {','		if _, ok := codeList[e.Code]; ok && (s.HTTPStatus == e.HTTPStatus || e == s) {'),(ER,'		codeList[e.Code] = struct{}{}\n','		if e.HTTPStatus >= s.HTTPStatus {\n			codeList[e.Code] = struct{}{}\n		}\n')],
 test=t(rej(errors='[{"code":1,"name":"A","message":"m","httpStatus":400},{"code":1,"name":"B","message":"m","httpStatus":400}]'),
  rej(errors='[{"code":1,"name":"A","message":"m","httpStatus":400},{"code":2,"name":"C","message":"m","httpStatus":400},{"code":1,"name":"B","message":"m","httpStatus":401}]'))),
dict(id='c04-prefix-case',property='C04',needs='an error name such as WEBRPCFoo',
 breaks='the reserved prefix is only recognised as Webrpc or WebRPC, not in other letter cases',
 edits=[(ER,'strings.HasPrefix(strings.ToLower(s.Name), "webrpc")','(strings.HasPrefix(s.Name, "Webrpc") || strings.HasPrefix(s.Name, "WebRPC"))')],
 test=t(rej(errors='[{"code":1,"name":"WebrpcA","message":"m","httpStatus":400}]'),rej(errors='[{"code":1,"name":"WEBRPCA","message":"m","httpStatus":400}]'))),
]
