C='schema/schema.go'; T='schema/type.go'; H='schema/helpers.go'; V='schema/var_type.go'; W='schema/service.go'; PJ='schema/parser.go'
P=['C21']
S={f:open('/repo/'+f).read() for f in (C,T,H,V,W,PJ)}
def ed(f,*prs):
    cur=S[f]
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,S[f],cur)]
M=[
('b-dash','bug',P,ed(W,('`json:"streamOutput,omitempty"`','`json:"-"`'))),
('b-dupkey','bug',P,ed(W,('`json:"streamOutput,omitempty"`','`json:"streamInput,omitempty"`'))),
('b-embedkey','bug',P,ed(T,('	TypeExtra `json:",omitempty"`\n}\n\ntype TypeExtra','	TypeExtra `json:",omitempty"`\n	Default string `json:"value,omitempty"`\n}\n\ntype TypeExtra'))),
('b-promoted','bug',P,ed(T,('func (t *Type) Parse','func (x TypeExtra) MarshalText() ([]byte, error) { return []byte(x.Value), nil }\n\nfunc (t *Type) Parse'))),
('b-own','bug',P,ed(W,('func (m *Method) Parse','''func (m *Method) MarshalJSON() ([]byte, error) {
	type plain Method
	p := plain(*m)
	if m.Succinct {
		p.Errors = nil
	}
	return json.Marshal(p)
}

func (m *Method) Parse'''),('import (','import (\n	"encoding/json"'))),
('r-own','refac',P,ed(W,('func (m *Method) Parse','''func (m *Method) MarshalJSON() ([]byte, error) {
	type plain Method
	p := plain(*m)
	return json.Marshal(p)
}

func (m *Method) Parse'''),('import (','import (\n	"encoding/json"'))),
('r-own2','refac',P,ed(W,('func (m *Method) Parse','''func (m *Method) MarshalJSON() ([]byte, error) {
	type plain Method
	return json.Marshal((*plain)(m))
}

func (m *Method) Parse'''),('import (','import (\n	"encoding/json"'))),
('b-copy','bug',P,ed(C,('	if err := enc.Encode(s); err','	c := *s\n	if len(c.Services) == 0 {\n		c.Errors = nil\n	}\n	if err := enc.Encode(&c); err'))),
('b-slice','bug',P,ed(C,('h.Write([]byte(jsonString))','h.Write([]byte(jsonString[:min(len(jsonString), 1<<20)]))'))),
('b-names','bug',P,ed(C,('h.Write([]byte(jsonString))','h.Write([]byte(s.SchemaName + s.SchemaVersion))\n	_ = jsonString'))),
('b-hashcopy','bug',P,ed(C,('s.ToJSON()','(&WebRPCSchema{WebrpcVersion: s.WebrpcVersion, SchemaName: s.SchemaName, SchemaVersion: s.SchemaVersion, Types: s.Types, Services: s.Services, Errors: s.Errors}).ToJSON()'))),
('b-clear','bug',P,ed(T,('	// Type name\n','	if t.Kind == TypeKind_Alias {\n		t.Comments = nil\n	}\n'))),
('b-succ','bug',P,ed(W,('	m.Service = service // back-ref','	m.Service = service // back-ref\n	if len(m.Inputs) == 0 && len(m.Outputs) == 0 {\n		m.Succinct = false\n	}'))),
('b-decode','bug',P,ed(PJ,('	err = schema.Validate()','	if schema != nil && len(schema.Services) == 0 {\n		schema.BasePath = ""\n	}\n	err = schema.Validate()'))),
('b-empty','bug',P,ed(C,('	h := sha1.New()','	if len(s.Services) == 0 {\n		return "", nil\n	}\n	h := sha1.New()'))),
('b-read','bug',P,ed(V,('	t.Expr = s\n','	t.Expr = strings.TrimPrefix(s, "[]")\n'))),
('r-sum','refac',P,ed(C,('''	h := sha1.New()
	h.Write([]byte(jsonString))
	return hex.EncodeToString(h.Sum(nil)), nil''','''	sum := sha1.Sum([]byte(jsonString))
	return hex.EncodeToString(sum[:]), nil'''))),
('r-sprintf','refac',P,ed(C,('''	h := sha1.New()
	h.Write([]byte(jsonString))
	return hex.EncodeToString(h.Sum(nil)), nil''','''	return fmt.Sprintf("%x", sha1.Sum([]byte(jsonString))), nil'''),('	"encoding/hex"\n',''))),
('r-writestring','refac',P,ed(C,('	h.Write([]byte(jsonString))','	if _, err := io.WriteString(h, jsonString); err != nil {\n		return "", err\n	}'),('	"net/url"\n','	"io"\n	"net/url"\n'))),
('r-marshal','refac',P,ed(C,('''	var buf bytes.Buffer

	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")

	if err := enc.Encode(s); err != nil {
		return "", err
	}

	return buf.String(), nil''','''	b, err := json.MarshalIndent(s, "", " ")
	if err != nil {
		return "", err
	}
	return string(b) + "\\n", nil'''),('	"bytes"\n',''))),
('r-builder','refac',P,ed(C,('	var buf bytes.Buffer\n','	var buf strings.Builder\n'),('	"bytes"\n',''))),
('r-decoder','refac',P,ed(PJ,('	var schema *WebRPCSchema\n	err := json.Unmarshal(jsondata, &schema)\n','	var value WebRPCSchema\n	schema := &value\n	err := json.NewDecoder(bytes.NewReader(jsondata)).Decode(schema)\n'),('	"encoding/json"\n','	"bytes"\n	"encoding/json"\n'))),
('r-decoder2','refac',P,ed(PJ,('	err := json.Unmarshal(jsondata, &schema)\n','	dec := json.NewDecoder(bytes.NewReader(jsondata))\n	err := dec.Decode(&schema)\n'),('	"encoding/json"\n','	"bytes"\n	"encoding/json"\n'))),
('r-embedkey','refac',P,ed(T,('`json:"optional,omitempty"`','`json:"optional,omitzero"`'))),
]
