T='schema/type.go';S='schema/service.go';E='schema/error.go';C='schema/schema.go'
V=['C01','C02','C03','C04']
M=[
('r-helper-dup','refac',V,[(T,'''	name := strings.ToLower(typName)
	for _, msg := range schema.Types {
		if msg != t && name == strings.ToLower(string(msg.Name)) {
			return fmt.Errorf("schema error: type '%s' was already declared", typName)
		}
	}
''','''	if schema.hasOtherType(t) {
		return fmt.Errorf("schema error: type '%s' was already declared", typName)
	}
'''),(T,'func startsWithUpper','''func (s *WebRPCSchema) hasOtherType(t *Type) bool {
	for _, msg := range s.Types {
		if msg == t {
			continue
		}
		if strings.EqualFold(msg.Name, t.Name) {
			return true
		}
	}
	return false
}

func startsWithUpper''')]),
('r-slices','refac',V,[(T,'''	for _, msg := range schema.Types {
		if msg != t && name == strings.ToLower(string(msg.Name)) {
			return fmt.Errorf("schema error: type '%s' was already declared", typName)
		}
	}
''','''	if slices.ContainsFunc(schema.Types, func(msg *Type) bool {
		return msg != t && name == strings.ToLower(string(msg.Name))
	}) {
		return fmt.Errorf("schema error: type '%s' was already declared", typName)
	}
'''),(T,'	"fmt"\n','	"fmt"\n	"slices"\n')]),
('r-switch','refac',V,[(T,'''	if t.Kind != TypeKind_Enum && t.Kind != TypeKind_Struct && t.Kind != TypeKind_Alias {
		return fmt''','''	switch t.Kind {
	case TypeKind_Enum, TypeKind_Struct, TypeKind_Alias:
	default:
		return fmt''')]),
('r-idxloop','refac',V,[(T,'''		for _, field := range t.Fields {
			if field.Value == "" {''','''		for i := 0; i < len(t.Fields); i++ {
			field := t.Fields[i]
			if len(field.Value) == 0 {'''),(S,'''	for _, method := range s.Methods {
		if string(method.Name) == "" {''','''	for i := range s.Methods {
		method := s.Methods[i]
		if len(method.Name) == 0 {''')]),
('r-fieldhelper','refac',V,[(T,'''		jsonFieldName := fieldName
		for _, meta := range field.TypeExtra.Meta {
			if jsonMeta, ok := meta["json"]; ok {
				jsonMetaString, ok := jsonMeta.(string)
				if !ok {
					return fmt.Errorf("schema error: invalid json type '%T' in field '%s' in type '%s': must be string", jsonMeta, fieldName, typName)
				}

				if jsonMetaString == "-" {
					// Skip the special `json = -` value, which makes the field ignored in generated clients.
					continue
				}

				if !IsValidArgName(jsonMetaString) {
					return fmt.Errorf("schema error: invalid json name '%s' in field '%s' in type '%s'", jsonMetaString, fieldName, typName)
				}

				jsonFieldName = jsonMetaString
			}
		}
''','''		jsonFieldName, err := field.effectiveJSONName(typName)
		if err != nil {
			return err
		}
'''),(T,'func startsWithUpper','''func (field *TypeField) effectiveJSONName(typName string) (string, error) {
	fieldName := field.Name
	name := fieldName
	for _, meta := range field.TypeExtra.Meta {
		jsonMeta, ok := meta["json"]
		if !ok {
			continue
		}
		jsonMetaString, ok := jsonMeta.(string)
		if !ok {
			return "", fmt.Errorf("schema error: invalid json type '%T' in field '%s' in type '%s': must be string", jsonMeta, fieldName, typName)
		}
		switch {
		case jsonMetaString == "-":
		case !IsValidArgName(jsonMetaString):
			return "", fmt.Errorf("schema error: invalid json name '%s' in field '%s' in type '%s'", jsonMetaString, fieldName, typName)
		default:
			name = jsonMetaString
		}
	}
	return name, nil
}

func startsWithUpper''')]),
('r-errset','refac',V,[(E,'''	nameList := map[string]struct{}{}
	codeList := map[int]struct{}{}
''','''	nameList := make(map[string]bool, len(schema.Errors))
	codeList := make(map[int]bool, len(schema.Errors))
'''),(E,'if _, ok := nameList[name]; ok {','if nameList[name] {'),(E,'if _, ok := codeList[e.Code]; ok {','if codeList[e.Code] {'),(E,'''		nameList[name] = struct{}{}
		codeList[e.Code] = struct{}{}''','''		nameList[name] = true
		codeList[e.Code] = true''')]),
('r-errpairs','refac',V,[(E,'''	nameList := map[string]struct{}{}
	codeList := map[int]struct{}{}
	for _, e := range schema.Errors {
		name := strings.ToLower(e.Name)
		if _, ok := nameList[name]; ok {
			return fmt.Errorf("schema error: detected duplicate error name of '%s'", e.Name)
		}
		if _, ok := codeList[e.Code]; ok {
			return fmt.Errorf("schema error: detected duplicate error code of '%d'", e.Code)
		}
		nameList[name] = struct{}{}
		codeList[e.Code] = struct{}{}
	}
''','''	for i, e := range schema.Errors {
		for _, other := range schema.Errors[:i] {
			if strings.EqualFold(e.Name, other.Name) {
				return fmt.Errorf("schema error: detected duplicate error name of '%s'", e.Name)
			}
			if e.Code == other.Code {
				return fmt.Errorf("schema error: detected duplicate error code of '%d'", e.Code)
			}
		}
	}
''')]),
('r-errstatus','refac',V,[(E,'''	if s.HTTPStatus < 400 || s.HTTPStatus > 599 {''','''	if !(s.HTTPStatus >= 400 && s.HTTPStatus < 600) {'''),(E,'if s.Code <= 0','if s.Code < 1')]),
('r-splitvalidate','refac',V,[(C,'''	for i := range s.Types {
		err := s.Types[i].Parse(s)
		if err != nil {
			return err
		}
	}

	for _, e := range s.Errors {
		err := e.Parse(s)
		if err != nil {
			return err
		}
	}

	for _, svc := range s.Services {
		err := svc.Parse(s)
		if err != nil {
			return err
		}
	}

	return nil
}
''','''	return s.validateDefinitions()
}

type definition interface{ Parse(*WebRPCSchema) error }

func parseAll[T definition](s *WebRPCSchema, defs []T) error {
	for _, d := range defs {
		if err := d.Parse(s); err != nil {
			return fmt.Errorf("%w", err)
		}
	}
	return nil
}

func (s *WebRPCSchema) validateDefinitions() error {
	if err := parseAll(s, s.Types); err != nil {
		return err
	}
	if err := parseAll(s, s.Errors); err != nil {
		return err
	}
	return parseAll(s, s.Services)
}
''')]),
('r-args','refac',V,[(S,'''	// Parse+validate inputs
	if len(m.Inputs) > 1 && m.Succinct {
		return fmt.Errorf("schema error: detected multiple input arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
	}
	for _, input := range m.Inputs {
		input.InputArg = true // back-ref
		if input.Name == "" {
			return fmt.Errorf("schema error: detected empty input argument name for method '%s' in service '%s'", m.Name, serviceName)
		}
		err := input.Type.Parse(schema)
		if err != nil {
			return err
		}
	}

	// Parse+validate outputs
	if len(m.Outputs) > 1 && m.Succinct {
		return fmt.Errorf("schema error: detected multiple output arguments using succinct form for method '%s' in service '%s'", m.Name, serviceName)
	}
	for _, output := range m.Outputs {
		output.OutputArg = true // back-ref
		if output.Name == "" {
			return fmt.Errorf("schema error: detected empty output name for method '%s' in service '%s'", m.Name, serviceName)
		}
		err := output.Type.Parse(schema)
		if err != nil {
			return err
		}
	}
''','''	if err := m.parseArgs(schema, m.Inputs, serviceName, "input argument", true); err != nil {
		return err
	}
	if err := m.parseArgs(schema, m.Outputs, serviceName, "output", false); err != nil {
		return err
	}
'''),(S,'func (m *Method) Parse','''func (m *Method) parseArgs(schema *WebRPCSchema, args []*MethodArgument, serviceName, what string, in bool) error {
	if m.Succinct {
		if len(args) >= 2 {
			return fmt.Errorf("schema error: detected multiple %ss using succinct form for method '%s' in service '%s'", what, m.Name, serviceName)
		}
	}
	for _, arg := range args {
		if in {
			arg.InputArg = true
		} else {
			arg.OutputArg = true
		}
		if arg.Name == "" {
			return fmt.Errorf("schema error: detected empty %s name for method '%s' in service '%s'", what, m.Name, serviceName)
		}
		if err := arg.Type.Parse(schema); err != nil {
			return err
		}
	}
	return nil
}

func (m *Method) Parse''')]),
('r-precompute','refac',V,[(T,'''	name := strings.ToLower(typName)
	for _, msg := range schema.Types {
		if msg != t && name == strings.ToLower(string(msg.Name)) {
			return fmt.Errorf("schema error: type '%s' was already declared", typName)
		}
	}
''','''	count := 0
	name := strings.ToLower(typName)
	for _, msg := range schema.Types {
		if name == strings.ToLower(string(msg.Name)) {
			count++
		}
	}
	if count > 1 {
		return fmt.Errorf("schema error: type '%s' was already declared", typName)
	}
''')]),
('r-goto-found','refac',V,[(S,'''		found := false
		for _, schemaError := range schema.Errors {
			if schemaError.Name == errorName {
				found = true
				break
			}
		}
		if !found {''','''		if schema.errorByName(errorName) == nil {'''),(S,'func (m *Method) Parse','''func (s *WebRPCSchema) errorByName(name string) *Error {
	for i := len(s.Errors) - 1; i >= 0; i-- {
		if e := s.Errors[i]; e.Name == name {
			return e
		}
	}
	return nil
}

func (m *Method) Parse''')]),
('b-dup-adjacent','bug',['C01'],[(T,'if msg != t && name == strings.ToLower(string(msg.Name)) {','if msg != t && msg.Kind == t.Kind && name == strings.ToLower(string(msg.Name)) {')]),
('b-dup-case','bug',['C01'],[(T,'if msg != t && name == strings.ToLower(string(msg.Name)) {','if msg != t && typName == string(msg.Name) {')]),
('b-alias-early','bug',['C01'],[(T,'''		if t.Type == nil {
			return fmt''','''		if t.Type == nil && len(t.Fields) == 0 {
			return fmt''')]),
('b-errdup-break','bug',['C04'],[(E,'	for _, e := range schema.Errors {\n','	for _, e := range schema.Errors {\n		if e == s {\n			continue\n		}\n')]),
('b-errname-nolower','bug',['C04'],[(E,'strings.HasPrefix(strings.ToLower(s.Name), "webrpc")','strings.HasPrefix(s.Name, "Webrpc")')]),
('b-status-600','bug',['C04'],[(E,'s.HTTPStatus > 599','s.HTTPStatus > 600')]),
('b-json-skip','bug',['C02'],[(T,'''				if !IsValidArgName(jsonMetaString) {''','''				if len(field.Meta) == 1 && !IsValidArgName(jsonMetaString) {''')]),
('b-json-unique','bug',['C02'],[(T,'		jsonFieldList[jsonMetaStringLower] = fieldName\n','		if jsonFieldName != fieldName {\n			jsonFieldList[jsonMetaStringLower] = fieldName\n		}\n')]),
('b-struct-value-opt','bug',['C02'],[(T,'			if field.Value != "" {','			if field.Value != "" && !field.Optional {')]),
('b-dup-method-prev','bug',['C03'],[(S,'		methodList[methodNameLower] = methodName\n','		if len(method.Inputs) > 0 {\n			methodList[methodNameLower] = methodName\n		}\n')]),
('b-succ-out','bug',['C03'],[(S,'if len(m.Outputs) > 1 && m.Succinct','if len(m.Outputs) > 1 && m.Succinct && !m.StreamOutput')]),
('b-types-skip-last','bug',['C01','C02'],[(C,'	for i := range s.Types {','	for i := 0; i < len(s.Types)-1; i++ {')]),
]
M+=[
('r2-goto-map','refac',V,[(S,'''	for _, svc := range schema.Services {
		if svc != s && name == strings.ToLower(string(svc.Name)) {
			return fmt.Errorf("schema error: duplicate service name detected in service '%s'", serviceName)
		}
	}
''','''	seen := map[string]*Service{}
	for _, svc := range schema.Services {
		key := strings.ToLower(svc.Name)
		if other, ok := seen[key]; ok && (other == s || svc == s) {
			return fmt.Errorf("schema error: duplicate service name detected in service '%s'", serviceName)
		}
		seen[key] = svc
	}
	_ = name
''')]),
('r2-two-pass','refac',V,[(C,'''	for i := range s.Types {
		err := s.Types[i].Parse(s)
		if err != nil {
			return err
		}
	}
''','''	names := make(map[string]int)
	for _, t := range s.Types {
		names[strings.ToLower(t.Name)]++
	}
	for _, t := range s.Types {
		if names[strings.ToLower(t.Name)] > 1 {
			return fmt.Errorf("schema error: type '%s' was already declared", t.Name)
		}
	}
	for i := range s.Types {
		err := s.Types[i].Parse(s)
		if err != nil {
			return err
		}
	}
''')]),
('r2-pairs','refac',V,[(C,'''	for i := range s.Types {
		err := s.Types[i].Parse(s)
''','''	for i := 0; i < len(s.Types); i++ {
		for j := i + 1; j < len(s.Types); j++ {
			if strings.EqualFold(s.Types[i].Name, s.Types[j].Name) {
				return fmt.Errorf("schema error: type '%s' was already declared", s.Types[i].Name)
			}
		}
	}
	for i := range s.Types {
		err := s.Types[i].Parse(s)
'''),(T,'''	name := strings.ToLower(typName)
	for _, msg := range schema.Types {
		if msg != t && name == strings.ToLower(string(msg.Name)) {
			return fmt.Errorf("schema error: type '%s' was already declared", typName)
		}
	}
''','')]),
('r2-errjoin','refac',V,[(C,'''	for _, e := range s.Errors {
		err := e.Parse(s)
		if err != nil {
			return err
		}
	}
''','''	var firstErr error
	for _, e := range s.Errors {
		if err := e.Parse(s); err != nil && firstErr == nil {
			firstErr = err
		}
	}
	if firstErr != nil {
		return firstErr
	}
''')]),
('r2-errjoin2','refac',V,[(C,'''	for _, e := range s.Errors {
		err := e.Parse(s)
		if err != nil {
			return err
		}
	}
''','''	var errs []error
	for _, e := range s.Errors {
		errs = append(errs, e.Parse(s))
	}
	if err := errors.Join(errs...); err != nil {
		return err
	}
'''),(C,'	"encoding/json"\n','	"encoding/json"\n	"errors"\n')]),
('r2-firstchar','refac',V,[(T,'''	first, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(first)''','''	for _, r := range s {
		return unicode.IsUpper(r)
	}
	return false'''),(T,'	"unicode/utf8"\n','')]),
('r2-firstchar2','refac',V,[(T,'''	first, _ := utf8.DecodeRuneInString(s)
	return unicode.IsUpper(first)''','''	return unicode.IsUpper([]rune(s)[0])'''),(T,'	"unicode/utf8"\n','')]),
('r2-kindmap','refac',V,[(T,'''	if t.Kind != TypeKind_Enum && t.Kind != TypeKind_Struct && t.Kind != TypeKind_Alias {''','''	if !validTypeKinds[t.Kind] {'''),(T,'func startsWithUpper','''var validTypeKinds = map[string]bool{TypeKind_Enum: true, TypeKind_Struct: true, TypeKind_Alias: true}

func startsWithUpper''')]),
('r2-regexp','refac',V,[('schema/var_name.go' if False else T,'		if !IsValidArgName(fieldName) {','		if ok := IsValidArgName(fieldName); !ok {')]),
('r2-sortedcodes','refac',V,[(E,'''	codeList := map[int]struct{}{}
''','''	var codes []int
'''),(E,'''		if _, ok := codeList[e.Code]; ok {''','''		if slices.Contains(codes, e.Code) {'''),(E,'		codeList[e.Code] = struct{}{}\n','		codes = append(codes, e.Code)\n'),(E,'	"fmt"\n','	"fmt"\n	"slices"\n')]),
('r2-enumfn','refac',V,[(T,'''		for _, field := range t.Fields {
			if field.Value == "" {
				return fmt.Errorf("schema error: enum '%s' with field '%s' is missing value", t.Name, field.Name)
			}
			if field.Type != nil {
				return fmt.Errorf("schema error: enum '%s' with field '%s', must omit 'type'", t.Name, field.Name)
			}
		}
''','''		missing := slices.IndexFunc(t.Fields, func(f *TypeField) bool { return f.Value == "" || f.Type != nil })
		if missing != -1 {
			field := t.Fields[missing]
			if field.Value == "" {
				return fmt.Errorf("schema error: enum '%s' with field '%s' is missing value", t.Name, field.Name)
			}
			return fmt.Errorf("schema error: enum '%s' with field '%s', must omit 'type'", t.Name, field.Name)
		}
'''),(T,'	"fmt"\n','	"fmt"\n	"slices"\n')]),
]
