T='schema/type.go';S='schema/service.go';ER='schema/error.go';C='schema/schema.go';V='schema/var_type.go'
P=['C05']
GT='''	for _, typ := range schema.Types {
		if structExpr == string(typ.Name) {
			return typ, true
		}
	}
	return nil, false
'''
M=[
('r-gettype-map','refac',P,[(V,GT,'''	byName := make(map[string]*Type, len(schema.Types))
	for i := len(schema.Types) - 1; i >= 0; i-- {
		byName[schema.Types[i].Name] = schema.Types[i]
	}
	typ, ok := byName[structExpr]
	return typ, ok
''')]),
('r-gettype-idx','refac',P,[(V,GT,'''	i := slices.IndexFunc(schema.Types, func(t *Type) bool { return t.Name == structExpr })
	if i < 0 {
		return nil, false
	}
	return schema.Types[i], true
'''),(V,'	"fmt"\n','	"fmt"\n	"slices"\n')]),
('r-switch-if','refac',P,[(V,'''		typ, ok := getType(schema, expr)
		if !ok || typ == nil {
			return fmt.Errorf("schema error: invalid type '%s'", expr)
		}

		switch typ.Kind {
		case TypeKind_Struct:
			vt.Type = T_Struct
			vt.Struct = &VarStructType{Name: expr, Type: typ}
		case TypeKind_Enum:
			vt.Type = T_Enum // TODO: T_Enum, see https://github.com/webrpc/webrpc/issues/44
			vt.Enum = &VarEnumType{Name: expr, Type: typ}
		case TypeKind_Alias:
			vt.Type = T_Alias
			vt.Alias = &VarAliasType{Name: expr, Type: typ}
		default:
			return fmt.Errorf("schema error: unexpected type '%s'", expr)
		}
''','''		return resolveNamed(schema, expr, vt)
'''),(V,'func parseMapExpr','''func resolveNamed(schema *WebRPCSchema, name string, vt *VarType) error {
	typ, ok := getType(schema, name)
	if !ok {
		return fmt.Errorf("schema error: invalid type '%s'", name)
	}
	if typ.Kind == TypeKind_Struct {
		vt.Type, vt.Struct = T_Struct, &VarStructType{Name: name, Type: typ}
		return nil
	}
	if typ.Kind == TypeKind_Enum {
		vt.Type, vt.Enum = T_Enum, &VarEnumType{Name: name, Type: typ}
		return nil
	}
	if typ.Kind == TypeKind_Alias {
		vt.Type, vt.Alias = T_Alias, &VarAliasType{Name: name, Type: typ}
		return nil
	}
	return fmt.Errorf("schema error: unexpected type '%s'", name)
}

func parseMapExpr''')]),
('r-cutprefix','refac',P,[(V,'''		expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])
		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
''','''		if err := ParseVarTypeExpr(schema, expr[2:], vt.List.Elem); err != nil {
			return err
		}
'''),(V,'''	p := strings.Index(expr, ",")
	if p < 0 {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}

	key := expr[0:p]
	value := expr[p+1:]

	return key, value, nil''','''	key, value, ok := strings.Cut(expr, ",")
	if !ok {
		return "", "", fmt.Errorf("schema error: invalid map syntax for '%s'", expr)
	}

	return key, value, nil''')]),
('r-err-set','refac',P,[(S,'''	for _, errorName := range m.Errors {
		found := false
		for _, schemaError := range schema.Errors {
			if schemaError.Name == errorName {
				found = true
				break
			}
		}
		if !found {''','''	declared := map[string]struct{}{}
	for _, schemaError := range schema.Errors {
		declared[schemaError.Name] = struct{}{}
	}
	for _, errorName := range m.Errors {
		if _, found := declared[errorName]; !found {''')]),
('r-keyset','refac',P,[(V,'''	for _, t := range allowedList {
		if dt == t {
			return true
		}
	}
	return false''','''	return slices.Contains(allowedList, dt)'''),(V,'	"fmt"\n','	"fmt"\n	"slices"\n')]),
('r-args-helper','refac',P,[(S,'''	for _, input := range m.Inputs {
		input.InputArg = true // back-ref
		if input.Name == "" {
			return fmt.Errorf("schema error: detected empty input argument name for method '%s' in service '%s'", m.Name, serviceName)
		}
		err := input.Type.Parse(schema)
		if err != nil {
			return err
		}
	}
''','''	for _, input := range m.Inputs {
		input.InputArg = true // back-ref
	}
	if err := m.parseArgs(schema, serviceName, "input argument", m.Inputs); err != nil {
		return err
	}
'''),(S,'''	for _, output := range m.Outputs {
		output.OutputArg = true // back-ref
		if output.Name == "" {
			return fmt.Errorf("schema error: detected empty output name for method '%s' in service '%s'", m.Name, serviceName)
		}
		err := output.Type.Parse(schema)
		if err != nil {
			return err
		}
	}
''','''	for _, output := range m.Outputs {
		output.OutputArg = true // back-ref
	}
	if err := m.parseArgs(schema, serviceName, "output", m.Outputs); err != nil {
		return err
	}
'''),(S,'func (m *Method) Parse','''func (m *Method) parseArgs(schema *WebRPCSchema, serviceName, what string, args []*MethodArgument) error {
	for _, arg := range args {
		if arg.Name == "" {
			return fmt.Errorf("schema error: detected empty %s name for method '%s' in service '%s'", what, m.Name, serviceName)
		}
		if err := arg.Type.Parse(schema); err != nil {
			return err
		}
	}
	return nil
}

func (m *Method) Parse''')]),
('r-expr-fmt','refac',P,[(V,'''		expr += fmt.Sprintf("map<%s,%s>", vt.Map.Key, buildVarTypeExpr(vt.Map.Value, ""))
		return expr''','''		return expr + "map<" + vt.Map.Key.String() + "," + buildVarTypeExpr(vt.Map.Value, "") + ">"''')]),
('r-iter-list','refac',P,[(V,'''	case T_List:
		// create sub-type object for list element
		vt.List = &VarListType{Elem: &VarType{}}

		// shift expr, and keep parsing
		expr = strings.TrimPrefix(expr, CoreTypeToString[T_List])
		err := ParseVarTypeExpr(schema, expr, vt.List.Elem)
		if err != nil {
			return err
		}
''','''	case T_List:
		elem := &VarType{}
		if err := ParseVarTypeExpr(schema, strings.TrimPrefix(expr, CoreTypeToString[T_List]), elem); err != nil {
			return fmt.Errorf("list: %w", err)
		}
		vt.List = &VarListType{Elem: elem}
''')]),
('b-key-bool','bug',P,[(V,'	T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64,\n}\n\nvar VarInt','	T_String, T_Uint, T_Uint8, T_Uint16, T_Uint32, T_Uint64, T_Int, T_Int8, T_Int16, T_Int32, T_Int64, T_Byte,\n}\n\nvar VarInt')]),
('b-fold','bug',P,[(V,'if structExpr == string(typ.Name) {','if strings.EqualFold(structExpr, typ.Name) {')]),
('b-err-fold','bug',P,[(S,'if schemaError.Name == errorName {','if strings.EqualFold(schemaError.Name, errorName) {')]),
('b-enum-key-value','bug',P,[(V,'''			vt.Map.Key.Expr = key
		}
''','''			vt.Map.Key.Expr = key
			if t.Kind == TypeKind_Enum && value == key {
				vt.Map.Value.Expr = key
				return nil
			}
		}
''')]),
('b-stream-out','bug',P,[(S,'''		err := output.Type.Parse(schema)
		if err != nil {
			return err
		}
''','''		err := output.Type.Parse(schema)
		if err != nil && !m.StreamOutput {
			return err
		}
''')]),
('b-copy','bug',P,[(V,'''	for _, typ := range schema.Types {
		if structExpr''','''	for _, typ := range schema.Types {
		typ := &Type{Kind: typ.Kind, Name: typ.Name, Type: typ.Type, Fields: typ.Fields}
		if structExpr''')]),
('b-alias-key','bug',P,[(V,"if !ok || t.Kind != TypeKind_Enum && (t.Type == nil || t.Type.Type != T_Enum) {","if !ok || t.Kind != TypeKind_Enum && t.Type == nil {")]),
('b-proxy-err','bug',P,[(S,'	for _, errorName := range m.Errors {\n','	for _, errorName := range m.Errors {\n		if m.Proxy {\n			continue\n		}\n')]),
('b-kindswap','bug',P,[(V,'vt.Alias = &VarAliasType{Name: expr, Type: typ}','vt.Alias = &VarAliasType{Name: expr, Type: typ}\n			if typ.Type != nil && typ.Type.Struct != nil {\n				vt.Alias.Type = typ.Type.Struct.Type\n			}')]),
('b-alias-noresolve','bug',P,[(T,'		return t.Type.Parse(schema)\n','		if err := t.Type.Parse(schema); err != nil && len(t.Comments) == 0 {\n			return err\n		}\n		return nil\n')]),
]
