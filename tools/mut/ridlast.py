R='schema/ridl/ridl.go'; N='schema/ridl/parser_node.go'
P=['C13']
S={f:open('/repo/'+f).read() for f in (R,N)}
def ed(f,*prs):
    cur=S[f]
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,S[f],cur)]
M=[
('b-typemeta','bug',P,ed(R,('			field := &schema.TypeField{\n				Name: fieldName,','			if len(def.Meta()) > 0 && structDef.Meta == nil {\n				structDef.Meta = []schema.TypeFieldMeta{{"x": true}}\n			}\n			field := &schema.TypeField{\n				Name: fieldName,'))),
('b-meta-shared','bug',P,ed(R,('		for _, def := range line.Fields() {\n','		var metas []schema.TypeFieldMeta\n		for _, def := range line.Fields() {\n'),('				field.Meta = append(field.Meta, schema.TypeFieldMeta{\n					key: val,\n				})\n','				metas = append(metas, schema.TypeFieldMeta{\n					key: val,\n				})\n				field.Meta = metas\n'))),
('b-enumidx','bug',P,ed(R,('		for i, def := range line.Values() {\n			key','		i := -1\n		for _, def := range line.Values() {\n			i++\n			key'),('					val = strconv.Itoa(i)\n				}\n			}\n','					val = strconv.Itoa(i)\n				}\n			} else {\n				i = len(enumDef.Fields)/2\n			}\n'))),
('b-errstatus','bug',P,ed(R,('		var errorType schema.Error\n',''),('	// error types\n','	// error types\n	var status = 400\n'),('errorType.HTTPStatus = int(httpStatus)','status = int(httpStatus)'),('		} else {\n			errorType.HTTPStatus = 400 // Default HTTP status code\n		}\n','		}\n		errorType.HTTPStatus = status\n'),('		code, err := strconv.ParseInt(line.code','		var errorType schema.Error\n		code, err := strconv.ParseInt(line.code'))),
('b-errors-in','bug',P,ed(R,('StreamOutput: method.StreamOutput(),','StreamOutput: method.StreamOutput() || method.StreamInput() && len(outputs) > 3,'))),
('b-annmap','bug',P,ed(R,('	annotations := make(map[string]*schema.Annotation)\n\n	for _, a','	annotations := make(map[string]*schema.Annotation)\n	an := &schema.Annotation{}\n	for _, a'),('		an := &schema.Annotation{\n			AnnotationType: a.AnnotationType().String(),\n		}\n','		an.AnnotationType = a.AnnotationType().String()\n'))),
('b-comment','bug',P,ed(R,('return strings.Split(comment, "\\n")','return strings.SplitN(comment, "\\n", 2)[:1]'))),
('b-trim','bug',P,ed(R,('return strings.Split(comment, "\\n")','return strings.Split(strings.TrimSpace(comment), "\\n")'))),
('b-filter','bug',P,ed(N,('	for i := range nodes {\n		definitionNodes','	for i := 1; i < len(nodes); i++ {\n		definitionNodes')) if '	for i := range nodes {\n		definitionNodes' in S[N] else []),
('r-helper','refac',P,ed(R,('			for _, meta := range def.Meta() {\n				key, val := meta.Left().String(), meta.Right().String()\n				field.Meta = append(field.Meta, schema.TypeFieldMeta{\n					key: val,\n				})\n			}\n','			field.Meta = metaOf(def.Meta())\n'),('func parseComment(','func metaOf(defs []*DefinitionNode) []schema.TypeFieldMeta {\n	var out []schema.TypeFieldMeta\n	for i := 0; i < len(defs); i++ {\n		out = append(out, schema.TypeFieldMeta{defs[i].Left().String(): defs[i].Right().String()})\n	}\n	return out\n}\n\nfunc parseComment('))),
('r-comment','refac',P,ed(R,('	if comment == "" {\n		return []string{}\n	}\n\n	return strings.Split(comment, "\\n")','	lines := []string{}\n	if len(comment) > 0 {\n		lines = append(lines, strings.Split(comment, "\\n")...)\n	}\n	return lines'))),
('r-loops','refac',P,ed(R,('			// Convert error tokens to strings\n			methodErrors := make([]string, len(method.Errors()))\n			for i, errorToken := range method.Errors() {\n				methodErrors[i] = errorToken.String()\n			}\n','			var methodErrors = []string{}\n			for _, errorToken := range method.Errors() {\n				methodErrors = append(methodErrors, errorToken.String())\n			}\n'))),
('r-extract','refac',P,ed(R,('	// error types\n	for _, line := range q.root.Errors() {\n','	if err := addErrors(s, q); err != nil {\n		return nil, err\n	}\n	/*\n	for _, line := range q.root.Errors() {\n'),('		s.Errors = append(s.Errors, &errorType)\n	}\n','		s.Errors = append(s.Errors, &errorType)\n	}*/\n'),('func parseComment(','''func addErrors(s *schema.WebRPCSchema, q *parser) error {
	for _, line := range q.root.Errors() {
		code, err := strconv.ParseInt(line.code.String(), 10, 32)
		if err != nil {
			return err
		}
		status := int64(400)
		if line.httpStatus != nil {
			if status, err = strconv.ParseInt(line.httpStatus.String(), 10, 32); err != nil {
				return err
			}
		}
		s.Errors = append(s.Errors, &schema.Error{Code: int(code), Name: line.name.String(), Message: line.message.String(), HTTPStatus: int(status)})
	}
	return nil
}

func parseComment('''))),
('r-onepass','refac',P,ed(R,('	for _, line := range q.root.Structs() {\n		name := line.Name().String()\n		structDef := s.GetTypeByName(string(name))','	structs := q.root.Structs()\n	for k := range structs {\n		line := structs[k]\n		name := line.Name().String()\n		structDef := s.GetTypeByName(name)'))),
('r-filter','refac',P,ed(N,('	nodes := rn.Filter(DefinitionNodeType)\n\n	definitionNodes := make([]*DefinitionNode, 0, len(nodes))\n	for i := range nodes {\n		definitionNodes = append(definitionNodes, nodes[i].(*DefinitionNode))\n	}\n\n	return definitionNodes','	var out []*DefinitionNode\n	for _, n := range rn.children {\n		if d, ok := n.(*DefinitionNode); ok {\n			out = append(out, d)\n		}\n	}\n	return out'))),
]
