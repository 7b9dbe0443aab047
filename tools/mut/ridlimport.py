R='schema/ridl/ridl.go'; G='schema/ridl/internal/graph/graph.go'; I='schema/ridl/import_parser.go'
def ed(f,*prs):
    src=open('/repo/'+f).read(); cur=src
    for o,n in prs:
        assert cur.count(o)>=1,o; cur=cur.replace(o,n,1)
    return [(f,src,cur)]
M=[
('b-nocycle','bug',['C12'],ed(R,('''	if p.imports.IsCircular() {''','''	if p.imports.IsCircular() && p.parent == nil {'''))),
('b-selfonly','bug',['C12'],ed(R,('''	if p.imports.IsCircular() {''','''	if p.path == filename {'''))),
('b-parent','bug',['C12'],ed(R,('''	if p.imports.IsCircular() {''','''	if filename == p.path || p.parent != nil && filename == p.parent.path {'''))),
('b-newgraph','bug',['C12'],ed(R,('	m.imports = p.imports\n',''))),
('b-nocache','bug',['C12'],ed(R,('	m.cache = p.cache\n',''))),
('b-nodedupe','bug',['C12'],ed(R,('!slices.Contains(s.Errors, imported.Errors[i]) && ',''))),
('b-root','bug',['C12'],ed(R,('path.Join(path.Dir(p.path), line.Path().String())','path.Join(path.Dir(p.rootPath()), line.Path().String())'),('func (p *Parser) importParser','func (p *Parser) rootPath() string {\n	for p.parent != nil {\n		p = p.parent\n	}\n	return p.path\n}\n\nfunc (p *Parser) importParser'))),
('b-prefix','bug',['C12'],ed(R,('if name == whitelist[i] {','if strings.HasPrefix(name, whitelist[i]) {'))),
('b-errors-all','bug',['C12'],ed(R,(' && isImportAllowed(imported.Errors[i].Name, members)',''))),
('b-services','bug',['C12'],ed(R,(' && isImportAllowed(imported.Services[i].Name, members)',' && len(members) == 0'))),
('b-base','bug',['C12'],ed(R,('p.cache[importPath]; !ok','p.cache[path.Base(importPath)]; !ok'),('if p.cache[importPath], err =','if p.cache[path.Base(importPath)], err ='),('imported := p.cache[importPath]','imported := p.cache[path.Base(importPath)]'))),
('b-members-out','bug',['C12'],ed(R,('''	for _, line := range q.root.Imports() {
''','''	members := []string{}
	for _, line := range q.root.Imports() {
'''),('''		members := []string{}
		for _, member''','''		for _, member'''))),
('b-unclean','bug',['C12'],ed(R,('path.Join(path.Dir(p.path), line.Path().String())','path.Dir(p.path) + "/" + line.Path().String()'))),
('b-graph-stack','bug',['C12'],ed(G,('		} else if recursionStack[neighbor] {','		} else if recursionStack[neighbor] && neighbor != node {'))),
('b-graph-visited','bug',['C12'],ed(G,('	recursionStack[node] = false\n',''))),
('b-graph-first','bug',['C12'],ed(G,('''	for _, node := range g.nodes {
''','''	for _, node := range g.nodes[1:] {
'''))),
('b-edge','bug',['C12'],ed(R,('	p.imports.AddEdge(p.path, filename)','	if p.imports.AddNode(filename) {\n		p.imports.AddEdge(p.path, filename)\n	}'),('	p.imports.AddNode(filename)\n',''))),
('b-lastmember','bug',['C12'],ed(I,('in.members = append(in.members, newTokenNode(member))','in.members = append(in.members[:0:0], newTokenNode(member))'))),
('r-loop','refac',['C12','C13'],ed(R,('''	for i := range whitelist {
		if name == whitelist[i] {
			return true
		}
	}
	return false''','''	return slices.Contains(whitelist, name)'''),('	if len(whitelist) < 1 {','	if len(whitelist) == 0 {'))),
('r-merge','refac',['C12','C13'],ed(R,('''		if imported := p.cache[importPath]; imported != nil {
''','''		imported, found := p.cache[importPath]
		if found && imported != nil {
'''),('''			for i := range imported.Types {
				if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {
					s.Types = append(s.Types, imported.Types[i])
				}
			}''','''			for _, t := range imported.Types {
				if slices.Contains(s.Types, t) || !isImportAllowed(t.Name, members) {
					continue
				}
				s.Types = append(s.Types, t)
			}'''))),
('r-map','refac',['C12','C13'],ed(R,('''			for i := range imported.Types {
				if !slices.Contains(s.Types, imported.Types[i]) && isImportAllowed(imported.Types[i].Name, members) {
					s.Types = append(s.Types, imported.Types[i])
				}
			}''','''			have := make(map[*schema.Type]struct{}, len(s.Types))
			for _, t := range s.Types {
				have[t] = struct{}{}
			}
			for _, t := range imported.Types {
				if _, dup := have[t]; !dup && isImportAllowed(t.Name, members) {
					s.Types = append(s.Types, t)
				}
			}'''))),
('r-cycle','refac',['C12'],ed(R,('''	p.imports.AddNode(filename)
	p.imports.AddEdge(p.path, filename)

	if p.imports.IsCircular() {
''','''	for q := p; q != nil; q = q.parent {
		if q.path != filename {
			continue
		}
'''))),
('r-helper','refac',['C12','C13'],ed(R,('''		importPath := path.Join(path.Dir(p.path), line.Path().String())

		if _, ok := p.cache[importPath]; !ok {
			parser, err := p.importParser(importPath)
			if err != nil {
				return nil, err
			}
			if p.cache[importPath], err = parser.Parse(); err != nil {
				return nil, newImportError(parser, err)
			}
		}
''','''		importPath := path.Join(path.Dir(p.path), line.Path().String())
		imported, err := p.load(importPath)
		if err != nil {
			return nil, err
		}
'''),('''		if imported := p.cache[importPath]; imported != nil {
''','''		if imported != nil {
'''),('func newImportError','''func (p *Parser) load(importPath string) (*schema.WebRPCSchema, error) {
	if s, ok := p.cache[importPath]; ok {
		return s, nil
	}
	parser, err := p.importParser(importPath)
	if err != nil {
		return nil, err
	}
	s, err := parser.Parse()
	if err != nil {
		return nil, newImportError(parser, err)
	}
	p.cache[importPath] = s
	return s, nil
}

func newImportError'''))),
('r-graph','refac',['C12'],ed(G,('''	for _, neighbor := range g.adjacency[node] {
		if !visited[neighbor] {
			if g.isCircular(neighbor, visited, recursionStack) {
				return true
			}
		} else if recursionStack[neighbor] {
			return true
		}
	}

	recursionStack[node] = false
	return false''','''	defer delete(recursionStack, node)

	for _, neighbor := range g.adjacency[node] {
		switch {
		case recursionStack[neighbor]:
			return true
		case !visited[neighbor] && g.isCircular(neighbor, visited, recursionStack):
			return true
		}
	}

	return false'''))),
]
