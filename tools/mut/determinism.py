import os
def ed(*trip):
    fs={}
    out=[]
    for f,o,n in trip:
        s=open('/repo/'+f).read()
        cur=fs.get(f,s)
        assert cur.count(o)>=1,(f,o)
        fs[f]=cur.replace(o,n,1)
    return [(f,open('/repo/'+f).read(),fs[f]) for f in fs]
R='schema/ridl/ridl.go'; P='schema/ridl/parser.go'; V='schema/var_type.go'; S='schema/schema.go'; H='schema/helpers.go'
E='schema/error.go'; T='schema/type.go'; SV='schema/service.go'; GS='gen/funcmap_string.go'; GD='gen/funcmap_dict.go'; SP='schema/ridl/service_parser.go'
U='schema/ridl/parser_util.go'; L='schema/ridl/lexer.go'
C=['C19']
MS='''	serviceMap := map[string]struct{}{}
	for _, srv := range services {
		serviceMap[srv] = struct{}{}
	}

	var matchedServices []*Service
	for _, srv := range s.Services {
		if _, ok := serviceMap[srv.Name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}
'''
GT='''	name = strings.ToLower(name)
	for _, message := range s.Types {
		if strings.ToLower(message.Name) == name {
			return message
		}
	}
	return nil
'''
SORTED='slices.Sorted(maps.Keys(t))'
DUP='''		if _, ok := nameList[name]; ok {
			return fmt.Errorf("schema error: detected duplicate error name of '%s'", e.Name)
		}
		if _, ok := codeList[e.Code]; ok {
			return fmt.Errorf("schema error: detected duplicate error code of '%d'", e.Code)
		}
		nameList[name] = struct{}{}
		codeList[e.Code] = struct{}{}
	}
'''
FORSVC='''	for _, srv := range s.Services {
		_, isIncluded := include[srv.Name]
'''
CTX='''		jsonFieldList[jsonMetaStringLower] = fieldName
	}
'''
HASH='	h := sha1.New()\n'
IMPS='import (\n'
def imp(f,*p): return [(f,IMPS,IMPS+''.join('\t"%s"\n'%x for x in p))]
KEPT='''	var kept []*Type
	for _, t := range s.Types {
		if usedIncluded[t.Name] {
			kept = append(kept, t)
		}
	}
'''
DUPM='''		if _, ok := methodList[methodNameLower]; ok {
			return fmt.Errorf("schema error: detected duplicate method name of '%s' in service '%s'", methodName, serviceName)
		}
		methodList[methodNameLower] = methodName
	}
'''
ANN='''				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}
'''
NOERR='''		if !found {
			return fmt.Errorf("schema error: method'''
M=[
('b-keys','bug',C,ed((GS,'for _, k := range slices.Sorted(maps.Keys(t)) {','for k := range t {'),(GS,'\t"slices"\n',''),(GS,'\t"maps"\n',''))),
('b-keys2','bug',C,ed((GS,SORTED,'slices.Collect(maps.Keys(t))'))),
('b-keys3','bug',C,ed((GS,SORTED,'maps.Keys(t)'),(GS,'range maps.Keys','range unordered(maps.Keys'),(GS,'(t) {','(t)) {'),(GS,'	"slices"\n','	"slices"\n	"iter"\n'),(GS,'func join(','''func unordered(s iter.Seq[string]) []string {
	return slices.Collect(s)
}

func join(''')) if False else ed((GS,SORTED,'unordered(t)'),(GS,'func join(','''func unordered(m map[string]interface{}) []string {
	return slices.Collect(maps.Keys(m))
}

func join('''))),
('b-pairs','bug',C,ed((GS,'''		for _, k := range slices.Sorted(maps.Keys(t)) { // deterministic output
			b.WriteString(fmt.Sprintf("%v=%v\\n", k, t[k]))
		}
''','''		var lines []string
		for k, v := range t {
			lines = append(lines, fmt.Sprintf("%v=%v\\n", k, v))
		}
		b.WriteString(strings.Join(lines, ""))
'''),(GS,'\t"slices"\n',''),(GS,'\t"maps"\n',''))),
('b-sortlate','bug',C,ed((GS,'''		for _, k := range slices.Sorted(maps.Keys(t)) { // deterministic output
''','''		keys := slices.Collect(maps.Keys(t))
		if len(keys) > 8 {
			slices.Sort(keys)
		}
		for _, k := range keys {
'''))),
('b-svcmap','bug',C,ed((S,MS,'''	all := map[string]*Service{}
	for _, srv := range s.Services {
		all[srv.Name] = srv
	}
	wanted := map[string]struct{}{}
	for _, name := range services {
		wanted[name] = struct{}{}
	}

	var matchedServices []*Service
	for name := range wanted {
		if srv, ok := all[name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}
'''))),
('b-deleteloop','bug',C,ed((S,'	s.Types = kept\n','''	byName := map[string]*Type{}
	for _, t := range kept {
		byName[t.Name] = t
	}
	kept = kept[:0]
	for _, t := range byName {
		kept = append(kept, t)
	}
	s.Types = kept
'''))),
('b-sortkind','bug',C,ed((S,'	s.Types = kept\n','''	byName := map[string]*Type{}
	for _, t := range kept {
		byName[t.Name] = t
	}
	kept = kept[:0]
	for _, t := range byName {
		kept = append(kept, t)
	}
	sort.Slice(kept, func(i, j int) bool { return kept[i].Kind < kept[j].Kind })
	s.Types = kept
'''),*imp(S,'sort'))),
('b-duperr','bug',C,ed((E,DUP,'''		if _, ok := codeList[e.Code]; ok {
			return fmt.Errorf("schema error: detected duplicate error code of '%d'", e.Code)
		}
		nameList[name] = struct{}{}
		codeList[e.Code] = struct{}{}
	}
	count := map[string]int{}
	for _, e := range schema.Errors {
		count[strings.ToLower(e.Name)]++
	}
	for name, n := range count {
		if n > 1 {
			return fmt.Errorf("schema error: detected duplicate error name of '%s'", name)
		}
	}
'''))),
('b-dupmeth','bug',C,ed((SV,DUPM,'''		if other, ok := methodList[methodNameLower]; ok {
			return fmt.Errorf("schema error: detected duplicate method name of '%s' in service '%s' (also '%s')", methodName, serviceName, other)
		}
		methodList[methodNameLower] = methodName
	}
	for name := range methodList {
		if strings.Contains(name, " ") {
			return fmt.Errorf("schema error: invalid method name '%s'", name)
		}
	}
'''))),
('b-annnull','bug',C,ed((S,'''			for _, annotation := range method.Annotations {
				if annotation == nil {
					return fmt.Errorf("schema error: annotation cannot be null for method '%s' in service '%s'", method.Name, svc.Name)''','''			for name, annotation := range method.Annotations {
				if annotation == nil {
					return fmt.Errorf("schema error: annotation '%s' cannot be null for method '%s' in service '%s'", name, method.Name, svc.Name)'''))),
('b-anynil','bug',C,ed((S,ANN,ANN+'''				if ann == nil {
					s.SchemaName = name
				}
'''))),
('b-meta','bug',C,ed((T,'			if jsonMeta, ok := meta["json"]; ok {','''			for k, v := range meta {
				if v == nil {
					return fmt.Errorf("schema error: field '%s' has an empty meta value '%s'", fieldName, k)
				}
			}
			if jsonMeta, ok := meta["json"]; ok {'''))),
('b-metafold','bug',C,ed((T,'			if jsonMeta, ok := meta["json"]; ok {','''			var jsonMeta interface{}
			ok := false
			for k, v := range meta {
				if strings.EqualFold(k, "json") {
					jsonMeta, ok = v, true
				}
			}
			if ok {'''))),
('b-metabreak','bug',C,ed((T,'			if jsonMeta, ok := meta["json"]; ok {','''			var jsonMeta interface{}
			ok := false
			for k, v := range meta {
				if strings.HasPrefix(k, "json") {
					jsonMeta, ok = v, true
					break
				}
			}
			if ok {'''))),
('b-time','bug',C,ed((S,HASH,HASH+'	fmt.Fprint(h, time.Now().Year())\n'),*imp(S,'time'))),
('b-rand','bug',C,ed((S,HASH,HASH+'	fmt.Fprint(h, rand.Int())\n'),*imp(S,'math/rand'))),
('b-env','bug',C,ed((S,HASH,HASH+'	h.Write([]byte(os.Getenv("WEBRPC_SALT")))\n'),*imp(S,'os'))),
('b-host','bug',C,ed((S,'	if s.WebrpcVersion != SCHEMA_VERSION {','	if host, _ := os.Hostname(); s.SchemaName == "" {\n		s.SchemaName = host\n	}\n	if s.WebrpcVersion != SCHEMA_VERSION {'),*imp(S,'os'))),
('b-pid','bug',C,ed((S,'	if s.WebrpcVersion != SCHEMA_VERSION {','	if os.Getpid()%2 == 0 {\n		return nil\n	}\n	if s.WebrpcVersion != SCHEMA_VERSION {'),*imp(S,'os'))),
('b-ptr','bug',C,ed((S,'"schema error: type definition cannot be null"','"schema error: type definition cannot be null in %v", s'))),
('b-ptr2','bug',C,ed((S,'"schema error: error definition cannot be null"','"schema error: error definition cannot be null near %p", s.Errors'))),
('r-ptr3','refac',C,ed((T,'''"schema error: enum '%s' with field '%s', must omit 'type'", t.Name, field.Name''','''"schema error: enum '%s' with field '%v', must omit 'type'", t.Name, *field'''))),
('b-ptrdef','bug',C,ed((R,'"unexpected error, could not find definition for: %v", name','"unexpected error, could not find definition for: %v", line'))),
('b-goroutines','bug',C,ed((S,'''	for i := range s.Types {
		err := s.Types[i].Parse(s)
		if err != nil {
			return err
		}
	}
''','''	errs := make(chan error, len(s.Types))
	for i := range s.Types {
		go func() { errs <- s.Types[i].Parse(s) }()
	}
	for range s.Types {
		if err := <-errs; err != nil {
			return err
		}
	}
'''))),
('b-goappend','bug',C,ed((R,'''	for _, line := range q.root.TypeAliases() {
		s.Types = append(s.Types, &schema.Type{
			Kind:     schemaTypeKindAlias,
			Name:     line.Name().String(),
			Comments: parseComment(line.Comments()),
		})
	}
''','''	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, line := range q.root.TypeAliases() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			t := &schema.Type{
				Kind:     schemaTypeKindAlias,
				Name:     line.Name().String(),
				Comments: parseComment(line.Comments()),
			}
			mu.Lock()
			defer mu.Unlock()
			s.Types = append(s.Types, t)
		}()
	}
	wg.Wait()
'''),*imp(R,'sync'))),
('b-bigkeys','bug',C,ed((H,'	// helper to collect bigint-related fields for a given struct type\n','''	total := ""
	for name := range memo {
		total += name
	}
	out["all"] = []any{total}

	// helper to collect bigint-related fields for a given struct type
'''))),
('b-typecheck','bug',C,ed((S,KEPT,'''	var kept []*Type
	byName := map[string]*Type{}
	for _, t := range s.Types {
		byName[t.Name] = t
	}
	for name := range usedIncluded {
		if t := byName[name]; t != nil {
			kept = append(kept, t)
		}
	}
'''))),
('b-maprange-callback','bug',C,ed((S,KEPT,'''	var kept []*Type
	byName := map[string]*Type{}
	for _, t := range s.Types {
		byName[t.Name] = t
	}
	each(usedIncluded, func(name string) {
		if t := byName[name]; t != nil {
			kept = append(kept, t)
		}
	})
'''),(S,'// MethodTreeShake','''func each(m map[string]bool, f func(string)) {
	for k := range m {
		f(k)
	}
}

// MethodTreeShake''') if '// MethodTreeShake' in open('/repo/'+S).read() else (S,'func MatchMethodsWithAnnotations(','''func each(m map[string]bool, f func(string)) {
	for k := range m {
		f(k)
	}
}

func MatchMethodsWithAnnotations('''))),
('b-codes','bug',C,ed((S,'''	for _, e := range s.Errors {
		err := e.Parse(s)
		if err != nil {
			return err
		}
	}
''','''	byCode := map[int]*Error{}
	for _, e := range s.Errors {
		byCode[e.Code] = e
	}
	for _, e := range byCode {
		err := e.Parse(s)
		if err != nil {
			return err
		}
	}
'''))),
('b-firstkey','bug',C,ed((P,'	words := []string{}\n','	words := anyOf(map[string]int{"a": 1, "b": 2})\n'),(P,'var eofToken','''func anyOf(m map[string]int) []string {
	for k := range m {
		return []string{k}
	}
	return nil
}

var eofToken'''))),
('b-select','bug',C,ed((S,HASH,'''	a, b := make(chan string, 1), make(chan string, 1)
	a <- jsonString
	b <- s.SchemaName
	select {
	case jsonString = <-a:
	case jsonString = <-b:
	}
'''+HASH))),
('b-reflect','bug',C,ed((GD,'	return m\n}\n\nfunc get','	for _, k := range reflect.ValueOf(m).MapKeys() {\n		m["last"] = k.String()\n	}\n	return m\n}\n\nfunc get'),*imp(GD,'reflect'))),
# behaviour kept
('r-sortkeys','refac',C,ed((GS,'''		for _, k := range slices.Sorted(maps.Keys(t)) { // deterministic output
''','''		keys := make([]string, 0, len(t))
		for k := range t {
			keys = append(keys, k)
		}
		slices.Sort(keys)
		for _, k := range keys {
'''),(GS,'\t"maps"\n',''))),
('r-sortstrings','refac',C,ed((GS,'''		for _, k := range slices.Sorted(maps.Keys(t)) { // deterministic output
''','''		keys := make([]string, len(t))
		i := 0
		for k := range t {
			keys[i] = k
			i++
		}
		sort.Strings(keys)
		for _, k := range keys {
'''),(GS,'\t"maps"\n','\t"sort"\n'),(GS,'\t"slices"\n',''))),
('r-sorthelper','refac',C,ed((GS,SORTED,'sortedKeys(t)'),(GS,'func join(','''func sortedKeys(m map[string]interface{}) []string {
	keys := slices.Collect(maps.Keys(m))
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	return keys
}

func join('''),(GS,'\t"maps"\n','\t"maps"\n\t"sort"\n'))),
('r-sortlater','refac',C,ed((GS,SORTED,'sortedKeys(t)'),(GS,'func join(','''func sortedKeys(m map[string]interface{}) []string {
	keys := allKeys(m)
	slices.Sort(keys)
	return keys
}

func allKeys[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	return keys
}

func join('''),(GS,'\t"maps"\n',''))),
('r-pairs','refac',C,ed((GS,'''		for _, k := range slices.Sorted(maps.Keys(t)) { // deterministic output
			b.WriteString(fmt.Sprintf("%v=%v\\n", k, t[k]))
		}
''','''		lines := make([]string, 0, len(t))
		for k, v := range t {
			lines = append(lines, fmt.Sprintf("%v=%v\\n", k, v))
		}
		slices.Sort(lines)
		b.WriteString(strings.Join(lines, ""))
'''),(GS,'\t"maps"\n',''))),
('r-match','refac',C,ed((S,ANN,'''				var ann *Annotation
				found := false
				for key, a := range method.Annotations {
					if key == name {
						ann, found = a, true
						break
					}
				}
				if !found {
					continue
				}
'''))),
('r-matchfn','refac',C,ed((S,'''			match := false
			for name, value := range annotations {
				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}

				trimmedAnnVal := strings.Trim(value, " ")
				if trimmedAnnVal == "" {
					// match annotation types only
					if name == ann.AnnotationType {
						match = true
						break
					}
				} else {
					// match @key:value
					if name == ann.AnnotationType && value == ann.Value {
						match = true
						break
					}
				}
			}

			if match {
''','''			if hasAnnotation(method, annotations) {
'''),(S,'func MatchMethodsWithAnnotations(','''func hasAnnotation(method *Method, annotations map[string]string) bool {
	for name, value := range annotations {
		ann, ok := method.Annotations[name]
		if !ok || name != ann.AnnotationType {
			continue
		}
		if strings.Trim(value, " ") == "" || value == ann.Value {
			return true
		}
	}
	return false
}

func MatchMethodsWithAnnotations('''))),
('r-matchcount','refac',C,ed((S,'''			if match {
				methods = append(methods, method)
			}
''','''			n := 0
			for name := range method.Annotations {
				if name != "" {
					n++
				}
			}
			if n == 0 && len(method.Annotations) == 0 && match {
				continue
			}
			if match {
				methods = append(methods, method)
			}
'''))),
('r-clone','refac',C,ed((S,'	s.Types = kept\n','''	seen := map[string]bool{}
	for name, ok := range usedIncluded {
		if ok && !usedExcluded[name] {
			seen[name] = true
		}
	}
	for name := range seen {
		delete(usedIncluded, name)
	}
	s.Types = kept
'''))),
('r-invert','refac',C,ed((E,'''	return nil
}
''','''	lengths := map[int]int{}
	longest := 0
	for name := range nameList {
		lengths[len(name)]++
		if len(name) > longest {
			longest = len(name)
		}
		longest = max(longest, len(name))
	}
	return nil
}
'''))if False else ed((E,'''		codeList[e.Code] = struct{}{}
	}
''','''		codeList[e.Code] = struct{}{}
	}
	longest := 0
	for name := range nameList {
		if len(name) > longest {
			longest = len(name)
		}
	}
	if longest == 0 && len(nameList) > 0 {
		return fmt.Errorf("schema error: name cannot be empty")
	}
'''))),
('r-total','refac',C,ed((T,CTX,CTX+'''	total := 0
	for a, b := range fieldList {
		total += len(a) - len(b)
	}
	if total > 1<<30 {
		return fmt.Errorf("schema error: fields too long in type '%s'", typName)
	}
'''))),
('r-any','refac',C,ed((T,CTX,CTX+'''	for name := range jsonFieldList {
		if name == "" {
			return fmt.Errorf("schema error: empty json name in type '%s'", typName)
		}
	}
'''))),
('r-errwrap','refac',C,ed((S,'"schema error: type definition cannot be null"','"schema error: type definition cannot be null in schema %v", s.SchemaName'))),
('r-errq','refac',C,ed((S,'"schema error: type definition cannot be null"','"schema error: type %d of %v cannot be null", len(s.Types), []string{s.SchemaName, s.BasePath}'))),
('r-deferlog','refac',C,ed((S,HASH,'	start := time.Now()\n	defer func() { _ = time.Since(start) }()\n'+HASH),*imp(S,'time'))),
('r-copy','refac',C,ed((GD,'	return m\n}\n\nfunc get','	out := make(map[string]interface{}, len(m))\n	for k, v := range m {\n		out[k] = v\n	}\n	return out\n}\n\nfunc get'))),
('r-mapscopy','refac',C,ed((GD,'	return m\n}\n\nfunc get','	out := make(map[string]interface{}, len(m))\n	maps.Copy(out, m)\n	return out\n}\n\nfunc get'),*imp(GD,'maps'))),
('r-mapsclone','refac',C,ed((GD,'	return m\n}\n\nfunc get','	return maps.Clone(m)\n}\n\nfunc get'),*imp(GD,'maps'))),
('r-svcset','refac',C,ed((S,MS,'''	found := map[string]int{}
	for i, srv := range s.Services {
		found[srv.Name] = i
	}
	var index []int
	for _, name := range services {
		if i, ok := found[name]; ok && !slices.Contains(index, i) {
			index = append(index, i)
		}
	}
	sort.Ints(index)

	var matchedServices []*Service
	for _, i := range index {
		matchedServices = append(matchedServices, s.Services[i])
	}
'''),*imp(S,'slices','sort'))),
('r-svcset2','refac',C,ed((S,MS,'''	found := map[int]bool{}
	for i, srv := range s.Services {
		if slices.Contains(services, srv.Name) {
			found[i] = true
		}
	}
	index := make([]int, 0, len(found))
	for i := range found {
		index = append(index, i)
	}
	sort.Slice(index, func(a, b int) bool { return index[a] < index[b] })

	var matchedServices []*Service
	for _, i := range index {
		matchedServices = append(matchedServices, s.Services[i])
	}
'''),*imp(S,'slices','sort'))),
('r-each','refac',C,ed((S,KEPT,'''	live := map[string]struct{}{}
	each(usedIncluded, func(name string) {
		live[name] = struct{}{}
	})
	var kept []*Type
	for _, t := range s.Types {
		if _, ok := live[t.Name]; ok {
			kept = append(kept, t)
		}
	}
'''),(S,'func MatchMethodsWithAnnotations(','''func each(m map[string]bool, f func(string)) {
	for k, ok := range m {
		if ok {
			f(k)
		}
	}
}

func MatchMethodsWithAnnotations('''))),
('r-parallel','refac',C,ed((S,'''	for i := range s.Types {
		err := s.Types[i].Parse(s)
		if err != nil {
			return err
		}
	}
''','''	errs := make([]error, len(s.Types))
	for i := range s.Types {
		errs[i] = s.Types[i].Parse(s)
	}
	for _, err := range errs {
		if err != nil {
			return err
		}
	}
'''))),
('r-wait','refac',C,ed((S,HASH,'''	done := make(chan string)
	go func() { done <- jsonString }()
	jsonString = <-done
'''+HASH))),
]
