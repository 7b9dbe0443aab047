import os
def ed(*trip):
    fs={}
    out=[]
    for f,o,n in trip:
        s=open('/repo/'+f).read()
        cur=fs.get(f,s)
        assert cur.count(o)>=1,(f,o)
        fs[f]=cur.replace(o,n,1)
    return [(f,open('/repo/'+f).read(),fs[f]) for f in fs]
R='schema/ridl/ridl.go'; P='schema/ridl/parser.go'; L='schema/ridl/lexer.go'; V='schema/var_type.go'; N='schema/ridl/parser_node.go'; TK='schema/ridl/tokenizer.go'
PV='func ParseVarTypeExpr(schema *WebRPCSchema, expr string, vt *VarType) error {\n'
GETT='''	for _, typ := range schema.Types {
		if structExpr == string(typ.Name) {
			return typ, true
		}
	}
	return nil, false
'''
RUN='''	go func() {
		state := parserDefaultState
		for state != nil {
			fname := runtime.FuncForPC(reflect.ValueOf(state).Pointer()).Name()
			_ = fname
			// log.Printf("state: %v", fname)
			state = state(p)
		}
	}()

	err := p.collect()
	if err != nil {
		return err
	}

	return nil
'''
IMP='import (\n\t"errors"\n'
M=[
('b-typecache','bug',['C20'],ed((V,PV,'var parsed = map[string]VarType{}\n\n'+PV+'	if p, ok := parsed[expr]; ok {\n		*vt = p\n		return nil\n	}\n	defer func() { parsed[expr] = *vt }()\n'))),
('b-syncmap','bug',['C20'],ed((V,PV,'var parsed sync.Map\n\n'+PV+'	if p, ok := parsed.Load(expr); ok {\n		*vt = *p.(*VarType)\n		return nil\n	}\n	defer parsed.Store(expr, vt)\n'),(V,'import (','import (\n\t"sync"'))),
('b-pool','bug',['C20'],ed((P,'	words := []string{}\n','	words := (*wordPool.Get().(*[]string))[:0]\n	defer wordPool.Put(&words)\n'),(P,'var eofToken','var wordPool = sync.Pool{New: func() any { return new([]string) }}\n\nvar eofToken'),(P,'import (','import (\n\t"sync"'))),
('b-eof','bug',['C20'],ed((P,'		return eofToken\n','		eofToken.line = p.pos\n		return eofToken\n'))),
('b-eof2','bug',['C20'],ed((P,'	cur := p.cursor()\n	err = fmt','	cur := p.cursor()\n	if cur.line == 0 {\n		cur.line = p.length\n	}\n	err = fmt'))),
('b-invalid','bug',['C20'],ed((N,'func (tn TokenNode) String() string {','func (tn *TokenNode) mark(n int) *TokenNode {\n	tn.start = n\n	return tn\n}\n\nfunc (tn TokenNode) String() string {'),(N,'		return invalidToken\n','		return invalidToken.mark(1)\n'))),
('b-appendglobal','bug',['C20'],ed((V,'func isValidVarKeyType(s string) bool {\n','func isValidVarKeyType(s string) bool {\n	sort.Slice(VarKeyCoreTypes, func(i, j int) bool { return VarKeyCoreTypes[i] < VarKeyCoreTypes[j] })\n'),(V,'import (','import (\n\t"sort"'))),
('b-subappend','bug',['C20'],ed((V,'func isValidVarKeyType(s string) bool {\n	return isValidVarType(s, VarKeyCoreTypes)','func isValidVarKeyType(s string) bool {\n	keys := append(VarKeyCoreTypes[:1], VarIntegerCoreTypes...)\n	return isValidVarType(s, keys)'))),
('b-counter','bug',['C20'],ed((R,'func newImportError(','var nErrors atomic.Int64\n\nfunc newImportError('),(R,'	var stack []string\n','	var stack []string\n	nErrors.Add(1)\n'),(R,IMP,'import (\n\t"sync/atomic"\n\t"errors"\n'))),
('b-chdir','bug',['C20'],ed(('webrpc.go','	ext := filepath.Ext(absolutePath)\n','	if err := os.Chdir(filepath.Dir(absolutePath)); err != nil {\n		return nil, err\n	}\n	ext := filepath.Ext(absolutePath)\n'))),
('b-gocache','bug',['C20'],ed((R,'	m.cache = p.cache\n','	m.cache = shared\n'),(R,'func newImportError(','var shared = NewParser(nil, "", "").cache\n\nfunc newImportError('))),
('b-lexrace','bug',['C20'],ed((L,'	go lx.run()\n','	go lx.run()\n	lx.line, lx.col = 1, 0\n'))),
('b-runrace','bug',['C20'],ed((P,'	err := p.collect()\n','	if p.pos > p.length {\n		p.pos = p.length\n	}\n	err := p.collect()\n'))),
('b-baseVT','bug',['C20'],ed((V,'		vt.List = &VarListType{Elem: &VarType{}}\n','		vt.List = emptyList\n'),(V,PV,'var emptyList = &VarListType{Elem: &VarType{}}\n\n'+PV))),
('b-getdefault','bug',['C20'],ed((V,GETT,GETT.replace('	return nil, false\n','	return defaultType(structExpr), false\n')),(V,PV,'''var unknown = &Type{Kind: "struct"}

func defaultType(name string) *Type {
	t := unknown
	t.Name = name
	return t
}

'''+PV))),
('b-import-go','bug',['C20'],ed((R,'	src, err := fs.ReadFile(p.fsys, p.path)\n','''	for _, q := range []string{"a", "b"} {
		go func() { p.path = q }()
	}
	src, err := fs.ReadFile(p.fsys, p.path)
'''))),
('r-eofcopy','refac',['C20'],ed((P,'		return eofToken\n','		tok := *eofToken\n		tok.line = p.pos\n		return &tok\n'))),
('r-once','refac',['C20'],ed((V,'func isValidVarKeyType(s string) bool {\n','var (\n	keysOnce sync.Once\n	keySet map[CoreType]bool\n)\n\nfunc isValidVarKeyType(s string) bool {\n	keysOnce.Do(func() {\n		keySet = map[CoreType]bool{}\n		for _, k := range VarKeyCoreTypes {\n			keySet[k] = true\n		}\n	})\n'),(V,'import (','import (\n\t"sync"'))),
('r-initset','refac',['C20'],ed((V,'func isValidVarKeyType(s string) bool {\n','var keySet = map[CoreType]bool{}\n\nfunc init() {\n	for _, k := range VarKeyCoreTypes {\n		keySet[k] = true\n	}\n}\n\nfunc isValidVarKeyType(s string) bool {\n	if dt, ok := CoreTypeFromString[s]; ok {\n		return keySet[dt]\n	}\n'))),
('r-clone','refac',['C20'],ed((V,'func isValidVarKeyType(s string) bool {\n	return isValidVarType(s, VarKeyCoreTypes)','func isValidVarKeyType(s string) bool {\n	keys := append([]CoreType{}, VarKeyCoreTypes...)\n	keys = append(keys, VarIntegerCoreTypes...)\n	more := append(VarKeyCoreTypes, T_String)\n	third := slices.Concat(VarKeyCoreTypes, more)\n	slices.Sort(third)\n	return isValidVarType(s, keys)'),(V,'import (','import (\n\t"slices"'))),
('r-done','refac',['C20'],ed((P,RUN,'''	done := make(chan error, 1)
	go func() { done <- p.collect() }()

	for state := parserState(parserDefaultState); state != nil; {
		state = state(p)
	}
	return <-done
'''),(P,'	"reflect"\n',''),(P,'	"runtime"\n',''))),
('r-wg','refac',['C20'],ed((P,RUN,RUN.replace('	go func() {\n','	var wg sync.WaitGroup\n	wg.Add(1)\n	go func() {\n		defer wg.Done()\n').replace('	return nil\n','	wg.Wait()\n	return nil\n')),(P,'import (','import (\n\t"sync"'))),
('r-buffered','refac',['C20'],ed((L,'make(chan token)','make(chan token, 16)'))),
('r-lexlocal','refac',['C20'],ed((L,'	go lx.run()\n	return lx\n','	start(lx)\n	return lx\n'),(L,'func (lx *lexer) run() {','func start(lx *lexer) {\n	go func() {\n		lx.run()\n	}()\n}\n\nfunc (lx *lexer) run() {'))),
('r-slicelex','refac',['C20'],ed((TK,'	for tok := range lx.tokens {\n','	var all []token\n	for t := range lx.tokens {\n		all = append(all, t)\n	}\n	for _, tok := range all {\n'))),
('r-resolve','refac',['C20'],ed((V,PV,'''type resolver struct {
	seen map[string]*VarType
	list []string
}

func newResolver() *resolver { return &resolver{seen: map[string]*VarType{}} }

func (r *resolver) note(expr string, vt *VarType) {
	r.seen[expr] = vt
	r.list = append(r.list, expr)
}

var emptyResolver = newResolver()

'''+PV+'	r := newResolver()\n	r.note(expr, vt)\n	_ = len(emptyResolver.list)\n'))),
]
