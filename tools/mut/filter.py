C='schema/schema.go'
P=['C16']
SRC=open('/repo/'+C).read()
def fn(name):
    i=SRC.index('func '+name+'('); j=SRC.index('\n}\n',i)+3
    return SRC[i:j]
MS,MM,IM=fn('MatchServices'),fn('MatchMethodsWithAnnotations'),fn('IgnoreMethodsWithAnnotations')
def ed(*prs):
    out={}
    fns={'MS':MS,'MM':MM,'IM':IM}
    for k,o,n in prs:
        cur=out.get(k,fns[k]); assert cur.count(o)>=1,(k,o); out[k]=cur.replace(o,n,1)
    return [(C,fns[k],v) for k,v in out.items()]
HELP='''
func annotated(m *Method, annotations map[string]string) bool {
	for name, value := range annotations {
		ann, ok := m.Annotations[name]
		if !ok || ann.AnnotationType != name {
			continue
		}
		if strings.Trim(value, " ") == "" || value == ann.Value {
			return true
		}
	}
	return false
}
'''
def body(neg): return '''	if s == nil {
		return nil
	}

	for _, srv := range s.Services {
		var methods []*Method
		for _, method := range srv.Methods {
			if %sannotated(method, annotations) {
				methods = append(methods, method)
			}
		}
		srv.Methods = methods
	}

	return s
}
'''%neg
sig=lambda n:'func %s(s *WebRPCSchema, annotations map[string]string) *WebRPCSchema {\n'%n
M=[
('r-helper','refac',P,[(C,MM,sig('MatchMethodsWithAnnotations')+body('')+HELP),(C,IM,sig('IgnoreMethodsWithAnnotations')+body('!'))]),
('r-common','refac',P,[(C,MM,sig('MatchMethodsWithAnnotations')+'	return filterMethods(s, func(m *Method) bool { return annotated(m, annotations) })\n}\n'+HELP+'''
func filterMethods(s *WebRPCSchema, keep func(m *Method) bool) *WebRPCSchema {
	if s == nil {
		return nil
	}
	for i := range s.Services {
		kept := make([]*Method, 0, len(s.Services[i].Methods))
		for _, m := range s.Services[i].Methods {
			if !keep(m) {
				continue
			}
			kept = append(kept, m)
		}
		s.Services[i].Methods = kept
	}
	return s
}
'''),(C,IM,sig('IgnoreMethodsWithAnnotations')+'	return filterMethods(s, func(m *Method) bool { return !annotated(m, annotations) })\n}\n')]),
('r-svc-nested','refac',P,[(C,MS,'''func MatchServices(s *WebRPCSchema, services []string) *WebRPCSchema {
	if s == nil || len(services) == 0 {
		return s
	}
	var matched []*Service
	for _, srv := range s.Services {
		for _, name := range services {
			if srv.Name == name {
				matched = append(matched, srv)
				break
			}
		}
	}
	s.Services = matched
	return s
}
''')]),
('r-svc-contains','refac',P,[(C,MS,'''func MatchServices(s *WebRPCSchema, services []string) *WebRPCSchema {
	if s == nil || len(services) == 0 {
		return s
	}
	wanted := make(map[string]bool, len(services))
	for _, name := range services {
		wanted[name] = true
	}
	kept := s.Services[:0]
	for _, srv := range s.Services {
		if wanted[srv.Name] {
			kept = append(kept, srv)
		}
	}
	s.Services = kept
	return s
}
''')]),
('r-svc-deletefunc','refac',P,[(C,'	"strings"\n)','	"slices"\n	"strings"\n)'),(C,MS,'''func MatchServices(s *WebRPCSchema, services []string) *WebRPCSchema {
	if s == nil || len(services) == 0 {
		return s
	}
	s.Services = slices.DeleteFunc(s.Services, func(srv *Service) bool { return !slices.Contains(services, srv.Name) })
	return s
}
''')]),
('b-fold','bug',P,ed(('MS','serviceMap[srv] = struct{}{}','serviceMap[strings.ToLower(srv)] = struct{}{}'),('MS','serviceMap[srv.Name]','serviceMap[strings.ToLower(srv.Name)]'))),
('b-trim','bug',P,ed(('MS','serviceMap[srv] =','serviceMap[strings.TrimSpace(srv)] ='))),
('b-none','bug',P,ed(('MS','	s.Services = matchedServices\n','	if len(matchedServices) > 0 {\n		s.Services = matchedServices\n	}\n'))),
('b-order','bug',P,ed(('MS','''	for _, srv := range s.Services {
		if _, ok := serviceMap[srv.Name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}
''','''	for _, name := range services {
		for _, srv := range s.Services {
			if srv.Name == name {
				matchedServices = append(matchedServices, srv)
			}
		}
	}
'''))),
('b-noval','bug',P,ed(('MM','name == ann.AnnotationType && value == ann.Value','name == ann.AnnotationType || value == ann.Value'))),
('b-trimval','bug',P,ed(('MM','value == ann.Value','trimmedAnnVal == strings.Trim(ann.Value, " ")'))),
('b-ignore-continue','bug',P,ed(('IM','''				ann, ok := method.Annotations[name]
				if !ok {
					continue
				}
''','''				ann, ok := method.Annotations[name]
				if !ok {
					break
				}
'''))),
('b-ignore-any','bug',P,ed(('IM','''					if name == ann.AnnotationType && value == ann.Value {
						ignore = true
						break
					}''','''					ignore = name == ann.AnnotationType && value == ann.Value'''))),
('b-match-all','bug',P,ed(('MM','''					if name == ann.AnnotationType && value == ann.Value {
						match = true
						break
					}''','''					match = name == ann.AnnotationType && value == ann.Value'''))),
('b-hoist','bug',P,ed(('IM','''		for _, method := range srv.Methods {
			ignore := false
''','''		ignore := false
		for _, method := range srv.Methods {
'''))),
('b-hoist-list','bug',P,ed(('IM','''	for i, srv := range s.Services {
		var methods []*Method
''','''	var methods []*Method
	for i, srv := range s.Services {
'''))),
('b-break-outer','bug',P,ed(('MM','		s.Services[i].Methods = methods\n','		if len(methods) > 0 {\n			s.Services[i].Methods = methods\n		}\n'))),
('b-prefix','bug',P,ed(('MM','value == ann.Value','strings.HasPrefix(ann.Value, value)'))),
('b-mutate','bug',P,ed(('MM','				methods = append(methods, method)\n','				method.Annotations = nil\n				methods = append(methods, method)\n'))),
('b-inplace','bug',P,ed(('MM','		var methods []*Method\n','		methods := s.Services[0].Methods[:0]\n'))),
]
