S='schema/schema.go'; SV='schema/service.go'; E='schema/error.go'; R='schema/ridl/ridl.go'
B=[
dict(id='c19-service-order',property='C19',pkg='schema',needs='services that are selected by names of which some are repeated',
 breaks='the selected services come in the order of a map, which differs between runs',
 edits=[(S,'''	var matchedServices []*Service
''','''	if len(serviceMap) < len(services) {
		// names are repeated
		services = services[:0:0]
		for srv := range serviceMap {
			services = append(services, srv)
		}
	}

	var matchedServices []*Service
'''),(S,'''		if _, ok := serviceMap[srv.Name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}
''','''		if _, ok := serviceMap[srv.Name]; ok {
			matchedServices = append(matchedServices, srv)
		}
	}
	if len(services) > 0 && len(matchedServices) > 0 && matchedServices[0].Name != services[0] {
		// the service that was asked for first comes first
		for i, srv := range matchedServices {
			if srv.Name == services[0] {
				copy(matchedServices[1:i+1], matchedServices[:i])
				matchedServices[0] = srv
			}
		}
	}
''')],
 test='''package schema

import "testing"

func TestPlanted(t *testing.T) {
	for n := 0; n < 400; n++ {
		s := &WebRPCSchema{Services: []*Service{{Name: "A"}, {Name: "B"}, {Name: "C"}, {Name: "D"}}}
		out := ""
		for _, srv := range MatchServices(s, []string{"A", "C", "A", "B"}).Services {
			out += srv.Name
		}
		if out != "ABC" {
			t.Fatal(out)
		}
	}
}
'''),
dict(id='c19-first-duplicate',property='C19',pkg='schema',needs='a service with two different method names that are both used twice',
 breaks='which of the names the error is about depends on the order of a map',
 edits=[(SV,'''	methodList := map[string]string{}
''','''	methodList := map[string]int{}
'''),(SV,'''		if _, ok := methodList[methodNameLower]; ok {
			return fmt.Errorf("schema error: detected duplicate method name of '%s' in service '%s'", methodName, serviceName)
		}
		methodList[methodNameLower] = methodName
	}
''','''		methodList[methodNameLower]++
	}
	for methodName, n := range methodList {
		if n > 1 {
			return fmt.Errorf("schema error: detected duplicate method name of '%s' in service '%s'", methodName, serviceName)
		}
	}
''')],
 test='''package schema

import "testing"

func TestPlanted(t *testing.T) {
	seen := map[string]bool{}
	for n := 0; n < 400; n++ {
		s := &WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x", SchemaVersion: "v1"}
		srv := &Service{Name: "S"}
		for _, m := range []string{"a", "b", "c", "a", "b", "c"} {
			srv.Methods = append(srv.Methods, &Method{Name: m})
		}
		s.Services = []*Service{srv}
		err := s.Validate()
		if err == nil {
			t.Fatal("accepted")
		}
		seen[err.Error()] = true
	}
	if len(seen) > 1 {
		t.Errorf("%d different errors", len(seen))
	}
}
'''),
dict(id='c19-parallel-types',property='C19',pkg='schema',needs='a schema with several invalid types, and goroutines that finish in another order',
 breaks='which of the errors is returned depends on the schedule',
 edits=[(S,'''		err := s.Types[i].Parse(s)
		if err != nil {
			return err
		}
	}
''','''		go func() {
			results <- s.Types[i].Parse(s)
		}()
	}
	var failed error
	for range s.Types {
		if err := <-results; err != nil && failed == nil {
			failed = err
		}
	}
	if failed != nil {
		return failed
	}
'''),(S,'''	for i := range s.Types {
''','''	results := make(chan error, len(s.Types))
	for i := range s.Types {
''')],
 test='''package schema

import (
	"fmt"
	"testing"
)

func TestPlanted(t *testing.T) {
	seen := map[string]bool{}
	for n := 0; n < 500; n++ {
		s := &WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x", SchemaVersion: "v1"}
		for k := 0; k < 40; k++ {
			s.Types = append(s.Types, &Type{Kind: "struct", Name: fmt.Sprintf("T%d", k), Fields: []*TypeField{{Name: "1 2"}}})
		}
		err := s.Validate()
		if err == nil {
			t.Fatal("accepted")
		}
		seen[err.Error()] = true
	}
	if len(seen) > 1 {
		t.Errorf("%d different errors", len(seen))
	}
}
'''),
]
