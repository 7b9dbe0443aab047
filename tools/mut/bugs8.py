C='cmd/webrpc-gen/main.go'
def cmdtest(imports,body): return '''package main

import (
	"os"
	"os/exec"
	"path/filepath"
'''+''.join('\t"%s"\n'%i for i in imports)+'''	"testing"
)

// command runs the command itself (this test binary) in dir.
func command(dir string, args ...string) (string, error) {
	cmd := exec.Command(os.Args[0], append([]string{"-test.run=^TestPlanted$", "--"}, args...)...)
	cmd.Env = append(os.Environ(), "PLANTED=1")
	cmd.Dir = dir
	out, err := cmd.CombinedOutput()
	return string(out), err
}

const ridl = "webrpc = v1\\nname = x\\nversion = v1.0.0\\nbasepath = /rpc\\n\\nservice S\\n  - M()\\n"

func TestPlanted(t *testing.T) {
	if os.Getenv("PLANTED") != "" {
		for i, a := range os.Args {
			if a == "--" {
				os.Args = append(os.Args[:1], os.Args[i+1:]...)
				break
			}
		}
		main()
		os.Exit(0)
	}
	dir := t.TempDir()
	put := func(name, text string) {
		if err := os.WriteFile(filepath.Join(dir, name), []byte(text), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	put("a.ridl", ridl)
'''+body+'}\n'
def gentest(imports,body): return '''package gen

import (
'''+''.join('\t"%s"\n'%i for i in imports)+'''	"testing"

	"github.com/webrpc/webrpc/schema"
)

'''+body
B=[
dict(id='c24-short-circuit',property='C24',gen=True,pkg='cmd/webrpc-gen',needs='an output directory that does not exist and cannot be created (its parent is a regular file)',
 breaks='the shadowed error of MkdirAll is lost and so is that of writing the file: the command succeeds without output',
 edits=[(C,'''		err := os.MkdirAll(outdir, 0o755)
		if err != nil {
			return err
		}
	}

	err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	if err != nil {
		return err
	}

	return nil
''','''		if err := os.MkdirAll(outdir, 0o755); err == nil {
			err = os.WriteFile(outfile, []byte(protoGen), 0o644)
		}
	} else {
		err = os.WriteFile(outfile, []byte(protoGen), 0o644)
	}

	return err
''')],
 test=cmdtest([],'''	put("file", "")
	if out, err := command(dir, "-schema=a.ridl", "-target=json", "-out=new/dir/x.json"); err != nil {
		t.Fatal(out, err)
	}
	if out, err := command(dir, "-schema=a.ridl", "-target=json", "-out=file/x.json"); err == nil {
		t.Error("success although the output cannot be written:", out)
	}
''')),
dict(id='c24-mixed-annotations',property='C24',gen=True,pkg='cmd/webrpc-gen',needs='a list of annotations of which a later one is malformed',
 breaks='a malformed annotation after a good one is skipped and the command succeeds with other methods than asked for',
 edits=[(C,'''		if !ok {
			return annotationsMap, fmt.Errorf("invalid annotation format: %s", annonation)
		}
''','''		if !ok {
			if len(annotationsMap) > 0 {
				continue
			}
			return annotationsMap, fmt.Errorf("invalid annotation format: %s", annonation)
		}
''')],
 test=cmdtest([],'''	if out, err := command(dir, "-schema=a.ridl", "-target=json", "-ignore=@internal"); err != nil {
		t.Fatal(out, err)
	}
	for _, bad := range []string{"internal", "@internal,deprecated"} {
		if out, err := command(dir, "-schema=a.ridl", "-target=json", "-ignore="+bad); err == nil {
			t.Error("success with the malformed list", bad, out)
		}
	}
''')),
dict(id='c24-execute-partial',property='C24',gen=True,pkg='cmd/webrpc-gen',needs='a template that fails after it has written some output',
 breaks='output of a template that failed midway is written and reported as success',
 edits=[('gen/gen.go','''	err = tmpl.ExecuteTemplate(&b, "main", vars)
	if err != nil {
		return genOutput, err
	}
''','''	err = tmpl.ExecuteTemplate(&b, "main", vars)
	if err != nil && b.Len() == 0 {
		return genOutput, err
	}
''')],
 test=cmdtest([],'''	put("main.go.tmpl", "{{define \\"main\\"}}package x\\n{{template \\"rest\\" .}}{{end}}{{define \\"rest\\"}}{{minVersion 1 2}}{{end}}")
	if out, err := command(dir, "-schema=a.ridl", "-target=.", "-fmt=false", "-out=x.txt"); err == nil {
		t.Error("success although the template failed:", out)
	}
	put("main.go.tmpl", "{{define \\"main\\"}}package x\\n{{end}}")
	if out, err := command(dir, "-schema=a.ridl", "-target=.", "-fmt=false", "-out=x.txt"); err != nil {
		t.Error(out, err)
	}
''')),
dict(id='c24-flags-continue',property='C24',gen=True,pkg='cmd/webrpc-gen',needs='a known flag with a value it does not accept',
 breaks='the command goes on with default values after a flag could not be parsed, and succeeds',
 edits=[(C,'flag.NewFlagSet("webrpc-gen", flag.ExitOnError)','flag.NewFlagSet("webrpc-gen", flag.ContinueOnError)')],
 test=cmdtest([],'''	if out, err := command(dir, "-schema=a.ridl", "-target=json", "-fmt=false"); err != nil {
		t.Fatal(out, err)
	}
	if out, err := command(dir, "-schema=a.ridl", "-target=json", "-fmt=maybe"); err == nil {
		t.Error("success with -fmt=maybe", out)
	}
''')),
dict(id='c25-clash-in-place',property='C25',gen=True,pkg='gen',needs='a schema error with a code whose negative is the code of a built-in error',
 breaks='the built-in error takes over the HTTP status of a declared error',
 edits=[('gen/gen.go','''	genOutput := &GenOutput{}
''','''	// declared errors are listed by template along with the built-in ones
	for _, e := range proto.Errors {
		for _, w := range vars.WebrpcErrors {
			if w.Code == -e.Code && w.HTTPStatus < 500 {
				w.HTTPStatus = e.HTTPStatus
			}
		}
	}

	genOutput := &GenOutput{}
''')],
 test=gentest([],'''func TestPlanted(t *testing.T) {
	s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x", SchemaVersion: "v1", Errors: []*schema.Error{{Code: 10, Name: "E", Message: "m", HTTPStatus: 503}}}
	if _, err := Generate(s, "golang", &Config{}); err != nil {
		t.Fatal(err)
	}
	want := map[string]int{"WebrpcEndpoint": 400, "WebrpcStreamFinished": 200, "WebrpcBadRoute": 404}
	for _, e := range WebrpcErrors {
		if n, ok := want[e.Name]; ok && n != e.HTTPStatus {
			t.Errorf("%s has the status %d", e.Name, e.HTTPStatus)
		}
	}
}
''')),
dict(id='c25-shared-code',property='C25',gen=True,pkg='gen',needs='looking at every pair of entries',
 breaks='two built-in errors share a code, because a new one reuses the code of the last',
 edits=[('gen/errors.go','''	// Note: Do not''','''	{Code: -10, Name: "WebrpcTimeout", Message: "request timed out", HTTPStatus: 504},
	// Note: Do not''')],
 test=gentest([],'''func TestPlanted(t *testing.T) {
	seen := map[int]*schema.Error{}
	for _, e := range WebrpcErrors {
		if o := seen[e.Code]; o != nil {
			t.Errorf("%s and %s share the code %d", o.Name, e.Name, e.Code)
		}
		seen[e.Code] = e
	}
}
''')),
dict(id='c25-prefix-case',property='C25',gen=True,pkg='gen',needs='an error declared with a name like WEBRPCBadRoute, in other letter case than the built-in prefix',
 breaks='a declared error may have the name of a built-in one in other letter case',
 edits=[('schema/error.go','strings.HasPrefix(strings.ToLower(s.Name), "webrpc")','strings.HasPrefix(s.Name, "Webrpc")')],
 test=gentest([],'''func TestPlanted(t *testing.T) {
	for _, n := range []string{"WebrpcBadRoute", "WEBRPCBadRoute", "WebRPCBadRoute"} {
		s := &schema.WebRPCSchema{WebrpcVersion: "v1", SchemaName: "x", SchemaVersion: "v1", Errors: []*schema.Error{{Code: 10, Name: n, Message: "m", HTTPStatus: 503}}}
		if err := s.Validate(); err == nil {
			t.Errorf("an error named %s is accepted", n)
		}
	}
}
''')),
]
