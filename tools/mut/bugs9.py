T='gen/template_source.go'
def cachetest(body): return '''package gen

import (
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"testing/fstest"
)

func source(names ...string) http.FileSystem {
	m := fstest.MapFS{}
	for _, n := range names {
		m[n] = &fstest.MapFile{Data: []byte("{{define \\"main\\"}}new{{end}}")}
	}
	return http.FS(m)
}

// A name no file can have: writing it fails.
var tooLong = "m" + strings.Repeat("x", 300) + ".go.tmpl"

func available(s *TemplateSource) bool {
	ok, _, _, _ := s.openCacheDir()
	return ok
}

func TestPlanted(t *testing.T) {
	t.Setenv("TMPDIR", t.TempDir())
	s, err := NewTemplateSource("example.invalid/owner/repo", &Config{})
	if err != nil {
		t.Fatal(err)
	}
	dir, err := s.getTmpCacheDir()
	if err != nil || !strings.HasPrefix(dir, os.TempDir()) {
		t.Fatal(dir, err)
	}
	if err := s.cacheTemplates(s.target, source("main.go.tmpl"), dir); err != nil || !available(s) {
		t.Fatal("no cache after a complete refresh", err)
	}
	_ = filepath.Join
'''+body+'}\n'
B=[
dict(id='c23-marker-early',property='C23',gen=True,pkg='gen',needs='a refresh that fails or is interrupted while templates are written',
 breaks='a cache with only some of the templates is marked as complete and used by the next run',
 edits=[(T,'''	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename), []byte(strings.TrimSpace(target)), 0755)
	if err != nil {
		return err
	}

	now := time.Now()
	data := []byte(fmt.Sprintf("%d", now.Unix()))

	err = os.WriteFile(filepath.Join(cacheDir, templateCacheTimestampFilename), data, 0755)
	if err != nil {
		return err
	}

	return nil
''','''	return nil
'''),(T,'''	for _, filename := range filenames {
''','''	// target and time of the cached templates
	meta := map[string]string{
		templateCacheInfoFilename:      strings.TrimSpace(target),
		templateCacheTimestampFilename: fmt.Sprintf("%d", time.Now().Unix()),
	}
	for filename, data := range meta {
		err = os.WriteFile(filepath.Join(cacheDir, filename), []byte(data), 0755)
		if err != nil {
			return err
		}
	}

	for _, filename := range filenames {
''')],
 test=cachetest('''	if err := s.cacheTemplates(s.target, source("a.go.tmpl", "main.go.tmpl", tooLong), dir); err == nil {
		t.Fatal("no error for a template that cannot be written")
	}
	if available(s) {
		t.Error("a partial cache is taken for complete")
	}
''')),
dict(id='c23-last-error',property='C23',gen=True,pkg='gen',needs='a failure to write a template that is not the last one',
 breaks='the refresh goes on after a failed write and marks the partial cache as complete',
 edits=[(T,'''		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
		if err != nil {
			return err
		}
	}

	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename)''','''		err = os.WriteFile(filepath.Join(cacheDir, filename), data, 0755)
	}
	if err != nil {
		return err
	}

	err = os.WriteFile(filepath.Join(cacheDir, templateCacheInfoFilename)''')],
 test=cachetest('''	if err := s.cacheTemplates(s.target, source("a.go.tmpl", "z.go.tmpl", tooLong), dir); err == nil {
		t.Error("no error for a template that cannot be written")
	}
	if available(s) {
		t.Error("a partial cache is taken for complete")
	}
''')),
dict(id='c23-expired-unused',property='C23',gen=True,pkg='gen',needs='a failing fetch while the complete cache is older than its time to live',
 breaks='an expired but complete cache is not used when fetching fails',
 edits=[(T,'''			if cacheAvailable {
				sourceFS = cacheFS
				s.CacheAge = cacheAge
			} else {''','''			if s.CacheAge = cacheAge; cacheAvailable && cacheAge <= templateCacheTTL {
				sourceFS = cacheFS
			} else {''')],
 test=cachetest('''	if err := os.WriteFile(filepath.Join(dir, templateCacheTimestampFilename), []byte("1000"), 0o644); err != nil {
		t.Fatal(err)
	}
	if _, err := s.loadTemplates(); err != nil {
		t.Error("the expired cache is not used:", err)
	}
	if s.CacheRefreshErr == nil {
		t.Error("no error of the refresh is kept")
	}
''')),
]
