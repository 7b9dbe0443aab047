package props

import (
	"fmt"
	"os"
	"path/filepath"

	"webrpcverif/ai"
)

// LoadGen loads the generator and its command. Two of the template modules it
// embeds are not in the module cache; stubs with the same shape (an embedded
// file system) take their place. The go.mod of the tree is used otherwise.
func (c *Ctx) LoadGen() error {
	if c.Gen != nil {
		return nil
	}
	dir, err := os.MkdirTemp("", "webrpcverif-mod")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	mod, err := os.ReadFile(filepath.Join(c.Repo, "go.mod"))
	if err != nil {
		return err
	}
	sum, err := os.ReadFile(filepath.Join(c.Repo, "go.sum"))
	if err != nil {
		return err
	}
	for _, m := range []string{"golang", "typescript"} {
		stub := filepath.Join(dir, "gen-"+m)
		mod = fmt.Appendf(mod, "\nreplace github.com/webrpc/gen-%s => %s\n", m, stub)
		if err := os.Mkdir(stub, 0o755); err != nil {
			return err
		}
		for name, text := range map[string]string{
			"go.mod":       "module github.com/webrpc/gen-" + m + "\n\ngo 1.20\n",
			"embed.go":     "package " + m + "\n\nimport \"embed\"\n\n//go:embed *.go.tmpl\nvar FS embed.FS\n",
			"main.go.tmpl": "\n",
		} {
			if err := os.WriteFile(filepath.Join(stub, name), []byte(text), 0o644); err != nil {
				return err
			}
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), mod, 0o644); err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.sum"), sum, 0o644); err != nil {
		return err
	}
	p, err := ai.Load(ai.LoadConfig{Dir: c.Repo, Patterns: []string{".", "./schema/...", "./gen", "./cmd/webrpc-gen"}, SrcPrefix: []string{Root}, SkipInit: []string{GenPkg}, NoInit: []string{CmdPkg},
		Env: []string{"GOFLAGS=-mod=mod"}, Flags: []string{"-modfile=" + filepath.Join(dir, "go.mod")}})
	if err != nil {
		return err
	}
	c.Gen = p
	return nil
}
