package props

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Main runs a check and returns the exit status: 0 when the property held on
// everything explored, 1 with a VIOLATION line otherwise.
func Main(c *Ctx, verbose bool) int {
	t0 := time.Now()
	if registry[c.ID] == nil {
		fmt.Println("no such property:", c.ID)
		return 1
	}
	if err := c.LoadCore(); err != nil {
		fmt.Println("the source tree does not load:", err)
		return 1
	}
	Decide(c)
	if verbose {
		for _, o := range c.Obligs {
			fmt.Printf("%-40s %-10s states=%d acts=%d %.1fs %s\n", o.Name, o.Verdict, o.States, o.Acts, o.Seconds, o.Detail)
		}
		for i, v := range c.Violations {
			fmt.Println("VIOLATED", v.Obligation, v.Where, v.Msg)
			for _, l := range v.Trace {
				if i > 0 && c.Only == "" {
					break
				}
				fmt.Println("     ", l)
			}
		}
		fmt.Println("time", time.Since(t0))
	}
	known := c.knownFindings()
	var fresh []Violation
	said := map[string]bool{}
	for _, v := range c.Violations {
		if k := matchKnown(known, v); k != nil {
			if !said[k.text] {
				said[k.text] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.text)
			}
			continue
		}
		fresh = append(fresh, v)
	}
	c.writeEvidence(time.Since(t0), fresh)
	held, undecided, violated := 0, 0, 0
	for _, o := range c.Obligs {
		switch o.Verdict {
		case "holds":
			held++
		case "undecided":
			undecided++
			fmt.Printf("undecided: %s: %s\n", o.Name, firstLine(o.Detail))
		default:
			violated++
		}
	}
	fmt.Printf("%s: %d obligations: %d hold, %d violated, %d undecided (%.1fs)\n", c.ID, len(c.Obligs), held, violated, undecided, time.Since(t0).Seconds())
	if len(fresh) == 0 {
		return 0
	}
	rep := filepath.Join(c.Verif, "evidence", c.ID+".violation.txt")
	var sb strings.Builder
	for _, v := range fresh {
		fmt.Fprintf(&sb, "property %s, obligation %s\n%s: %s\n", c.ID, v.Obligation, v.Where, v.Msg)
		for _, l := range v.Trace {
			fmt.Fprintf(&sb, "    %s\n", l)
		}
		sb.WriteString("\n")
	}
	if err := os.WriteFile(rep, []byte(sb.String()), 0o644); err != nil {
		fmt.Println(err)
	}
	for _, v := range fresh {
		fmt.Printf("%s: %s: %s\n", v.Where, v.Obligation, v.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, rep)
	return 1
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

type finding struct{ oblig, where, text string }

// knownFindings reads the lines
//
//	known: property=<id> obligation=<name> where=<substring of the message> -- <what fails>
func (c *Ctx) knownFindings() []*finding {
	data, err := os.ReadFile(filepath.Join(c.Verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []*finding
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, ok := strings.Cut(strings.TrimPrefix(l, "known: "), " -- ")
		if !ok {
			continue
		}
		f := &finding{text: text}
		id := ""
		for _, w := range strings.Fields(head) {
			k, v, _ := strings.Cut(w, "=")
			switch k {
			case "property":
				id = v
			case "obligation":
				f.oblig = v
			case "where":
				f.where = v
			}
		}
		if id == c.ID && f.oblig != "" && f.where != "" {
			out = append(out, f)
		}
	}
	return out
}

func matchKnown(fs []*finding, v Violation) *finding {
	for _, f := range fs {
		if f.oblig == v.Obligation && (strings.Contains(strings.ReplaceAll(v.Msg, " ", "_"), f.where) || strings.Contains(v.Where, f.where)) {
			return f
		}
	}
	return nil
}

func keys(m map[string]bool) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (c *Ctx) writeEvidence(d time.Duration, fresh []Violation) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	type ob struct {
		Name      string  `json:"name"`
		Verdict   string  `json:"verdict"`
		Detail    string  `json:"detail,omitempty"`
		States    int     `json:"abstract_states,omitempty"`
		Acts      int     `json:"activations,omitempty"`
		Functions int     `json:"functions,omitempty"`
		Sites     int     `json:"call_sites,omitempty"`
		Seconds   float64 `json:"seconds"`
	}
	obs := []ob{}
	brief := []string{}
	const enough = 4000
	states, steps, acts := 0, 0, 0
	held, undecided, violated := 0, 0, 0
	for _, o := range c.Obligs {
		switch {
		case len(c.Obligs) <= 300 || o.Verdict != "holds":
			if len(obs) < enough {
				obs = append(obs, ob{o.Name, o.Verdict, clip(o.Detail, 400), o.States, o.Acts, o.Functions, o.CallSites, float64(int(o.Seconds*100)) / 100})
			}
		case len(brief) < enough:
			brief = append(brief, fmt.Sprintf("%s: holds on %d states, %d functions, %d call sites", clip(o.Name, 80), o.States, o.Functions, o.CallSites))
		}
		states += o.States
		steps += o.Steps
		acts += o.Acts
		switch o.Verdict {
		case "holds":
			held++
		case "undecided":
			undecided++
		default:
			violated++
		}
	}
	cov := map[string]any{
		"explanation":           strings.Join(c.Rules, "\n"),
		"obligations":           len(c.Obligs),
		"obligations_held":      held,
		"obligations_undecided": undecided,
		"obligations_violated":  violated,
		"obligation_records":    obs,
		"functions_analysed":    len(c.Funcs),
		"functions":             keys(c.Funcs),
		"call_sites_analysed":   len(c.Sites),
		"abstract_states":       states,
		"abstract_steps":        steps,
		"activations":           acts,
		"assumed_without_model": keys(c.Assumed),
		"source_tree":           c.Repo,
	}
	if len(brief) > 0 {
		// the summary counts them all; the list is cut off to keep the file small
		cov["obligations_that_hold"] = brief
	}
	for k, v := range c.Counts {
		cov[k] = v
	}
	var vs []map[string]any
	for _, v := range fresh {
		if len(vs) == 200 {
			break
		}
		vs = append(vs, map[string]any{"obligation": v.Obligation, "where": v.Where, "what": v.Msg})
	}
	if vs != nil {
		cov["violations"] = vs
	}
	ev := map[string]any{"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": float64(int(d.Seconds()*100)) / 100}
	data, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(c.Verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fmt.Println(err)
	}
	os.Remove(filepath.Join(dir, c.ID+".violation.txt"))
}

// clip shortens a text to n bytes.
func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return strings.ToValidUTF8(s[:n], "") + "…"
}
