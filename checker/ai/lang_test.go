package ai

import "testing"

func TestLang(t *testing.T) {
	a := LPart{Atom: true, Lits: []Lit{{P: PFull(`[a-zA-Z]+[a-zA-Z0-9_]*`)}}}
	chk := func(want bool, parts []LPart, ex ...Lit) {
		t.Helper()
		if got := Sat(parts, ex); got != want {
			t.Errorf("got %v", got)
		}
	}
	chk(false, []LPart{a}, Lit{P: PExact("")})
	chk(true, []LPart{a}, Lit{P: PPrefix("webrpc")})
	chk(false, []LPart{a}, Lit{P: PAny(" \t")})
	chk(true, []LPart{a}, Lit{P: MustRe(`^[a-zA-Z]+[a-zA-Z0-9_]*$`)})
	chk(false, []LPart{a}, Lit{Neg: true, P: MustRe(`^[a-zA-Z]+[a-zA-Z0-9_]*$`)})
	chk(false, []LPart{{Const: "[]"}, a}, Lit{Neg: true, P: PPrefix("[]")})
	chk(true, []LPart{a}, Lit{P: PPrefix("webrpc"), Maps: "l"}, Lit{P: PPrefix("WEB")})
	chk(false, []LPart{a}, Lit{P: PPrefix("webrpc"), Maps: "l"}, Lit{P: PPrefix("WAB")})
	chk(false, []LPart{{Const: "/"}, a}, Lit{P: PSuffix("/")})
	chk(true, []LPart{{Atom: true}}, Lit{P: PExact("")})
	chk(false, []LPart{{Atom: true, Lits: []Lit{{Neg: true, P: PExact("")}}}}, Lit{P: PExact("")})
}
