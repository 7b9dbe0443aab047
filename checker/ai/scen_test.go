package ai

import (
	"fmt"
	"testing"
	"time"
)

const sp = "github.com/webrpc/webrpc/schema"

func load(t *testing.T) *Program {
	t0 := time.Now()
	p, err := Load(LoadConfig{Dir: "/repo", Patterns: []string{".", "./schema/..."}, SrcPrefix: []string{"github.com/webrpc/webrpc"}, Env: []string{"GOFLAGS="}})
	if err != nil {
		t.Fatal(err)
	}
	fmt.Println("load", time.Since(t0), p.InitForks, p.InitProblems, len(p.base))
	return p
}

func TestC01(t *testing.T) {
	p := load(t)
	b := NewB(p)
	tt := b.Type(sp, "Type")
	name := b.StrAtom("T.Name", Lit{P: MustRe(`\A\p{Lu}`), Neg: true})
	bad := b.New("T", b.Struct(tt, F{"Name": name}))
	ptr := p.Method(sp, "Type", "Parse").Signature.Recv().Type()
	ts := b.Seq(ptr, b.Others(ptr), bad, b.Others(ptr))
	s := b.New("schema", b.Struct(b.Type(sp, "WebRPCSchema"), F{"Types": ts}))
	t0 := time.Now()
	b.E.MaxStates = 60000
	b.E.Summarise("(*" + sp + ".VarType).Parse")
	top := b.E.Run(b.St, p.Method(sp, "WebRPCSchema", "Validate"), []Value{s})
	fmt.Println(time.Since(t0), "states", b.E.States, "steps", b.E.Steps, "acts", len(b.E.acts), "results", len(top.Results))
	for _, l := range b.E.Profile(30) {
		fmt.Println(l)
	}

	for _, r := range top.Results {
		fmt.Printf("%v\n", r.Ret)
		if isNil(r.Ret) {
			for _, l := range b.E.TraceLines(r.St.tr, 60) {
				fmt.Println("   ", l)
			}
		}
	}
	for _, l := range b.E.SortedProblems() {
		fmt.Println("PROBLEM", l)
	}
	fmt.Println(b.E.Unmodelled)
	for _, o := range b.E.Outcomes {
		fmt.Println("OUT", o.Kind, o.Msg, b.E.Pos(o.Pos))
	}
}
