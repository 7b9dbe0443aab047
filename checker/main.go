// Command webrpcverif decides properties of webrpc from its source.
package main

import (
	"flag"
	"fmt"
	"os"

	"webrpcverif/props"
)

func main() {
	id := flag.String("prop", "", "property id")
	repo := flag.String("repo", "/repo", "source tree")
	verif := flag.String("verif", "/verif", "verification tree")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "only obligations whose name contains this")
	verbose := flag.Bool("v", false, "list obligations")
	flag.Parse()
	c := props.NewCtx(*id, *repo, *verif, *tier)
	c.Only = *only
	os.Exit(props.Main(c, *verbose))
}

var _ = fmt.Sprint
