package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// dumpQueries writes the queries of obligations whose description contains the filter.
func (x *Exec) dumpQueries(dir, filter string) {
	os.MkdirAll(dir, 0o755)
	n := 0
	for _, o := range x.obls {
		if strings.Contains(o.name, filter) {
			n++
			x.userPhase = os.Getenv("GOVER_DUMP_USER") != ""
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("%d.smt2", n)), []byte("; "+o.name+"\n"+x.query(o, false)), 0o644)
		}
	}
}

var dumpN = 0

func (x *Exec) dumpOne(o *Oblig, why string) {
	os.MkdirAll("/tmp/gdump", 0o755)
	dumpN++
	f := fmt.Sprintf("/tmp/gdump/f%d.smt2", dumpN)
	fmt.Fprintln(os.Stderr, "  dump", f, why)
	os.WriteFile(f, []byte("; "+why+"\n"+x.query(o, false)), 0o644)
}
