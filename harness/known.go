package main

import (
	"bufio"
	"fmt"
	"os"
	"strings"
)

// A known finding is a genuine defect that is recorded, not repaired: a
// function which shows that the listed input still fails. known_findings.txt
// says which are listed ("known: property=<id> key=<key> <what fails>"); its
// "fixed:" lines are a record only.
var probes = map[string]func() bool{}

// knownFindings prints the findings listed for a property which still fail.
func knownFindings(id, file string) bool {
	f, err := os.Open(file)
	if os.IsNotExist(err) {
		return true
	}

	if err != nil {
		fmt.Fprintln(os.Stderr, "monitor:", err)
		return false
	}

	defer f.Close()

	s := bufio.NewScanner(f)
	for s.Scan() {
		w := strings.Fields(s.Text())
		if len(w) < 4 || w[0] != "known:" || w[1] != "property="+id {
			continue
		}

		key := strings.TrimPrefix(w[2], "key=")
		if p := probes[key]; p != nil && p() {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, strings.Join(w[3:], " "))
		}
	}

	return true
}
