package main

import (
	"bufio"
	"os"
	"path/filepath"
	"strings"
)

// knownFinding is one "known:" line of /verif/known_findings.txt.
type knownFinding struct{ property, id, what string }

var knownFindings []knownFinding

func init() {
	f, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		rest, ok := strings.CutPrefix(sc.Text(), "known: property=")
		if !ok {
			continue
		}
		prop, rest, _ := strings.Cut(rest, " id=")
		id, what, _ := strings.Cut(rest, " ")
		knownFindings = append(knownFindings, knownFinding{prop, id, what})
	}
}

func knownText(prop, id string) string {
	for _, k := range knownFindings {
		if k.id == id && k.property == prop {
			return k.what
		}
	}
	return ""
}

// isKnown reports whether the file lists this finding for this property.
func isKnown(prop, id string) bool { return knownText(prop, id) != "" }
