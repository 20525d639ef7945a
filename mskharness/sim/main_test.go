package sim

import (
	"encoding/json"
	"os"
	"testing"
)

// TestScenario runs the scenario named by VERIF_SCN and writes its trace to VERIF_OUT.
func TestScenario(t *testing.T) {
	path, out := os.Getenv("VERIF_SCN"), os.Getenv("VERIF_OUT")
	if path == "" {
		t.Skip("no scenario")
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		Die("%v", err)
	}
	var s mskScn
	if err := json.Unmarshal(raw, &s); err != nil {
		Die("%v", err)
	}
	tr := NewTrace(out)
	runMsk(s, tr)
	tr.Close()
	os.Exit(0)
}
