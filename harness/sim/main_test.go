package sim

import (
	"encoding/json"
	"os"
	"testing"
	"testing/synctest"
)

type runner func(t *testing.T, raw json.RawMessage, tr *Trace)

var runners = map[string]runner{}
var plainRunners = map[string]runner{} // run outside a bubble

// TestScenario runs the scenario named by VERIF_SCN and writes its trace to VERIF_OUT.
func TestScenario(t *testing.T) {
	path, out := os.Getenv("VERIF_SCN"), os.Getenv("VERIF_OUT")
	if path == "" {
		t.Skip("no scenario")
	}
	raw, err := os.ReadFile(path)
	if err != nil {
		Die("%v", err)
	}
	var head struct{ Kind string }
	if err := json.Unmarshal(raw, &head); err != nil {
		Die("%v", err)
	}
	if r := plainRunners[head.Kind]; r != nil {
		tr := NewTrace(out)
		r(t, raw, tr)
		tr.Close()
		os.Exit(0)
	}
	r := runners[head.Kind]
	if r == nil {
		Die("unknown kind %q", head.Kind)
	}
	synctest.Test(t, func(t *testing.T) {
		tr := NewTrace(out)
		r(t, raw, tr)
		tr.Close()
		os.Exit(0) // goroutines of the library outlive the scenario; they are of no interest
	})
}
