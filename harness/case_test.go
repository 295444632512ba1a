package harness

import (
	"encoding/json"
	"os"
	"testing"
	"testing/synctest"
)

// kinds maps the kind of a case to its driver.
var kinds = map[string]func(rec *recorder, c json.RawMessage){}

// TestCase runs the case in the file VERIF_CASE and appends what it observed to VERIF_OUT.
func TestCase(t *testing.T) {
	b, err := os.ReadFile(os.Getenv("VERIF_CASE"))
	if err != nil {
		t.Skip("no case")
	}
	var h struct{ Kind string }
	if err := json.Unmarshal(b, &h); err != nil {
		t.Fatal(err)
	}
	f, err := os.OpenFile(os.Getenv("VERIF_OUT"), os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	rec := &recorder{f: f}
	run := kinds[h.Kind]
	if run == nil {
		t.Fatalf("unknown kind %q", h.Kind)
	}
	synctest.Test(t, func(t *testing.T) {
		run(rec, b)
		rec.emit(obj{"done": true})
		exit(0) // goroutines of the server may outlive the case
	})
}
