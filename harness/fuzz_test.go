package main

import (
	"os"
	"testing"
	"time"
)

// FuzzText lets Go's coverage-guided fuzzer look for texts that break the
// property named in the environment.
func FuzzText(f *testing.F) {
	id := os.Getenv("ICSVERIF_FUZZ")
	if id == "" {
		f.Skip("ICSVERIF_FUZZ is not set")
	}
	f.Fuzz(func(t *testing.T, b []byte) {
		if len(b) > 1<<16 {
			return
		}
		hung := time.AfterFunc(60*time.Second, func() { panic("does not end") })
		defer hung.Stop()
		if fail := fuzzText(id, string(b)); fail != "" {
			t.Fatal(fail)
		}
	})
}
