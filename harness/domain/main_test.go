package domain

import (
	"io"
	"log"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	if dir := os.Getenv("VERIF_CHILD_DIR"); dir != "" {
		child(dir)
		return
	}
	os.Exit(m.Run())
}
