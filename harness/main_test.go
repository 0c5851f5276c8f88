package zkmc

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	if op := os.Getenv("ZK_FIRST"); op != "" {
		os.Exit(firstMain(op))
	}
	if os.Getenv("ZK_SHARD") != "" {
		if !testing.Testing() {
			os.Exit(3)
		}
		// synctest needs a *testing.T, so the shard runs inside a test
		os.Args = []string{os.Args[0], "-test.timeout=0", "-test.run=^TestShard$"}
		os.Exit(m.Run())
	}
	if os.Getenv("ZK_DEV") != "" {
		os.Exit(m.Run())
	}
	os.Exit(supervise())
}

var theT *testing.T

func TestShard(t *testing.T) {
	theT = t
	if rc := childMain(); rc != 0 {
		os.Exit(rc)
	}
	os.Exit(0)
}
