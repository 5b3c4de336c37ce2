package main

import (
	"fmt"
	"os"
	"time"

	"kverif/lib"
	"kverif/vsched"
)

var dir string

func main() {
	lib.Alphabet = fmt.Sprintf("the real program with %d kinds of requests (miss, stored, chunked, until close, POST, HEAD, hits with slow clients, revalidation, coalesced, failing or hanging upstream, store pending), each stopped at each step of its protocol, and pairs of them, with %d sequences of TERM, INT and HUP; the whole program under the scheduler with requests, reloads, watch, updates, purges and broadcasts around the signal", len(scripts), len(signalSets))
	lib.Assumptions = []string{"under the scheduler net/http's Serve, Shutdown and Close are replaced by their documented behaviour (bound to the real server by the runs of the real program)", "a signal before the handler is installed is not covered", "requests that exceed the listener's own time limit of 1 s are not judged in the real program", "a failure of the real program counts when it repeats three times"}
	lib.Main("C26", 80*time.Second, 800*time.Second, func(c *lib.Check, p *lib.Part) {
		var err error
		if dir, err = os.MkdirTemp("", "c26"); err != nil {
			panic(err)
		}
		defer os.RemoveAll(dir)
		newKube()
		if !vsched.RaceMode {
			realPart(c, p)
		}
		hooks()
		c.RunScenarios(p, scenarios(c.Thorough))
	})
}
