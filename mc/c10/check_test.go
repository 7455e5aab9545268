// C10: a client's view of the log only moves forward, along one log, and needs
// valid signatures and a clock that agrees.
package c10

import (
	"testing"

	"katiemc/kit"
)

func TestCheck(t *testing.T) {
	r := kit.Start("C10", "model_checking", "every client state reachable by responses from a family of forked logs that all carry valid signatures x every request x every response, under every tree head; all clock readings around the limits; all auditor heads; all pairs of overlapping requests and replays")
	forks(t, r)
	clocks(t, r)
	auditors(t, r)
	overlaps(t, r)
	direct(t, r)
	r.Finish()
}
