//go:build !hookldb

package c22

import (
	"testing"

	"katiemc/kit"
)

func onDisk(*testing.T, *kit.Run) { panic("built without the tag") }
