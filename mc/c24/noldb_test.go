//go:build !hookldb

package c24

import (
	"testing"

	"katiemc/kit"
)

func onDisk(*testing.T, *kit.Run) { panic("built without the tag") }
