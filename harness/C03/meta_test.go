package entity_test

import (
	"common/codeckit"
	"common/vkit"
	"metaserver/internal/entity"
	"testing"
)

func TestVerifC03(t *testing.T) {
	vkit.Run(t, "C03", func(c *vkit.Ctx) {
		c.Rule("every field over its boundary values, all pairs of fields, every truncation, one-byte change and short input")
		codeckit.Check(c, []codeckit.Rec{
			{Name: "RaftData", New: func() codeckit.Codec { return new(entity.RaftData) },
				// marks how a command was submitted, is no part of it
				Carried: func(p string) bool { return p == ".Batch" }},
		})
	})
}
