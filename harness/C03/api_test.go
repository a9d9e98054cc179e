package credential_test

import (
	"apiserver/internal/usecase/componet/auth/credential"
	"common/codeckit"
	"common/vkit"
	"testing"
)

func TestVerifC03(t *testing.T) {
	vkit.Run(t, "C03", func(c *vkit.Ctx) {
		c.Rule("every field over its boundary values, all pairs of fields, every truncation, one-byte change and short input")
		codeckit.Check(c, []codeckit.Rec{
			{Name: "AdminCredential", New: func() codeckit.Codec { return new(credential.AdminCredential) }},
		})
	})
}
