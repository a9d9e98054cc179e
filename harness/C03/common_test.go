package msg_test

import (
	"common/codeckit"
	"common/hashslot"
	"common/proto/msg"
	"common/system"
	"common/system/cpu"
	"common/system/disk"
	"common/system/mem"
	"common/vkit"
	"testing"
)

func TestVerifC03(t *testing.T) {
	vkit.Run(t, "C03", func(c *vkit.Ctx) {
		c.Rule("every field over its boundary values, all pairs of fields, every truncation, one-byte change and short input")
		R := func(n string, f func() codeckit.Codec) codeckit.Rec { return codeckit.Rec{Name: n, New: f} }
		md := R("Metadata", func() codeckit.Codec { return new(msg.Metadata) })
		ver := R("Version", func() codeckit.Codec { return new(msg.Version) })
		bkt := R("Bucket", func() codeckit.Codec { return new(msg.Bucket) })
		codeckit.Check(c, []codeckit.Rec{
			md, ver, bkt,
			R("Extra", func() codeckit.Codec { return new(msg.Extra) }),
			R("SlotInfo", func() codeckit.Codec { return new(hashslot.SlotInfo) }),
			R("system.Info", func() codeckit.Codec { return new(system.Info) }),
			R("disk.Info", func() codeckit.Codec { return new(disk.Info) }),
			R("disk.IOStats", func() codeckit.Codec { return new(disk.IOStats) }),
			R("mem.Status", func() codeckit.Codec { return new(mem.Status) }),
			R("cpu.Stat", func() codeckit.Codec { return new(cpu.Stat) }),
		})
		codeckit.List(c, md, func() *msg.Metadata { return new(msg.Metadata) })
		codeckit.List(c, ver, func() *msg.Version { return new(msg.Version) })
		codeckit.List(c, bkt, func() *msg.Bucket { return new(msg.Bucket) })
	})
}
