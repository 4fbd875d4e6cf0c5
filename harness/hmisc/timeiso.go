package hmisc

import (
	"time"

	"github.com/xconnio/wampproto-go/auth"
	"github.com/xconnio/wampproto-go/internal/zzverif/sym"
)

// C43_Offset: any zone offset in whole minutes, at any second.
func C43_Offset() {
	off := sym.Int("minutes")
	sym.Assume(sym.And(off > -1440, off < 1440))
	off *= 60
	sec := sym.Int64("unix")
	sym.Assume(sym.And(sec >= -2208988800, sec < 4102444800)) // 1900..2100
	t := time.Unix(sec, 0).In(time.FixedZone("z", off))
	local := t.Format("2006-01-02T15:04:05")
	got := auth.ISO8601(t)
	if off == 0 {
		sym.Assert(got == local+"Z", "UTC is written with Z")
		return
	}
	sign := byte('+')
	a := off
	if off < 0 {
		sign = '-'
		a = -off
	}
	h, m := a/3600, (a%3600)/60
	tail := string([]byte{sign, byte('0' + h/10), byte('0' + h%10), byte('0' + m/10), byte('0' + m%10)})
	sym.Assert(got == local+tail, "offset is written as sign, hours and minutes")
}

// C43_Zones: zones of any name, and the zones that Go gives itself.
func C43_Zones() {
	names := append([]string{"z", "", "UTC", "GMT", "Z", "Local", "+0000", "EST"}, sym.Words()...)
	name := names[sym.Choice("name", len(names))]
	offs := []struct {
		off  int
		tail string
	}{{0, "Z"}, {3600, "+0100"}, {-1800, "-0030"}, {50400, "+1400"}, {-34200, "-0930"}, {20700, "+0545"}}
	o := offs[sym.Choice("offset", len(offs))]
	sec := []int64{0, 1767323045, -1, 951868799}[sym.Choice("unix", 4)]
	t := time.Unix(sec, 123456789).In(time.FixedZone(name, o.off))
	sym.Assert(auth.ISO8601(t) == t.Format("2006-01-02T15:04:05")+o.tail, "a zone is known by its offset, not its name")
	u := time.Unix(sec, 0).UTC()
	sym.Assert(auth.ISO8601(u) == u.Format("2006-01-02T15:04:05")+"Z", "UTC is written with Z")
}
