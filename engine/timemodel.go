package main

// time: the clock and zone database are the environment. A time.Time is the
// usual three-field struct; its date and time of day are uninterpreted functions
// of the instant and the zone.

import (
	"strings"
)

const (
	fYear = iota
	fMonth
	fDay
	fHour
	fMinute
	fSecond
)

// civil is the local date and time of one instant in one zone.
type civil struct {
	ext, offset Value
	digits      [6][]Value
	numbers     [6]*Term
}

// number is a part of the date or time; formatting it finds its digits again.
func (x *civil) number(p *Path, f int) *Term {
	if x.numbers[f] == nil {
		c := p.c
		n := c.BV(0, 64)
		for _, d := range x.digits[f] {
			n = c.Bin(OAdd, c.Bin(OMul, n, c.BV(10, 64)), c.Resize(c.Bin(OSub, p.bv(d, 8), c.BV('0', 8)), 64, false))
		}
		x.numbers[f] = n
		p.side[digitsOf{n}] = x.digits[f]
	}
	return x.numbers[f]
}

// digitsOf keys the remembered decimal digits, leading zeros included, of a number.
type digitsOf struct{ t *Term }

type zoneInfo struct {
	name   Value
	offset Value // uint64 or *Term, 64 bits, seconds
}

func registerTime(reg func(string, func(fr *Frame, a []Value) Value)) {
	mkTime := func(wall, ext, loc Value) Struct { return Struct{wall, ext, loc} }
	local := func(p *Path) *Value {
		v, _ := p.side["localzone"].(*Value)
		if v == nil {
			v = new(Value)
			*v = Struct{}
			p.side[v] = zoneInfo{"Local", uint64(0)}
			p.note("the local time zone is UTC (other offsets are covered through explicit zones)")
			p.side["localzone"] = v
		}
		return v
	}
	reg("time.Now", func(fr *Frame, a []Value) Value {
		fr.p.envND = true
		return mkTime(uint64(0), fr.p.freshVar(bvSort(64)), local(fr.p))
	})
	reg("time.Since", func(fr *Frame, a []Value) Value { fr.p.envND = true; return fr.p.freshVar(bvSort(64)) })
	reg("time.Unix", func(fr *Frame, a []Value) Value { return mkTime(a[1], a[0], local(fr.p)) })
	reg("time.UnixMilli", func(fr *Frame, a []Value) Value { return mkTime(uint64(1), a[0], local(fr.p)) })
	reg("time.FixedZone", func(fr *Frame, a []Value) Value {
		v := new(Value)
		*v = Struct{}
		fr.p.side[v] = zoneInfo{a[0], a[1]}
		return v
	})
	reg("(time.Time).In", func(fr *Frame, a []Value) Value {
		t := a[0].(Struct)
		if l := a[1].(*Value); l == nil {
			panic(goPanic{mkRTError("time: missing Location in call to Time.In")})
		}
		return mkTime(t[0], t[1], a[1])
	})
	reg("(time.Time).UTC", func(fr *Frame, a []Value) Value {
		t := a[0].(Struct)
		return mkTime(t[0], t[1], (*Value)(nil))
	})
	reg("(time.Time).Local", func(fr *Frame, a []Value) Value {
		t := a[0].(Struct)
		return mkTime(t[0], t[1], local(fr.p))
	})
	zone := func(p *Path, t Struct) zoneInfo {
		l, _ := t[2].(*Value)
		if l == nil {
			return zoneInfo{"UTC", uint64(0)}
		}
		z, ok := p.side[l].(zoneInfo)
		if !ok {
			// time.UTC and friends
			return zoneInfo{"UTC", uint64(0)}
		}
		return z
	}
	reg("(time.Time).Zone", func(fr *Frame, a []Value) Value {
		z := zone(fr.p, a[0].(Struct))
		return Tuple{z.name, z.offset}
	})
	civilOf := func(p *Path, t Struct) *civil {
		z := zone(p, t)
		l, _ := p.side["civil"].([]*civil)
		for _, x := range l {
			if x.ext == t[1] && x.offset == z.offset {
				return x
			}
		}
		p.envND = true
		x := &civil{ext: t[1], offset: z.offset}
		c := p.c
		for f := range x.digits {
			n := 2
			if f == fYear {
				n = 4
			}
			for i := 0; i < n; i++ {
				v := p.freshVar(bvSort(8))
				hi := byte('9')
				if i == 0 {
					switch f {
					case fMonth:
						hi = '1'
					case fDay:
						hi = '3'
					case fHour:
						hi = '2'
					case fMinute, fSecond:
						hi = '5'
					}
				}
				p.addPC(p.rng(v, '0', hi))
				x.digits[f] = append(x.digits[f], v)
			}
		}
		ok := func(f int, lo, hi uint64) {
			n := x.number(p, f)
			p.addPC(c.And(c.Not(c.Bin(OUlt, n, c.BV(lo, 64))), c.Not(c.Bin(OUlt, c.BV(hi, 64), n))))
		}
		ok(fMonth, 1, 12)
		ok(fDay, 1, 31)
		ok(fHour, 0, 23)
		p.note("the calendar date and time of day are uninterpreted functions of instant and zone (year 0 to 9999)")
		p.side["civil"] = append(l, x)
		return x
	}
	for i, n := range []string{"Year", "Month", "Day", "Hour", "Minute", "Second"} {
		f := i
		reg("(time.Time)."+n, func(fr *Frame, a []Value) Value {
			return Value(civilOf(fr.p, a[0].(Struct)).number(fr.p, f))
		})
	}
	reg("(time.Time).Date", func(fr *Frame, a []Value) Value {
		x := civilOf(fr.p, a[0].(Struct))
		return Tuple{x.number(fr.p, fYear), x.number(fr.p, fMonth), x.number(fr.p, fDay)}
	})
	reg("(time.Time).Clock", func(fr *Frame, a []Value) Value {
		x := civilOf(fr.p, a[0].(Struct))
		return Tuple{x.number(fr.p, fHour), x.number(fr.p, fMinute), x.number(fr.p, fSecond)}
	})
	toSecond := func(fr *Frame, a []Value) Value {
		t := a[0].(Struct)
		if a[1] != Value(uint64(1000000000)) {
			panic(unsupported("time truncated to other than a second"))
		}
		return mkTime(uint64(0), t[1], t[2])
	}
	reg("(time.Time).Truncate", toSecond)
	format := func(fr *Frame, t Struct, layout string) []Value {
		p := fr.p
		c := p.c
		x := civilOf(p, t)
		var out []Value
		two := func(n *Term) {
			for _, k := range []uint64{10, 1} {
				d := c.Bin(OURem, c.Bin(OUDiv, n, c.BV(k, 64)), c.BV(10, 64))
				out = append(out, p.val(c.Bin(OAdd, c.Resize(d, 8, false), c.BV('0', 8))))
			}
		}
	next:
		for len(layout) > 0 {
			for _, s := range []struct {
				text string
				f    int
			}{{"2006", fYear}, {"01", fMonth}, {"02", fDay}, {"15", fHour}, {"04", fMinute}, {"05", fSecond}} {
				if strings.HasPrefix(layout, s.text) {
					out = append(out, x.digits[s.f]...)
					layout = layout[len(s.text):]
					continue next
				}
			}
			for _, s := range []string{"Z07:00", "Z0700", "-07:00", "-0700"} {
				if !strings.HasPrefix(layout, s) {
					continue
				}
				layout = layout[len(s):]
				off := p.bv(x.offset, 64)
				if s[0] == 'Z' && p.branch(p.val(c.Eq(off, c.BV(0, 64)))) {
					out = append(out, uint64('Z'))
					continue next
				}
				// minutes, rounded towards zero
				minutes := c.Bin(OSDiv, off, c.BV(60, 64))
				if p.branch(p.val(c.Bin(OSlt, minutes, c.BV(0, 64)))) {
					out = append(out, uint64('-'))
					minutes = c.Neg(minutes)
				} else {
					out = append(out, uint64('+'))
				}
				two(c.Bin(OUDiv, minutes, c.BV(60, 64)))
				if strings.Contains(s, ":") {
					out = append(out, uint64(':'))
				}
				two(c.Bin(OURem, minutes, c.BV(60, 64)))
				continue next
			}
			switch ch := layout[0]; {
			case ch >= '0' && ch <= '9', ch == '_', ch == '.' && len(layout) > 1 && (layout[1] == '0' || layout[1] == '9'),
				ch == ',' && len(layout) > 1 && (layout[1] == '0' || layout[1] == '9'), ch == '-' && strings.HasPrefix(layout, "-07"),
				ch == 'Z' && strings.HasPrefix(layout, "Z07"), strings.HasPrefix(layout, "Jan"), strings.HasPrefix(layout, "Mon"),
				strings.HasPrefix(layout, "MST"), strings.HasPrefix(layout, "PM"), strings.HasPrefix(layout, "pm"):
				panic(unsupported("time layout " + layout))
			}
			out = append(out, uint64(layout[0]))
			layout = layout[1:]
		}
		return out
	}
	reg("(time.Time).Format", func(fr *Frame, a []Value) Value {
		return mkStr(format(fr, a[0].(Struct), concStr(a[1], "time layout")))
	})
	reg("(time.Time).AppendFormat", func(fr *Frame, a []Value) Value {
		dst, _ := a[1].([]Value)
		return append(dst[:len(dst):len(dst)], format(fr, a[0].(Struct), concStr(a[2], "time layout"))...)
	})
	for _, n := range []string{"UnixNano", "Unix", "UnixMilli", "UnixMicro"} {
		reg("(time.Time)."+n, func(fr *Frame, a []Value) Value { fr.p.envND = true; return fr.p.freshVar(bvSort(64)) })
	}
	reg("(time.Time).IsZero", func(fr *Frame, a []Value) Value {
		t := a[0].(Struct)
		return fr.p.val(fr.p.c.And(fr.p.eqVals(t[0], uint64(0)), fr.p.eqVals(t[1], uint64(0))))
	})
}
