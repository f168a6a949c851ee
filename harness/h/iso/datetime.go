package iso

import (
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660/datetime"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// instant is an arbitrary second between two years.
func instant(from, to int) time.Time {
	year := int(vrt.Bits("year", 14))
	month := int(vrt.Bits("month", 4))
	day := int(vrt.Bits("day", 5))
	hour := int(vrt.Bits("hour", 5))
	min := int(vrt.Bits("minute", 6))
	sec := int(vrt.Bits("second", 6))
	vrt.Assume(vrt.And(year >= from, year <= to))
	vrt.Assume(inMonth(year, month, day))
	vrt.Assume(vrt.And(hour < 24, vrt.And(min < 60, sec < 60)))
	return time.Date(year, time.Month(month), day, hour, min, sec, 0, time.UTC)
}

// inMonth says whether a date exists.
func inMonth(year, month, day int) bool {
	leap := vrt.And(year%4 == 0, vrt.Or(year%100 != 0, year%400 == 0))
	last := vrt.IteInt(month == 2, vrt.IteInt(leap, 29, 28), vrt.IteInt(vrt.Or(vrt.Or(month == 4, month == 6), vrt.Or(month == 9, month == 11)), 30, 31))
	return vrt.And(vrt.And(month >= 1, month <= 12), vrt.And(day >= 1, day <= last))
}

// I06Entry encodes and decodes entry dates.
func I06Entry() {
	t := instant(1900, 2155)
	e := datetime.NewEntryDateTime(t)
	vrt.Assert(int(e[0])+1900 == t.Year(), "an entry date has its year")
	vrt.Assert(int(e[1]) == int(t.Month()) && int(e[2]) == t.Day(), "an entry date has its month and day")
	vrt.Assert(int(e[3]) == t.Hour() && int(e[4]) == t.Minute() && int(e[5]) == t.Second(), "an entry date has its time of day")
	back := e.Timestamp()
	vrt.Assert(back.Equal(t), "an entry date decodes to the instant it was made from")
	vrt.Cover("entry")
	vrt.Observe("entry", e[0], e[1], e[2], e[3], e[4], e[5])
}

func digits(b []byte) int {
	n := 0
	for _, c := range b {
		vrt.Assert(vrt.And(c >= '0', c <= '9'), "a decimal date has digits")
		n = n*10 + int(c-'0')
	}
	return n
}

// I06Clock encodes and decodes decimal times of day.
func I06Clock() {
	hour := int(vrt.Bits("hour", 5))
	min := int(vrt.Bits("minute", 6))
	sec := int(vrt.Bits("second", 6))
	vrt.Assume(vrt.And(hour < 24, vrt.And(min < 60, sec < 60)))
	days := []time.Time{time.Date(1999, 12, 31, 0, 0, 0, 0, time.UTC), time.Date(2024, 2, 29, 0, 0, 0, 0, time.UTC)}
	day := days[vrt.Choose("day", len(days))]
	decimal(time.Date(day.Year(), day.Month(), day.Day(), hour, min, sec, 0, time.UTC))
}

// I06Decimal encodes and decodes decimal dates.
func I06Decimal() {
	from := vrt.Param("from", 1970, 0)
	to := vrt.Param("to", 2033, 9999)
	year := from + int(vrt.Bits("year", vrt.Param("bits", 6, 14)))
	month := int(vrt.Bits("month", 4))
	day := int(vrt.Bits("day", 5))
	vrt.Assume(vrt.And(year <= to, inMonth(year, month, day)))
	decimal(time.Date(year, time.Month(month), day, 23, 59, 58, 0, time.UTC))
}

func decimal(t time.Time) {
	d := datetime.NewDecDateTime(t)
	vrt.Assert(digits(d[0:4]) == t.Year(), "a decimal date has its year")
	vrt.Assert(digits(d[4:6]) == int(t.Month()) && digits(d[6:8]) == t.Day(), "a decimal date has its month and day")
	vrt.Assert(digits(d[8:10]) == t.Hour() && digits(d[10:12]) == t.Minute() && digits(d[12:14]) == t.Second(), "a decimal date has its time of day")
	vrt.Assert(digits(d[14:16]) == 0, "a decimal date has its hundredths")
	back := d.Timestamp()
	vrt.Assert(back.Equal(t), "a decimal date decodes to the instant it was made from")
	vrt.Cover("decimal")
	vrt.Observe("decimal", d[0], d[3], d[5], d[7], d[9], d[11], d[13])
}

// I06Zones encodes instants given in other zones, and fractions of a second.
func I06Zones() {
	zones := []*time.Location{time.UTC, time.FixedZone("east", 13*3600), time.FixedZone("west", -11*3600-1800)}
	z := zones[vrt.Choose("zone", len(zones))]
	moments := []int64{0, -2208988800 + 86400, 951782400 - 1, 951868800, 1704067199, 5869583999 - 86400}
	t := time.Unix(moments[vrt.Choose("moment", len(moments))], int64(vrt.Choose("nanos", 2))*999999999).In(z)
	e := datetime.NewEntryDateTime(t).Timestamp()
	vrt.Assert(e.Unix() == t.Unix() && e.Nanosecond() == 0, "an entry date is the instant's second in any zone")
	d := datetime.NewDecDateTime(t).Timestamp()
	vrt.Assert(d.Unix() == t.Unix(), "a decimal date is the instant's second in any zone")
	vrt.Cover("zones")
	vrt.Observe("zones", e.Unix(), d.Unix())
}
