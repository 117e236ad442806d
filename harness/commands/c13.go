package commands

import (
	"time"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C13 reach=seconds,minutes,none timeout=60
//verif:doc Duration for all 256 bytes
func VerifC13Duration() {
	b := sym.Byte("duration")
	d, err := Duration(b).Duration()
	switch {
	case b <= 127:
		sym.Reach("seconds")
		sym.Assert(err == nil && d == time.Duration(b)*time.Second, "0..127 are seconds")
	case b <= 253:
		sym.Reach("minutes")
		sym.Assert(err == nil && d == time.Duration(int64(b)-127)*time.Minute, "128..253 are minutes")
	default:
		sym.Reach("none")
		sym.Assert(err != nil && d == 0, "254 and 255 are errors")
	}
}

//verif:goal property=C13 reach=text,none timeout=60
//verif:doc the textual form of all 256 bytes
func VerifC13String() {
	b := byte(sym.Concrete(int(sym.Byte("duration"))))
	s := Duration(b).String()
	d, err := Duration(b).Duration()
	if err != nil {
		sym.Reach("none")
		sym.Assert(s == err.Error() && s != "", "the text of an undefined duration is its error")
		return
	}
	sym.Reach("text")
	sym.Assert(s == d.String(), "the text of a duration is the duration's text")
}
