package reports

import "github.com/stampzilla/gozwave/zzverif/sym"

// vSensor is the table of sensor types: name and unit per scale.
var vSensor = [...]struct {
	name string
	unit [4]string
}{
	1:  {"Temperature", [4]string{"C", "F", "", ""}},
	2:  {"General", [4]string{"%", "", "", ""}},
	3:  {"Luminance", [4]string{"%", "lux", "", ""}},
	4:  {"Power", [4]string{"W", "BTU/h", "", ""}},
	5:  {"RelativeHumidity", [4]string{"%", "", "", ""}},
	6:  {"Velocity", [4]string{"m/s", "mph", "", ""}},
	7:  {"Direction", [4]string{"", "", "", ""}},
	8:  {"AtmosphericPressure", [4]string{"kPa", "inHg", "", ""}},
	9:  {"BarometricPressure", [4]string{"kPa", "inHg", "", ""}},
	10: {"SolarRadiation", [4]string{"W/m2", "W/m2", "W/m2", "W/m2"}},
	11: {"DewPoint", [4]string{"C", "F", "", ""}},
	12: {"RainRate", [4]string{"mm/h", "in/h", "", ""}},
	13: {"TideLevel", [4]string{"m", "ft", "", ""}},
	14: {"Weight", [4]string{"kg", "lb", "", ""}},
	15: {"Voltage", [4]string{"V", "mV", "", ""}},
	16: {"Current", [4]string{"A", "mA", "", ""}},
	17: {"CO2", [4]string{"ppm", "ppm", "ppm", "ppm"}},
	18: {"AirFlow", [4]string{"m3/h", "cfm", "", ""}},
	19: {"TankCapacity", [4]string{"l", "cbm", "gal", ""}},
	20: {"Distance", [4]string{"m", "cm", "ft", ""}},
	21: {"AnglePosition", [4]string{"%", "deg N", "deg S", ""}},
	22: {"Rotation", [4]string{"rpm", "hz", "", ""}},
	23: {"WaterTemperature", [4]string{"C", "F", "", ""}},
	24: {"SoilTemperature", [4]string{"C", "F", "", ""}},
	25: {"SeismicIntensity", [4]string{"mercalli", "EU macroseismic", "liedu", "shindo"}},
	26: {"SeismicMagnitude", [4]string{"local", "moment", "surface wave", "body wave"}},
	27: {"Ultraviolet", [4]string{"", "", "", ""}},
	28: {"ElectricalResistivity", [4]string{"ohm", "ohm", "ohm", "ohm"}},
	29: {"ElectricalConductivity", [4]string{"siemens/m", "siemens/m", "siemens/m", "siemens/m"}},
	30: {"Loudness", [4]string{"db", "dBA", "", ""}},
	31: {"Moisture", [4]string{"%", "content", "k ohm", "water activity"}},
}

func vPow10(p byte) float64 {
	return [...]float64{1, 10, 100, 1000, 10000, 100000, 1000000, 10000000}[p]
}

// vRaw is the signed big-endian number in d.
func vRaw(d []byte) float64 {
	switch len(d) {
	case 1:
		return float64(int8(d[0]))
	case 2:
		return float64(int16(uint16(d[0])<<8 | uint16(d[1])))
	}
	return float64(int32(uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])))
}

// vC10 checks one sensor payload whose type and bit fields are fixed and whose value bytes are not.
func vC10(typ byte, size, scale, precision byte, d []byte) {
	in := append([]byte{}, d...)
	r, err := NewSensorMultiLevel(in)
	sym.Assert(sym.EqBytes(in, d), "decoding changed the payload")
	if len(d) < 2 || len(d) < 2+int(size) {
		sym.Reach("short")
		sym.Assert(err != nil, "a payload shorter than declared is an error")
		return
	}
	sym.Assert(err == nil && r != nil, "a complete payload is accepted")
	if err != nil || r == nil {
		return
	}
	sym.Assert(byte(r.ValueType) == typ && r.Size == size && r.Scale == scale && r.Precision == precision, "type and bit fields")
	if size == 1 || size == 2 || size == 4 {
		sym.Reach("value")
		want := vRaw(d[2 : 2+int(size)])
		if precision > 0 {
			want /= vPow10(precision)
		}
		sym.Assert(sym.SameF64(r.Value, want), "the value is the signed number divided by ten to the power of the precision")
	}
	if int(typ) < len(vSensor) && typ > 0 {
		sym.Reach("known")
		sym.Assert(r.TypeString == vSensor[typ].name, "name of the sensor type")
		sym.Assert(r.Unit == vSensor[typ].unit[scale], "unit of the sensor type and scale")
	} else {
		sym.Reach("unknown")
		sym.Assert(r.Unit == "", "an unknown sensor type has no unit")
	}
}

//verif:goal property=C10 reach=value,short,known,unknown timeout=200
//verif:doc every sensor type, size, scale and precision with every value; payload exactly as long as declared
func VerifC10Values() {
	t, b := sym.Byte("type"), sym.Byte("fields")
	size, scale, precision := byte(sym.Concrete(int(b&7))), b>>3&3, byte(sym.Concrete(int(b>>5)))
	d := append([]byte{t, b}, sym.Bytes("value", int(size))...)
	scale = byte(sym.Concrete(int(scale)))
	t = byte(sym.Concrete(int(t)))
	if sym.Choice("cut", 2) == 1 {
		d = d[:len(d)-1]
	}
	vC10(t, size, scale, precision, d)
}

//verif:goal property=C10 reach=value,short,known,unknown timeout=100
//verif:doc payloads of every length 0..14, type and value arbitrary, scale and precision one combination
func VerifC10Lengths() {
	n := sym.Choice("n", 15)
	d := sym.Bytes("data", n)
	if n < 2 {
		vC10(0, 0, 0, 0, d)
		return
	}
	sym.Assume(d[1]>>3 == 9)
	vC10(d[0], byte(sym.Concrete(int(d[1]&7))), 1, 2, d)
}
