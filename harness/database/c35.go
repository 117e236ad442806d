package database

import (
	"strings"

	"github.com/stampzilla/gozwave/zzverif/sym"
)

var vTypes = []struct {
	name string
	code byte
}{
	{"GENERIC_TYPE_AV_CONTROL_POINT", 0x03},
	{"GENERIC_TYPE_DISPLAY", 0x04},
	{"GENERIC_TYPE_ENTRY_CONTROL", 0x40},
	{"GENERIC_TYPE_GENERIC_CONTROLLER", 0x01},
	{"GENERIC_TYPE_METER", 0x31},
	{"GENERIC_TYPE_REPEATER_SLAVE", 0x0f},
	{"GENERIC_TYPE_SENSOR_MULTILEVEL", 0x21},
	{"GENERIC_TYPE_SENSOR_NOTIFICATION", 0x07},
	{"GENERIC_TYPE_STATIC_CONTROLLER", 0x02},
	{"GENERIC_TYPE_SWITCH_BINARY", 0x10},
	{"GENERIC_TYPE_SWITCH_MULTILEVEL", 0x11},
	{"GENERIC_TYPE_THERMOSTAT", 0x08},
	{"GENERIC_TYPE_WALL_CONTROLLER", 0x18},
	{"SPECIFIC_TYPE_BASIC_WALL_CONTROLLER", 0x01},
	{"SPECIFIC_TYPE_CLASS_A_MOTOR_CONTROL", 0x05},
	{"SPECIFIC_TYPE_CLASS_B_MOTOR_CONTROL", 0x06},
	{"SPECIFIC_TYPE_CLASS_C_MOTOR_CONTROL", 0x07},
	{"SPECIFIC_TYPE_FAN_SWITCH", 0x08},
	{"SPECIFIC_TYPE_GATEWAY", 0x07},
	{"SPECIFIC_TYPE_IRRIGATION_CONTROLLER", 0x07},
	{"SPECIFIC_TYPE_NOTIFICATION_SENSOR", 0x01},
	{"SPECIFIC_TYPE_PC_CONTROLLER", 0x01},
	{"SPECIFIC_TYPE_PORTABLE_REMOTE_CONTROLLER", 0x01},
	{"SPECIFIC_TYPE_POWER_STRIP", 0x04},
	{"SPECIFIC_TYPE_POWER_SWITCH_BINARY", 0x01},
	{"SPECIFIC_TYPE_POWER_SWITCH_MULTILEVEL", 0x01},
	{"SPECIFIC_TYPE_REMOTE_CONTROL_AV", 0x04},
	{"SPECIFIC_TYPE_REMOTE_CONTROL_SIMPLE", 0x06},
	{"SPECIFIC_TYPE_REPEATER_SLAVE", 0x01},
	{"SPECIFIC_TYPE_ROUTING_MULTILEVEL_SENSOR", 0x01},
	{"SPECIFIC_TYPE_SECURE_BARRIER_ADDON", 0x07},
	{"SPECIFIC_TYPE_SECURE_BARRIER_CLOSE_ONLY", 0x09},
	{"SPECIFIC_TYPE_SECURE_BARRIER_OPEN_ONLY", 0x08},
	{"SPECIFIC_TYPE_SECURE_DOOR", 0x05},
	{"SPECIFIC_TYPE_SECURE_GATE", 0x06},
	{"SPECIFIC_TYPE_SECURE_KEYPAD", 0x0b},
	{"SPECIFIC_TYPE_SECURE_KEYPAD_DOOR_LOCK", 0x03},
	{"SPECIFIC_TYPE_SECURE_LOCKBOX", 0x0a},
	{"SPECIFIC_TYPE_SETBACK_THERMOSTAT", 0x05},
	{"SPECIFIC_TYPE_SET_TOP_BOX", 0x04},
	{"SPECIFIC_TYPE_SIMPLE_DISPLAY", 0x01},
	{"SPECIFIC_TYPE_SIMPLE_METER", 0x01},
	{"SPECIFIC_TYPE_SIREN", 0x05},
	{"SPECIFIC_TYPE_SUB_SYSTEM_CONTROLLER", 0x05},
	{"SPECIFIC_TYPE_THERMOSTAT_GENERAL_V2", 0x06},
	{"SPECIFIC_TYPE_TV", 0x06},
	{"SPECIFIC_TYPE_VALVE_OPEN_CLOSE", 0x06},
	{"SPECIFIC_TYPE_WHOLE_HOME_METER_SIMPLE", 0x03}}

var vClasses = []struct {
	label string
	class byte
}{
	{"Application Status", 0x22},
	{"Association", 0x85},
	{"Association Group Information", 0x59},
	{"Basic", 0x20},
	{"Binary Switch", 0x25},
	{"CRC16", 0x56},
	{"Central Scene", 0x5b},
	{"Device Reset Locally", 0x5a},
	{"Manufacturer Specific", 0x72},
	{"Meter", 0x32},
	{"Multi Channel", 0x60},
	{"Multichannel Association", 0x8e},
	{"Multilevel Sensor", 0x31},
	{"Multilevel Switch", 0x26},
	{"Notification", 0x71},
	{"Power Level", 0x73},
	{"Security", 0x98},
	{"Version", 0x86},
	{"Z-Wave Plus Info", 0x5e},
}

func vType(s string) byte {
	for _, t := range vTypes {
		if t.name == strings.TrimSpace(s) {
			return t.code
		}
	}
	return 0
}

// vClass is the class of a label without its remark; 0 if there is none.
func vClass(s string) byte {
	for _, sep := range []string{"(", " - ", " – "} {
		if i := strings.Index(s, sep); i >= 0 {
			s = s[:i]
		}
	}
	for _, c := range vClasses {
		if c.label == strings.TrimSpace(s) {
			return c.class
		}
	}
	return 0
}

//verif:goal property=C35 reach=specified,unspecified timeout=200 steps=3000000
//verif:doc all 2^16 pairs of generic and specific device class: the mandatory classes are those that the specification text (database/mandatory.txt) lists for the pair
func VerifC35Specified() {
	sym.FixMapOrder(true)
	g, s := sym.Byte("generic"), sym.Byte("specific")
	var want []byte
	known := false
	type pair struct{ g, s byte }
	var pairs []pair
	var classes []byte
	lines := strings.Split(sym.RepoFile("database/mandatory.txt"), "\n")
	for _, line := range append(lines, "") {
		line = strings.TrimSpace(line)
		switch {
		case line == "":
			for _, d := range pairs {
				if sym.And(d.g == g, d.s == s) {
					want, known = classes, true
				}
			}
			pairs, classes = nil, nil
		case strings.HasPrefix(line, "#") && !strings.Contains(line, "SPECIFIC_TYPE_NOT_USED"):
			f := strings.Split(line, " - ")
			d := pair{vType(f[len(f)-2]), vType(f[len(f)-1])}
			sym.Assert(d.g != 0 && d.s != 0, "the device classes are known")
			pairs = append(pairs, d)
		case strings.HasPrefix(line, "-"):
			if c := vClass(strings.TrimLeft(line, "- ")); c != 0 {
				classes = append(classes, c)
			}
		}
	}
	r := GetMandatoryCommandClasses(g, s)
	if known {
		sym.Reach("specified")
	} else {
		sym.Reach("unspecified")
	}
	sym.Assert(len(r) == len(want), "the classes of the specification")
	for _, w := range want {
		balance := 0
		for i := range r {
			sym.Assert(r[i] != nil, "the classes of the specification")
			if byte(r[i].ID) == w {
				balance++
			}
			if want[i] == w {
				balance--
			}
		}
		sym.Assert(balance == 0, "the classes of the specification")
	}
}
