package commands

import "github.com/stampzilla/gozwave/zzverif/sym"

// vNames pairs each name with the exported constant of that name.
var vNames = []struct {
	name string
	code byte
}{
	{"Basic", Basic},
	{"ControllerReplication", ControllerReplication},
	{"ApplicationStatus", ApplicationStatus},
	{"SwitchBinary", SwitchBinary},
	{"SwitchMultilevel", SwitchMultilevel},
	{"SwitchAll", SwitchAll},
	{"SwitchToggleBinary", SwitchToggleBinary},
	{"SwitchToggleMultilevel", SwitchToggleMultilevel},
	{"SceneActivation", SceneActivation},
	{"SceneActuatorConf", SceneActuatorConf},
	{"SensorBinary", SensorBinary},
	{"SensorMultiLevel", SensorMultiLevel},
	{"Meter", Meter},
	{"MeterPulse", MeterPulse},
	{"ThermostatMode", ThermostatMode},
	{"ThermostatOperatingState", ThermostatOperatingState},
	{"ThermostatSetpoint", ThermostatSetpoint},
	{"ThermostatFanMode", ThermostatFanMode},
	{"ThermostatFanState", ThermostatFanState},
	{"ClimateControlSchedule", ClimateControlSchedule},
	{"BasicWindowCovering", BasicWindowCovering},
	{"MultiInstance", MultiInstance},
	{"Configuration", Configuration},
	{"Alarm", Alarm},
	{"ManufacturerSpecific", ManufacturerSpecific},
	{"PowerLevel", PowerLevel},
	{"Protection", Protection},
	{"Lock", Lock},
	{"NodeNaming", NodeNaming},
	{"Battery", Battery},
	{"Clock", Clock},
	{"Hail", Hail},
	{"WakeUp", WakeUp},
	{"Association", Association},
	{"Version", Version},
	{"Indicator", Indicator},
	{"Proprietary", Proprietary},
	{"Language", Language},
	{"MultiInstanceAssociation", MultiInstanceAssociation},
	{"MultiCmd", MultiCmd},
	{"EnergyProduction", EnergyProduction},
	{"ManufacturerProprietary", ManufacturerProprietary},
	{"AssociationCommandConfiguration", AssociationCommandConfiguration},
	{"Mark", Mark},
}

//verif:goal property=C34 reach=named,unnamed timeout=60
//verif:doc the name of each of the 256 codes of ZWaveCommand is empty or that of the one constant with this code; each constant with a known name has it
func VerifC34Names() {
	b := sym.Byte("code")
	s := ZWaveCommand(b).String()
	if s == "" {
		sym.Reach("unnamed")
		for _, n := range vNames {
			sym.Assert(b != n.code, "a known code has its name")
		}
		return
	}
	sym.Reach("named")
	found := false
	for _, n := range vNames {
		if n.name == s {
			found = true
			sym.Assert(b == n.code, "a name belongs to one code only, that of its constant")
		}
	}
	sym.Assert(found, "the name is that of an exported constant")
}

//verif:goal property=C34 reach=two timeout=100
//verif:doc two different codes of ZWaveCommand never share a name
func VerifC34Distinct() {
	a, b := sym.Byte("first"), sym.Byte("second")
	sym.Assume(a < b)
	x, y := ZWaveCommand(a).String(), ZWaveCommand(b).String()
	if x != "" && y != "" {
		sym.Reach("two")
		sym.Assert(x != y, "two codes have the same name")
	}
}
