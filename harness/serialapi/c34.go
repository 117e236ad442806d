package serialapi

import "github.com/stampzilla/gozwave/zzverif/sym"

// vNames pairs each name with the exported constant of that name.
var vNames = []struct {
	name string
	code byte
}{
	{"None", None},
	{"DiscoveryNodes", DiscoveryNodes},
	{"SerialApiApplNodeInformation", SerialApiApplNodeInformation},
	{"ApplicationCommandHandler", ApplicationCommandHandler},
	{"GetControllerCapabilities", GetControllerCapabilities},
	{"SerialApiSetTimeouts", SerialApiSetTimeouts},
	{"SerialGetCapabilities", SerialGetCapabilities},
	{"SerialApiSoftReset", SerialApiSoftReset},
	{"SetRFReceiveMode", SetRFReceiveMode},
	{"SetSleepMode", SetSleepMode},
	{"SendNodeInformation", SendNodeInformation},
	{"SendData", SendData},
	{"SendDataMulti", SendDataMulti},
	{"GetVersion", GetVersion},
	{"SendDataAbort", SendDataAbort},
	{"RFPowerLevelSet", RFPowerLevelSet},
	{"SendDataMeta", SendDataMeta},
	{"MemoryGetId", MemoryGetId},
	{"MemoryGetByte", MemoryGetByte},
	{"MemoryPutByte", MemoryPutByte},
	{"MemoryGetBuffer", MemoryGetBuffer},
	{"MemoryPutBuffer", MemoryPutBuffer},
	{"ReadMemory", ReadMemory},
	{"ClockSet", ClockSet},
	{"ClockGet", ClockGet},
	{"ClockCompare", ClockCompare},
	{"RtcTimerCreate", RtcTimerCreate},
	{"RtcTimerRead", RtcTimerRead},
	{"RtcTimerDelete", RtcTimerDelete},
	{"RtcTimerCall", RtcTimerCall},
	{"GetNodeProtocolInfo", GetNodeProtocolInfo},
	{"SetDefault", SetDefault},
	{"ReplicationCommandComplete", ReplicationCommandComplete},
	{"ReplicationSendData", ReplicationSendData},
	{"AssignReturnRoute", AssignReturnRoute},
	{"DeleteReturnRoute", DeleteReturnRoute},
	{"RequestNodeNeighborUpdate", RequestNodeNeighborUpdate},
	{"ApplicationUpdate", ApplicationUpdate},
	{"AddNodeToNetwork", AddNodeToNetwork},
	{"RemoveNodeFromNetwork", RemoveNodeFromNetwork},
	{"CreateNewPrimary", CreateNewPrimary},
	{"ControllerChange", ControllerChange},
	{"SetLearnMode", SetLearnMode},
	{"AssignSucReturnRoute", AssignSucReturnRoute},
	{"EnableSuc", EnableSuc},
	{"RequestNetworkUpdate", RequestNetworkUpdate},
	{"SetSucNodeId", SetSucNodeId},
	{"DeleteSucReturnRoute", DeleteSucReturnRoute},
	{"GetSucNodeId", GetSucNodeId},
	{"SendSucId", SendSucId},
	{"RediscoveryNeeded", RediscoveryNeeded},
	{"RequestNodeInfo", RequestNodeInfo},
	{"RemoveFailedNodeId", RemoveFailedNodeId},
	{"IsFailedNode", IsFailedNode},
	{"ReplaceFailedNode", ReplaceFailedNode},
	{"TimerStart", TimerStart},
	{"TimerRestart", TimerRestart},
	{"TimerCancel", TimerCancel},
	{"TimerCall", TimerCall},
	{"GetRoutingTableLine", GetRoutingTableLine},
	{"GetTXCounter", GetTXCounter},
	{"ResetTXCounter", ResetTXCounter},
	{"StoreNodeInfo", StoreNodeInfo},
	{"StoreHomeId", StoreHomeId},
	{"LockRouteResponse", LockRouteResponse},
	{"SendDataRouteDemo", SendDataRouteDemo},
	{"SerialApiTest", SerialApiTest},
	{"SerialApiSlaveNodeInfo", SerialApiSlaveNodeInfo},
	{"ApplicationSlaveCommandHandler", ApplicationSlaveCommandHandler},
	{"SendSlaveNodeInfo", SendSlaveNodeInfo},
	{"SendSlaveData", SendSlaveData},
	{"SetSlaveLearnMode", SetSlaveLearnMode},
	{"GetVirtualNodes", GetVirtualNodes},
	{"IsVirtualNode", IsVirtualNode},
	{"SetPromiscuousMode", SetPromiscuousMode},
}

//verif:goal property=C34 reach=named,unnamed timeout=60
//verif:doc the name of each of the 256 codes of ZWaveFunction is empty or that of the one constant with this code; each constant with a known name has it
func VerifC34Names() {
	b := sym.Byte("code")
	s := ZWaveFunction(b).String()
	if s == "" {
		sym.Reach("unnamed")
		for _, n := range vNames {
			sym.Assert(b != n.code, "a known code has its name")
		}
		return
	}
	sym.Reach("named")
	found := false
	for _, n := range vNames {
		if n.name == s {
			found = true
			sym.Assert(b == n.code, "a name belongs to one code only, that of its constant")
		}
	}
	sym.Assert(found, "the name is that of an exported constant")
}

//verif:goal property=C34 reach=two timeout=100
//verif:doc two different codes of ZWaveFunction never share a name
func VerifC34Distinct() {
	a, b := sym.Byte("first"), sym.Byte("second")
	sym.Assume(a < b)
	x, y := ZWaveFunction(a).String(), ZWaveFunction(b).String()
	if x != "" && y != "" {
		sym.Reach("two")
		sym.Assert(x != y, "two codes have the same name")
	}
}
