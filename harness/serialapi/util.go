package serialapi

import (
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

// vSameReport compares two decoded reports field by field.
func vSameReport(a, b reports.Report) bool {
	switch x := a.(type) {
	case *reports.Alarm:
		y, ok := b.(*reports.Alarm)
		return ok && sym.And(x.Type == y.Type, x.Level == y.Level, x.SensorSourceID == y.SensorSourceID, x.SensorType == y.SensorType, x.Event == y.Event, x.Status == y.Status)
	case *reports.ManufacturerSpecific:
		y, ok := b.(*reports.ManufacturerSpecific)
		return ok && sym.And(sym.EqStr(x.Manufacturer, y.Manufacturer), sym.EqStr(x.Type, y.Type), sym.EqStr(x.ID, y.ID))
	case *reports.MultiChannelEndpoints:
		y, ok := b.(*reports.MultiChannelEndpoints)
		return ok && sym.And(x.Dynamic == y.Dynamic, x.Identical == y.Identical, x.Endpoints == y.Endpoints)
	case *reports.SensorMultiLevel:
		y, ok := b.(*reports.SensorMultiLevel)
		return ok && sym.And(x.ValueType == y.ValueType, x.Size == y.Size, x.Scale == y.Scale, x.Precision == y.Precision, sym.SameF64(x.Value, y.Value),
			sym.EqStr(x.TypeString, y.TypeString), sym.EqStr(x.Unit, y.Unit))
	case *reports.SwitchBinaryV1:
		y, ok := b.(*reports.SwitchBinaryV1)
		return ok && sym.And(x.CurrentValue == y.CurrentValue, x.Valid == y.Valid)
	case *reports.SwitchBinaryV2:
		y, ok := b.(*reports.SwitchBinaryV2)
		return ok && sym.And(x.CurrentValue == y.CurrentValue, x.TargetValue == y.TargetValue, x.Duration == y.Duration)
	case *reports.SwitchMultilevelV1:
		y, ok := b.(*reports.SwitchMultilevelV1)
		return ok && sym.And(sym.SameF64(x.CurrentValue, y.CurrentValue), x.Valid == y.Valid)
	case *reports.SwitchMultilevelV4:
		y, ok := b.(*reports.SwitchMultilevelV4)
		return ok && sym.And(sym.SameF64(x.CurrentValue, y.CurrentValue), sym.SameF64(x.TargetValue, y.TargetValue), x.Duration == y.Duration, x.Valid == y.Valid, x.TargetValid == y.TargetValid)
	case *reports.WakeUp:
		_, ok := b.(*reports.WakeUp)
		return ok
	}
	return a == nil && b == nil
}

// vSameData compares the payloads of two messages.
func vSameData(a, b interface{}) bool {
	switch x := a.(type) {
	case *FuncApplicationCommandHandler:
		y, ok := b.(*FuncApplicationCommandHandler)
		return ok && x != nil && y != nil && x.Command == y.Command && x.Class == y.Class && vSameReport(x.Report, y.Report)
	case *DiscoverdNodes:
		y, ok := b.(*DiscoverdNodes)
		if !ok || x == nil || y == nil {
			return false
		}
		same := true
		for i := range x.ActiveNodes {
			same = sym.And(same, x.ActiveNodes[i] == y.ActiveNodes[i])
		}
		return same
	case *FuncGetNodeProtocolInfo:
		y, ok := b.(*FuncGetNodeProtocolInfo)
		return ok && x != nil && y != nil && sym.And(x.Listening == y.Listening, x.Routing == y.Routing, x.Beaming == y.Beaming, x.Version == y.Version, x.Flirs == y.Flirs,
			x.Security == y.Security, x.MaxBaud == y.MaxBaud, x.Basic == y.Basic, x.Generic == y.Generic, x.Specific == y.Specific)
	}
	return a == nil && b == nil
}

// vFrame makes a frame with the given bytes between length and checksum.
func vFrame(body []byte) []byte {
	f := make([]byte, 0, len(body)+3)
	f = append(f, 0x01, byte(len(body)+1))
	f = append(f, body...)
	x := byte(0xff)
	for _, b := range f[1:] {
		x ^= b
	}
	return append(f, x)
}

// vUncommon assumes that f is not a function whose content is decoded.
func vUncommon(f byte) {
	sym.Assume(sym.And(f != ApplicationCommandHandler, f != DiscoveryNodes, f != GetNodeProtocolInfo))
}
