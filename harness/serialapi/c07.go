package serialapi

import (
	"github.com/stampzilla/gozwave/commands"
	"github.com/stampzilla/gozwave/commands/reports"
	"github.com/stampzilla/gozwave/zzverif/sym"
)

//verif:goal property=C07 reach=report,rejected,unsupported,info,discovery timeout=240 thorough.timeout=800
//verif:uses util.go
//verif:doc header, node, command and report of every valid frame with a body of 2..14 (thorough 18) bytes
func VerifC07Fields() {
	m := 2 + sym.Choice("body", sym.Bound("bodies", 13, 17))
	body := sym.Bytes("frame", m)
	if m > 10 {
		sym.Assume(body[5] != commands.SensorMultiLevel)
	}
	frame := vFrame(body)
	l, msg, err := Decode(frame)
	sym.Assert(l == len(frame), "the frame is complete")
	fn := body[1]
	header := func() bool {
		return sym.And(msg.Length == byte(m+1), msg.MessageType == body[0], byte(msg.Function) == fn)
	}
	switch fn {
	case ApplicationCommandHandler:
		if m < 5 {
			sym.Assert(msg == nil && err != nil, "an application command without content is an error")
			return
		}
		sub := sym.Concrete(int(body[4]))
		if 5+sub > m {
			sym.Assert(msg == nil && err != nil, "a command longer than its frame is an error")
			return
		}
		cmd := body[5 : 5+sub]
		if sub < 2 {
			sym.Assert(msg == nil && err != nil, "an application command without command and class is an error")
			return
		}
		want, werr := reports.New(commands.ZWaveCommand(cmd[0]), cmd[1], append([]byte{}, cmd[2:]...))
		sym.Assert((err == nil) == (werr == nil), "the command is accepted exactly if its report is known")
		if werr != nil {
			sym.Reach("rejected")
			sym.Assert(msg == nil, "no message for an unknown command")
			return
		}
		if err != nil {
			return
		}
		sym.Reach("report")
		sym.Assert(header(), "header fields")
		sym.Assert(msg.NodeID == body[3], "the node id is the sending node's")
		d, ok := msg.Data.(*FuncApplicationCommandHandler)
		sym.Assert(ok, "the content is an application command")
		if ok {
			sym.Assert(byte(d.Command) == cmd[0] && d.Class == cmd[1], "command class and command")
			sym.Assert(vSameReport(d.Report, want), "the report is decoded from exactly the bytes of the command")
		}
	case DiscoveryNodes:
		if err == nil {
			sym.Reach("discovery")
			_, ok := msg.Data.(*DiscoverdNodes)
			sym.Assert(sym.And(header(), ok), "header fields and content of a discovery response")
		}
	case GetNodeProtocolInfo:
		if err == nil {
			sym.Reach("info")
			_, ok := msg.Data.(*FuncGetNodeProtocolInfo)
			sym.Assert(sym.And(header(), ok), "header fields and content of a protocol info response")
		} else {
			sym.Assert(m < 8, "a complete protocol info is accepted")
		}
	default:
		sym.Reach("unsupported")
		sym.Assert(msg == nil && err != nil, "an unsupported function is an error")
	}
}
