package core

import (
	"fmt"
	"strings"

	"github.com/ethereum/go-ethereum/common"
	"github.com/ethereum/go-ethereum/crypto"
)

// Op is one action of a frame.
type Op struct {
	K     string // sstore tstore log bal rds call delegate static callcode create create2 sd raw
	Slot  int
	Val   int
	To    int // contract index; -1 = child created last in this frame; <= -2: named external address
	Value uint64
	Gas   uint64 // 0: default for the depth
	Sub   *Frame
	Raw   []byte // raw call input (K=rawcall / rawstatic / rawdelegate)
	Addr  common.Address
	Note  string
	Sem   string // meaning of a raw call, for reference models
	Quiet bool   // leave no log (so the frame can run read-only)
	ID    int    // set by Compile: topic of the log the action leaves
	// RawFn builds the input of a raw call that refers to a frame (Sub on contract To)
	RawFn func(fid int) []byte
}

// Frame is a sequence of actions with an ending.
type Frame struct {
	Ops []Op
	End string // stop revert invalid return(default) oog
	Run []*Frame
}

// String writes the program out.
func (f *Frame) String() string {
	var b strings.Builder
	for i, o := range f.Ops {
		if i > 0 {
			b.WriteString("; ")
		}
		b.WriteString(o.String())
	}
	if f.End != "" && f.End != "stop" {
		if len(f.Ops) > 0 {
			b.WriteString("; ")
		}
		b.WriteString(strings.ToUpper(f.End))
	}
	return b.String()
}

func tgt(i int) string {
	if i == -1 {
		return "child"
	}
	return string(rune('A' + i))
}

// String writes the action out.
func (o Op) String() string {
	if o.Quiet {
		o.Quiet = false
		return "quiet " + o.String()
	}
	switch o.K {
	case "sstore", "tstore":
		return fmt.Sprintf("%s[%d]=%d", o.K, o.Slot, o.Val)
	case "log":
		return fmt.Sprintf("log(%d)", o.Slot)
	case "bal", "rds", "ech", "gas":
		return o.K
	case "sd":
		return "selfdestruct->" + tgt(o.To)
	case "create", "create2":
		r := ""
		for _, x := range o.Sub.Run {
			r += " | " + x.String()
		}
		return fmt.Sprintf("%s(v=%d){%s%s}", o.K, o.Value, o.Sub, r)
	case "rawcall", "rawstatic", "rawdelegate", "rawcallcode":
		if o.Sub != nil {
			return fmt.Sprintf("%s(%s){%s}", o.K, o.Note, o.Sub)
		}
		return fmt.Sprintf("%s(%s)", o.K, o.Note)
	}
	v := ""
	if o.Value != 0 {
		v = fmt.Sprintf(",v=%d", o.Value)
	}
	if o.Gas != 0 {
		v += fmt.Sprintf(",gas=%d", o.Gas)
	}
	if o.To == -1 {
		return fmt.Sprintf("%s(child#%d%s)", o.K, o.Val, v)
	}
	return fmt.Sprintf("%s(%s%s){%s}", o.K, tgt(o.To), v, o.Sub)
}

// Program is a call tree plus the contracts it runs on.
type Program struct {
	Root  *Frame
	NCon  int
	Probe bool // final probe of all contracts
	// output of Compile
	Code  [][]byte
	Addrs []common.Address
	n     int
	frm   [][]*Frame // per contract
	ids   map[*Frame]int
	opID  int
	// RdsTok lists the return-data probes that follow a balance read of the same frame
	RdsTok map[int]bool
}

// ConAddr is the address of the i-th program contract.
func ConAddr(i int) common.Address { return Addr(fmt.Sprintf("contract-%d", i)) }

// Caller is the top-level caller.
var Caller = Addr("caller")

// Beneficiary addresses for self-destruct and transfers: index -2-i.
var extAddrs = []common.Address{Addr("ext-0"), Addr("ext-1")}

// ExtAddr returns an external plain address.
func ExtAddr(i int) common.Address { return extAddrs[i] }

const probeID = 0xfe

const childMem = 0x800 // memory word holding the last created child

// Compile lays the frames out as contract code.
func (p *Program) Compile() {
	p.Addrs = nil
	p.Code = nil
	p.frm = make([][]*Frame, p.NCon)
	p.ids = map[*Frame]int{}
	p.opID = 0
	for i := 0; i < p.NCon; i++ {
		p.Addrs = append(p.Addrs, ConAddr(i))
	}
	p.collect(p.Root, 0)
	for i := 0; i < p.NCon; i++ {
		p.Code = append(p.Code, p.contract(p.frm[i], p.Root))
	}
}

func (p *Program) collect(f *Frame, con int) {
	p.ids[f] = len(p.frm[con])
	p.frm[con] = append(p.frm[con], f)
	p.walkOps(f)
}

func (p *Program) walkOps(f *Frame) {
	for i := range f.Ops {
		o := &f.Ops[i]
		switch o.K {
		case "call", "delegate", "static", "callcode":
			if o.To >= 0 && o.Sub != nil {
				p.collect(o.Sub, o.To)
			}
		case "rawcall", "rawstatic", "rawdelegate", "rawcallcode":
			if o.Sub != nil {
				p.collect(o.Sub, o.To)
			}
		case "create", "create2":
			p.walkOps(o.Sub)
			for _, r := range o.Sub.Run {
				p.walkOps(r)
			}
		}
	}
}

func (p *Program) contract(frames []*Frame, root *Frame) []byte {
	a := NewAsm()
	// dispatch on the first calldata byte; the rest is the caller's last created child
	a.Push(1).Op(opCALLDATALOAD).Push(childMem).Op(opMSTORE)
	a.Push(0).Op(opCALLDATALOAD).Push(248).Op(0x1c) // SHR
	for i := range frames {
		a.Op(opDUP1).Push(uint64(i)).Op(0x14).PushLabel(fmt.Sprintf("f%d", i)).Op(opJUMPI)
	}
	a.Op(opDUP1).Push(probeID).Op(0x14).PushLabel("probe").Op(opJUMPI)
	a.Op(opSTOP)
	a.Label("probe")
	emitProbe(a)
	for i, f := range frames {
		a.Label(fmt.Sprintf("f%d", i))
		p.emit(a, f, f == root, depthOf(p.Root, f, 0), fmt.Sprintf("f%d", i))
	}
	return a.Bytes()
}

func depthOf(root, f *Frame, d int) int {
	if root == f {
		return d
	}
	for i := range root.Ops {
		if s := root.Ops[i].Sub; s != nil {
			if r := depthOf(s, f, d+1); r >= 0 {
				return r
			}
			for _, x := range s.Run {
				if r := depthOf(x, f, d+1); r >= 0 {
					return r
				}
			}
		}
	}
	return -1
}

// probe returns sload0 sload1 tload0 tload1 selfbalance
func emitProbe(a *Asm) {
	a.Push(0).Op(opSLOAD).Push(0).Op(opMSTORE)
	a.Push(1).Op(opSLOAD).Push(32).Op(opMSTORE)
	a.Push(0).Op(opTLOAD).Push(64).Op(opMSTORE)
	a.Push(1).Op(opTLOAD).Push(96).Op(opMSTORE)
	a.Op(opSELFBALANCE).Push(128).Op(opMSTORE)
	a.Push(160).Push(0).Op(opRETURN)
}

var gasAt = []uint64{6_000_000, 1_500_000, 600_000, 240_000, 90_000, 30_000}

func (p *Program) emit(a *Asm, f *Frame, root bool, depth int, tag string) {
	if depth < 0 {
		depth = 2
	}
	tok := false
	for i := range f.Ops {
		o := &f.Ops[i]
		p.opID++
		id := p.opID
		o.ID = id
		switch o.K {
		case "bal", "ech":
			tok = true
		case "rds":
			if tok {
				if p.RdsTok == nil {
					p.RdsTok = map[int]bool{}
				}
				p.RdsTok[id] = true
			}
		case "sstore", "tstore", "log", "gas":
		default:
			tok = false
		}
		switch o.K {
		case "sstore":
			a.Push(uint64(o.Val))
			pushSlot(a, o.Slot)
			a.Op(opSSTORE)
		case "tstore":
			a.Push(uint64(o.Val))
			pushSlot(a, o.Slot)
			a.Op(opTSTORE)
		case "log":
			pushSlot(a, o.Slot)
			a.Op(opSLOAD).Push(0).Op(opMSTORE)
			pushSlot(a, o.Slot)
			a.Op(opTLOAD).Push(32).Op(opMSTORE)
			a.Push(uint64(id)).Push(64).Push(0).Op(opLOG1)
		case "bal":
			a.Op(opSELFBALANCE).Push(0).Op(opMSTORE).PushAddr(p.target(o.To)).Op(opBALANCE).Push(32).Op(opMSTORE)
			a.Push(uint64(id)).Push(64).Push(0).Op(opLOG1)
		case "rds": // return data size
			a.Op(opRETURNDATASIZE).Push(0).Op(opMSTORE)
			a.Push(uint64(id)).Push(32).Push(0).Op(opLOG1)
		case "ech": // code hash and size of a target
			if o.To == -1 {
				a.Push(childMem).Op(opMLOAD).Op(opEXTCODEHASH).Push(0).Op(opMSTORE)
				a.Push(childMem).Op(opMLOAD).Op(opEXTCODESIZE).Push(32).Op(opMSTORE)
			} else {
				a.PushAddr(p.target(o.To)).Op(opEXTCODEHASH).Push(0).Op(opMSTORE)
				a.PushAddr(p.target(o.To)).Op(opEXTCODESIZE).Push(32).Op(opMSTORE)
			}
			a.Push(uint64(id)).Push(64).Push(0).Op(opLOG1)
		case "gas":
			a.Op(opGAS).Push(0).Op(opMSTORE).Push(uint64(id)).Push(32).Push(0).Op(opLOG1)
		case "ctx": // arbitrary context opcodes: Raw lists them; each pushes one word
			for j, c := range o.Raw {
				a.Op(c).Push(uint64(32 * j)).Op(opMSTORE)
			}
			a.Push(uint64(id)).Push(uint64(32 * len(o.Raw))).Push(0).Op(opLOG1)
		case "sd":
			if o.To == -1 {
				a.Op(opADDRESS, opSELFDESTRUCT)
			} else {
				a.PushAddr(p.target(o.To)).Op(opSELFDESTRUCT)
			}
		case "call", "delegate", "static", "callcode":
			fid := o.Val
			if o.To != -1 && o.Sub != nil {
				fid = p.ids[o.Sub]
			}
			// calldata = frame id, then the last created child
			a.Push(uint64(fid)).Push(0).Op(opMSTORE8)
			a.Push(childMem).Op(opMLOAD).Push(1).Op(opMSTORE)
			gas := o.Gas
			if gas == 0 {
				gas = gasAt[min(depth+1, len(gasAt)-1)]
			}
			a.Push(0).Push(0).Push(33).Push(0) // retSize retOff inSize inOff
			if o.K == "call" || o.K == "callcode" {
				a.Push(o.Value)
			}
			if o.To == -1 {
				a.Push(childMem).Op(opMLOAD)
			} else {
				a.PushAddr(p.target(o.To))
			}
			a.Push(gas)
			a.Op(map[string]byte{"call": opCALL, "delegate": opDELEGATECALL, "static": opSTATICCALL, "callcode": opCALLCODE}[o.K])
			if o.Quiet {
				a.Op(opPOP)
			} else {
				p.logResult(a, id)
			}
		case "rawcall", "rawstatic", "rawdelegate", "rawcallcode":
			l := fmt.Sprintf("%s-in%d", tag, id)
			if o.RawFn != nil {
				o.Raw = o.RawFn(p.ids[o.Sub])
			}
			a.Data(l, o.Raw)
			a.Push(uint64(len(o.Raw))).PushLabel(l).Push(0x1000).Op(opCODECOPY)
			gas := o.Gas
			if gas == 0 {
				gas = gasAt[min(depth+1, len(gasAt)-1)]
			}
			a.Push(0).Push(0).Push(uint64(len(o.Raw))).Push(0x1000)
			if o.K == "rawcall" || o.K == "rawcallcode" {
				a.Push(o.Value)
			}
			a.PushAddr(o.Addr).Push(gas)
			a.Op(map[string]byte{"rawcall": opCALL, "rawdelegate": opDELEGATECALL, "rawstatic": opSTATICCALL, "rawcallcode": opCALLCODE}[o.K])
			if o.Quiet {
				a.Op(opPOP)
				break
			}
			// log success + full return data
			a.Push(0).Op(opMSTORE)
			a.Op(opRETURNDATASIZE).Push(0).Push(32).Op(opRETURNDATACOPY)
			a.Push(uint64(id)).Op(opRETURNDATASIZE).Push(32).Op(0x01).Push(0).Op(opLOG1)
		case "create", "create2":
			init := p.initCode(o.Sub, depth+1, fmt.Sprintf("%s-c%d", tag, id))
			l := fmt.Sprintf("%s-init%d", tag, id)
			a.Data(l, init)
			a.Push(uint64(len(init))).PushLabel(l).Push(0x1000).Op(opCODECOPY)
			if o.K == "create2" {
				a.Push(uint64(o.Slot)) // salt
			}
			a.Push(uint64(len(init))).Push(0x1000).Push(o.Value)
			if o.K == "create" {
				a.Op(opCREATE)
			} else {
				a.Op(opCREATE2)
			}
			a.Op(opDUP1).Push(childMem).Op(opMSTORE)
			if o.Quiet {
				a.Op(opPOP)
			} else {
				p.logResult(a, id)
			}
		default:
			panic(HarnessFault("op " + o.K))
		}
	}
	if root && p.Probe {
		for i := 0; i < p.NCon; i++ {
			a.Push(probeID).Push(0).Op(opMSTORE8)
			a.Push(160).Push(uint64(0x100+160*i)).Push(1).Push(0).PushAddr(ConAddr(i)).Push(200_000).Op(opSTATICCALL, opPOP)
		}
	}
	switch f.End {
	case "", "stop":
		if root && p.Probe {
			a.Push(uint64(160 * p.NCon)).Push(0x100).Op(opRETURN)
		} else {
			a.Op(opSTOP)
		}
	case "return":
		a.Push(uint64(0xab)).Push(0).Op(opMSTORE).Push(64).Push(0).Op(opRETURN)
	case "revert":
		a.Push(uint64(0xcd)).Push(0).Op(opMSTORE).Push(32).Push(0).Op(opREVERT)
	case "invalid":
		a.Op(opINVALID)
	case "oog": // run out of gas at once
		a.Push(1).Push(0xffffffff).Op(opMSTORE)
	case "underflow":
		a.Op(opPOP, opPOP, opPOP, opPOP)
	case "badjump":
		a.Push(1).Op(opJUMP)
	case "loop":
		l := fmt.Sprintf("%s-loop", tag)
		a.Label(l).PushLabel(l).Op(opJUMP)
	case "runtime": // init frames: handled by initCode
	default:
		panic(HarnessFault("end " + f.End))
	}
}

func (p *Program) logResult(a *Asm, id int) {
	a.Push(0).Op(opMSTORE)
	a.Op(opRETURNDATASIZE).Push(32).Op(opMSTORE)
	a.Push(uint64(id)).Push(64).Push(0).Op(opLOG1)
}

func (p *Program) target(i int) common.Address {
	if i >= 0 {
		return ConAddr(i)
	}
	return extAddrs[-2-i]
}

// initCode: the ops of the frame, then deploys a runtime made of frame.Run frames.
func (p *Program) initCode(f *Frame, depth int, tag string) []byte {
	a := NewAsm()
	g := *f
	end := f.End
	if end == "" || end == "stop" || end == "return" {
		g.End = "runtime"
	}
	p.emit(a, &g, false, depth, tag)
	if g.End == "runtime" {
		rt := p.runtime(f.Run, depth+1, tag+"r")
		a.Data("rt", rt)
		a.Push(uint64(len(rt))).PushLabel("rt").Push(0).Op(opCODECOPY).Push(uint64(len(rt))).Push(0).Op(opRETURN)
	}
	return a.Bytes()
}

func (p *Program) runtime(frames []*Frame, depth int, tag string) []byte {
	a := NewAsm()
	a.Push(1).Op(opCALLDATALOAD).Push(childMem).Op(opMSTORE)
	a.Push(0).Op(opCALLDATALOAD).Push(248).Op(0x1c)
	for i := range frames {
		a.Op(opDUP1).Push(uint64(i)).Op(0x14).PushLabel(fmt.Sprintf("f%d", i)).Op(opJUMPI)
	}
	a.Op(opDUP1).Push(probeID).Op(0x14).PushLabel("probe").Op(opJUMPI)
	a.Op(opSTOP)
	a.Label("probe")
	emitProbe(a)
	for i, f := range frames {
		a.Label(fmt.Sprintf("f%d", i))
		p.emit(a, f, false, depth, fmt.Sprintf("%s%d", tag, i))
	}
	return a.Bytes()
}

// InitCode compiles a frame as top-level creation code.
func InitCode(f *Frame) []byte {
	p := &Program{Root: f, ids: map[*Frame]int{}}
	return p.initCode(f, 0, "i")
}

// SlotKey is the storage key of a slot number; slot 2 is a key with the highest bits set.
func SlotKey(i int) common.Hash {
	if i == 2 {
		return common.HexToHash("0xff00000000000000000000000000000000000000000000000000000000000002")
	}
	return common.BytesToHash([]byte{byte(i)})
}

func pushSlot(a *Asm, i int) {
	if i < 2 {
		a.Push(uint64(i))
		return
	}
	k := SlotKey(i)
	a.PushB(k[:])
}

// Keccak hashes.
func Keccak(b []byte) common.Hash { return crypto.Keccak256Hash(b) }
