package core

import (
	"encoding/binary"

	"github.com/ethereum/go-ethereum/common"
)

// Opcodes used by the assembler.
const (
	opSTOP           = 0x00
	opADDRESS        = 0x30
	opBALANCE        = 0x31
	opCALLER         = 0x33
	opCALLVALUE      = 0x34
	opCALLDATALOAD   = 0x35
	opCODECOPY       = 0x39
	opEXTCODESIZE    = 0x3b
	opEXTCODEHASH    = 0x3f
	opRETURNDATASIZE = 0x3d
	opRETURNDATACOPY = 0x3e
	opSELFBALANCE    = 0x47
	opPOP            = 0x50
	opMLOAD          = 0x51
	opMSTORE         = 0x52
	opMSTORE8        = 0x53
	opSLOAD          = 0x54
	opSSTORE         = 0x55
	opJUMP           = 0x56
	opJUMPI          = 0x57
	opGAS            = 0x5a
	opJUMPDEST       = 0x5b
	opTLOAD          = 0x5c
	opTSTORE         = 0x5d
	opMCOPY          = 0x5e
	opPUSH0          = 0x5f
	opDUP1           = 0x80
	opLOG0           = 0xa0
	opLOG1           = 0xa1
	opCREATE         = 0xf0
	opCALL           = 0xf1
	opCALLCODE       = 0xf2
	opRETURN         = 0xf3
	opDELEGATECALL   = 0xf4
	opCREATE2        = 0xf5
	opSTATICCALL     = 0xfa
	opREVERT         = 0xfd
	opINVALID        = 0xfe
	opSELFDESTRUCT   = 0xff
)

// Asm is a tiny EVM assembler.
type Asm struct {
	B      []byte
	fix    map[int]string
	labels map[string]int
	data   map[string][]byte
	order  []string
}

// NewAsm makes one.
func NewAsm() *Asm {
	return &Asm{fix: map[int]string{}, labels: map[string]int{}, data: map[string][]byte{}}
}

// Op emits opcodes.
func (a *Asm) Op(ops ...byte) *Asm { a.B = append(a.B, ops...); return a }

// Push emits the shortest push of v.
func (a *Asm) Push(v uint64) *Asm {
	if v == 0 {
		return a.Op(opPUSH0)
	}
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], v)
	i := 0
	for b[i] == 0 {
		i++
	}
	a.B = append(a.B, byte(0x5f+8-i))
	a.B = append(a.B, b[i:]...)
	return a
}

// PushB pushes bytes (1..32).
func (a *Asm) PushB(b []byte) *Asm {
	a.B = append(a.B, byte(0x5f+len(b)))
	a.B = append(a.B, b...)
	return a
}

// PushAddr pushes an address.
func (a *Asm) PushAddr(x common.Address) *Asm { return a.PushB(x.Bytes()) }

// PushLabel pushes the 2-byte position of a label.
func (a *Asm) PushLabel(l string) *Asm {
	a.B = append(a.B, 0x61)
	a.fix[len(a.B)] = l
	a.B = append(a.B, 0, 0)
	return a
}

// Label defines a jump destination.
func (a *Asm) Label(l string) *Asm {
	a.labels[l] = len(a.B)
	return a.Op(opJUMPDEST)
}

// Data registers a data blob appended after the code, addressed by label.
func (a *Asm) Data(l string, b []byte) *Asm {
	if _, ok := a.data[l]; !ok {
		a.data[l] = b
		a.order = append(a.order, l)
	}
	return a
}

// Bytes resolves labels.
func (a *Asm) Bytes() []byte {
	out := append([]byte{}, a.B...)
	if len(a.order) > 0 {
		out = append(out, opINVALID)
	}
	for _, l := range a.order {
		a.labels[l] = len(out)
		out = append(out, a.data[l]...)
	}
	for pos, l := range a.fix {
		p, ok := a.labels[l]
		if !ok {
			panic(HarnessFault("unknown label " + l))
		}
		binary.BigEndian.PutUint16(out[pos:], uint16(p))
	}
	return out
}
