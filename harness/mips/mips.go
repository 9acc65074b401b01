// Package mips runs Go programs built for GOARCH=mips or mips64 (big-endian, soft float) in a simulated machine:
// the user-mode instructions that the Go tools emit, threads taking turns, and the few system calls that the runtime makes.
// Everything is deterministic: time is counted in instructions.
package mips

import (
	"debug/elf"
	"encoding/binary"
	"errors"
	"fmt"
	"math/bits"
	"runtime/debug"
	"sort"
	"syscall"
	"unsafe"
)

// operations, after decoding
const (
	opBad = iota
	opNop
	opSll
	opSrl
	opSra
	opSllv
	opSrlv
	opSrav
	opJr
	opJalr
	opMovz
	opMovn
	opSyscall
	opBreak
	opMfhi
	opMthi
	opMflo
	opMtlo
	opDsllv
	opDsrlv
	opDsrav
	opMult
	opMultu
	opDiv
	opDivu
	opDmult
	opDmultu
	opDdiv
	opDdivu
	opAddu
	opSubu
	opAnd
	opOr
	opXor
	opNor
	opSlt
	opSltu
	opDaddu
	opDsubu
	opTeq
	opDsll
	opDsrl
	opDsra
	opBltz
	opBgez
	opJ
	opJal
	opBeq
	opBne
	opBlez
	opBgtz
	opAddiu
	opSlti
	opSltiu
	opAndi
	opOri
	opXori
	opLui
	opDaddiu
	opMul
	opClz
	opClo
	opDclz
	opLb
	opLh
	opLwl
	opLw
	opLbu
	opLhu
	opLwr
	opLwu
	opSb
	opSh
	opSwl
	opSw
	opSwr
	opLl
	opLld
	opLd
	opSc
	opScd
	opSd
	opLdl
	opLdr
	opSdl
	opSdr
	opRdhwr
)

// ins is a decoded instruction. Register 32 takes what is written to register 0.
type ins struct {
	op, s, t, d uint8
	imm         uint64
}

type state uint8

const (
	running state = iota
	waiting       // on a futex
	sleeping
	polling // for events
	input   // for standard input
)

type thread struct {
	r       [64]uint64 // 32: what is written to register 0
	hi, lo  uint64
	pc, npc uint64
	linked  bool
	link    uint64
	id      uint64
	state   state
	addr    uint64 // of the futex
	until   uint64 // 0: for ever
	ready   func() // what to do before running on
	yield   bool   // let others run
}

// Machine is a simulated machine with a program.
type Machine struct {
	wide    bool
	mem     []byte
	mask    uint64
	code    []ins
	start   uint64 // of the code
	threads []*thread
	cur     int
	ids     uint64
	top     uint64 // of the memory handed out
	clock   uint64 // instructions so far
	in      []byte
	out     []byte
	Stderr  []byte
	dead    error
	syms    []elf.Symbol
}

// Exit is the end of the program.
type Exit int

func (e Exit) Error() string { return fmt.Sprintf("program ended with status %d", int(e)) }

// ErrBudget: the program did not answer within the instructions granted.
var ErrBudget = errors.New("no answer within the instructions granted")

const (
	stackTop = 0x7fff0000
	slice    = 20000
	tick     = 4 // nanoseconds per instruction
	epoch    = 1_700_000_000_000_000_000
)

// Boot loads the program and makes it ready to run.
func Boot(path string, env ...string) (*Machine, error) {
	f, err := elf.Open(path)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.Machine != elf.EM_MIPS || f.Data != elf.ELFDATA2MSB {
		return nil, fmt.Errorf("%s is not a big-endian MIPS program", path)
	}
	m := &Machine{wide: f.Class == elf.ELFCLASS64, mask: 1<<32 - 1, top: 1 << 12}
	if m.wide {
		m.mask = 1<<36 - 1
	}
	m.mem, err = syscall.Mmap(-1, 0, int(m.mask+1)+4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
	if err != nil {
		return nil, fmt.Errorf("reserving memory: %w", err)
	}
	for _, p := range f.Progs {
		if p.Type != elf.PT_LOAD {
			continue
		}
		if _, err := p.ReadAt(m.mem[p.Vaddr:p.Vaddr+p.Filesz], 0); err != nil {
			return nil, err
		}
		if end := p.Vaddr + p.Memsz; end > m.top {
			m.top = end
		}
	}
	if err := syscall.Mprotect(m.mem[:4096], syscall.PROT_NONE); err != nil {
		return nil, err
	}
	m.top = (m.top + 0xffff) &^ 0xffff
	if m.wide {
		m.top = 1 << 32
	}
	text := f.Section(".text")
	m.start = text.Addr
	m.code = make([]ins, text.Size/4)
	for i := range m.code {
		m.code[i] = decode(binary.BigEndian.Uint32(m.mem[m.start+uint64(i)*4:]), m.start+uint64(i)*4)
	}
	m.syms, _ = f.Symbols()
	sort.Slice(m.syms, func(i, j int) bool { return m.syms[i].Value < m.syms[j].Value })

	t := m.spawn()
	t.pc, t.npc = f.Entry, f.Entry+4
	w := uint64(4)
	if m.wide {
		w = 8
	}
	p := uint64(stackTop)
	str := func(s string) uint64 {
		p -= uint64(len(s) + 1)
		copy(m.mem[p:], s+"\x00")
		return p
	}
	words := []uint64{1, str("guest"), 0}
	for _, e := range env {
		words = append(words, str(e))
	}
	words = append(words, 0, 6, 4096, 25, str("0123456789abcdef"), 0, 0)
	p = (p - uint64(len(words))*w) &^ 15
	for i, x := range words {
		m.putWord(p+uint64(i)*w, x)
	}
	t.r[29] = p
	return m, nil
}

// Close gives the memory back.
func (m *Machine) Close() {
	if m.mem != nil {
		syscall.Munmap(m.mem)
		m.mem = nil
		m.dead = errors.New("closed")
	}
}

// Said is what the program wrote to its standard error.
func (m *Machine) Said() string { return string(m.Stderr) }

// Clock is the number of instructions executed so far.
func (m *Machine) Clock() uint64 { return m.clock }

func (m *Machine) spawn() *thread {
	m.ids++
	t := &thread{id: m.ids}
	m.threads = append(m.threads, t)
	return t
}

func (m *Machine) putWord(a, x uint64) {
	if m.wide {
		binary.BigEndian.PutUint64(m.mem[a:], x)
	} else {
		binary.BigEndian.PutUint32(m.mem[a:], uint32(x))
	}
}

// Call gives the program more input and runs it until it asks for more than that; it returns what the program wrote.
func (m *Machine) Call(in []byte, budget uint64) (out []byte, err error) {
	if m.dead != nil {
		return nil, m.dead
	}
	m.in, m.out = append(m.in, in...), nil
	for _, t := range m.threads {
		if t.state == input && len(m.in) > 0 {
			m.wake(t)
		}
	}
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if p := recover(); p != nil {
			t := m.threads[m.cur]
			if e, ok := p.(error); ok {
				if _, ok := e.(Exit); ok {
					err = e
				}
			}
			if err == nil {
				err = fmt.Errorf("fault at %s: %v (thread %d)", m.where(t.pc), p, t.id)
			}
			m.dead, out = err, m.out
		}
	}()
	end := m.clock + budget
	for m.clock < end {
		t := m.pick()
		if t == nil {
			return m.out, nil
		}
		if t.ready != nil {
			f := t.ready
			t.ready = nil
			f()
			if t.state != running {
				continue
			}
		}
		if m.wide {
			m.run(t, slice, 1<<36-1)
		} else {
			m.run(t, slice, 1<<32-1)
		}
		t.linked = false
	}
	m.dead = ErrBudget
	return m.out, m.dead
}

// Where tells what the running thread is doing.
func (m *Machine) Where() string { return m.where(m.threads[m.cur].pc) }

func (m *Machine) where(pc uint64) string {
	i := sort.Search(len(m.syms), func(i int) bool { return m.syms[i].Value > pc })
	if i == 0 {
		return fmt.Sprintf("%#x", pc)
	}
	return fmt.Sprintf("%s+%#x", m.syms[i-1].Name, pc-m.syms[i-1].Value)
}

func (m *Machine) now() uint64 { return m.clock * tick }

func (m *Machine) wake(t *thread) { t.state, t.until = running, 0 }

// pick finds the next thread to run; nil when the program waits for input.
func (m *Machine) pick() *thread {
	for {
		n := len(m.threads)
		for i := 1; i <= n; i++ {
			k := (m.cur + i) % n
			t := m.threads[k]
			if t.state != running && t.until != 0 && t.until <= m.now() {
				if t.state == waiting {
					fail := t
					t.ready = func() { m.fail(fail, 145) }
				}
				m.wake(t)
			}
			if t.state == running {
				m.cur = k
				return t
			}
		}
		first := uint64(0)
		for _, t := range m.threads {
			if t.state == input {
				return nil
			}
			if t.until != 0 && (first == 0 || t.until < first) {
				first = t.until
			}
		}
		if first == 0 {
			panic("all threads are blocked")
		}
		m.clock = (first + tick - 1) / tick
	}
}

// memory are the loads and stores.
var memory = [64]uint8{0x1a: opLdl, 0x1b: opLdr, 0x20: opLb, 0x21: opLh, 0x22: opLwl, 0x23: opLw, 0x24: opLbu, 0x25: opLhu, 0x26: opLwr, 0x27: opLwu,
	0x28: opSb, 0x29: opSh, 0x2a: opSwl, 0x2b: opSw, 0x2c: opSdl, 0x2d: opSdr, 0x2e: opSwr, 0x30: opLl, 0x34: opLld, 0x37: opLd, 0x38: opSc, 0x3c: opScd, 0x3f: opSd}

func decode(w uint32, pc uint64) ins {
	s, t, d, sh := uint8(w>>21&31), uint8(w>>16&31), uint8(w>>11&31), uint64(w>>6&31)
	wr := func(r uint8) uint8 {
		if r == 0 {
			return 32
		}
		return r
	}
	imm := uint64(int64(int16(w)))
	rel := pc + 4 + imm<<2
	switch op := w >> 26; op {
	case 0:
		fn := w & 63
		if w == 0 {
			return ins{op: opNop}
		}
		r := func(o uint8) ins { return ins{o, s, t, wr(d), sh} }
		switch fn {
		case 0x00:
			return r(opSll)
		case 0x02:
			return r(opSrl)
		case 0x03:
			return r(opSra)
		case 0x04:
			return r(opSllv)
		case 0x06:
			return r(opSrlv)
		case 0x07:
			return r(opSrav)
		case 0x08:
			return r(opJr)
		case 0x09:
			return r(opJalr)
		case 0x0a:
			return r(opMovz)
		case 0x0b:
			return r(opMovn)
		case 0x0c:
			return r(opSyscall)
		case 0x0d:
			return r(opBreak)
		case 0x0f:
			return ins{op: opNop} // SYNC
		case 0x10:
			return r(opMfhi)
		case 0x11:
			return r(opMthi)
		case 0x12:
			return r(opMflo)
		case 0x13:
			return r(opMtlo)
		case 0x14:
			return r(opDsllv)
		case 0x16:
			return r(opDsrlv)
		case 0x17:
			return r(opDsrav)
		case 0x18:
			return r(opMult)
		case 0x19:
			return r(opMultu)
		case 0x1a:
			return r(opDiv)
		case 0x1b:
			return r(opDivu)
		case 0x1c:
			return r(opDmult)
		case 0x1d:
			return r(opDmultu)
		case 0x1e:
			return r(opDdiv)
		case 0x1f:
			return r(opDdivu)
		case 0x20, 0x21:
			return r(opAddu)
		case 0x22, 0x23:
			return r(opSubu)
		case 0x24:
			return r(opAnd)
		case 0x25:
			return r(opOr)
		case 0x26:
			return r(opXor)
		case 0x27:
			return r(opNor)
		case 0x2a:
			return r(opSlt)
		case 0x2b:
			return r(opSltu)
		case 0x2c, 0x2d:
			return r(opDaddu)
		case 0x2e, 0x2f:
			return r(opDsubu)
		case 0x34:
			return r(opTeq)
		case 0x38, 0x3c:
			return ins{opDsll, s, t, wr(d), sh + uint64(fn&4)<<3}
		case 0x3a, 0x3e:
			return ins{opDsrl, s, t, wr(d), sh + uint64(fn&4)<<3}
		case 0x3b, 0x3f:
			return ins{opDsra, s, t, wr(d), sh + uint64(fn&4)<<3}
		}
	case 1:
		switch t {
		case 0:
			return ins{opBltz, s, t, 32, rel}
		case 1:
			return ins{opBgez, s, t, 32, rel}
		case 0x10:
			return ins{opBltz, s, t, 31, rel}
		case 0x11:
			return ins{opBgez, s, t, 31, rel}
		}
	case 2:
		return ins{op: opJ, imm: (pc+4)&^0xfffffff | uint64(w&0x3ffffff)<<2}
	case 3:
		return ins{op: opJal, imm: (pc+4)&^0xfffffff | uint64(w&0x3ffffff)<<2}
	case 4:
		return ins{opBeq, s, t, 0, rel}
	case 5:
		return ins{opBne, s, t, 0, rel}
	case 6:
		return ins{opBlez, s, t, 0, rel}
	case 7:
		return ins{opBgtz, s, t, 0, rel}
	case 8, 9:
		return ins{opAddiu, s, t, wr(t), imm}
	case 0xa:
		return ins{opSlti, s, t, wr(t), imm}
	case 0xb:
		return ins{opSltiu, s, t, wr(t), imm}
	case 0xc:
		return ins{opAndi, s, t, wr(t), imm & 0xffff}
	case 0xd:
		return ins{opOri, s, t, wr(t), imm & 0xffff}
	case 0xe:
		return ins{opXori, s, t, wr(t), imm & 0xffff}
	case 0xf:
		return ins{opLui, s, t, wr(t), uint64(int64(int32(w << 16)))}
	case 0x18, 0x19:
		return ins{opDaddiu, s, t, wr(t), imm}
	case 0x1c:
		switch w & 63 {
		case 0x02:
			return ins{opMul, s, t, wr(d), 0}
		case 0x20:
			return ins{opClz, s, t, wr(d), 0}
		case 0x21:
			return ins{opClo, s, t, wr(d), 0}
		case 0x24:
			return ins{opDclz, s, t, wr(d), 0}
		}
	case 0x1f:
		if w&63 == 0x3b {
			return ins{opRdhwr, s, t, wr(t), 0}
		}
	default:
		if o := memory[op]; o != opBad {
			return ins{o, s, t, wr(t), imm}
		}
	}
	return ins{op: opBad}
}

func sx(x uint32) uint64 { return uint64(int64(int32(x))) }

// run executes up to n instructions of the thread.
func (m *Machine) run(t *thread, n int, mask uint64) {
	base := unsafe.Pointer(unsafe.SliceData(m.mem))
	code, start := m.code, m.start
	r := &t.r
	pc, npc := t.pc, t.npc
	done := 0
	defer func() {
		t.pc, t.npc = pc, npc
		m.clock += uint64(done)
	}()
	for ; done < n; done++ {
		k := (pc - start) >> 2
		if k >= uint64(len(code)) {
			panic(fmt.Sprintf("jump to %#x", pc))
		}
		in := &code[k]
		next := npc
		after := npc + 4
		s, v := r[in.s&63], r[in.t&63]
		d := &r[in.d&63]
		a := unsafe.Add(base, uintptr((s+in.imm)&mask))
		switch in.op {
		case opNop:
		case opSll:
			*d = sx(uint32(v) << (in.imm & 31))
		case opSrl:
			*d = sx(uint32(v) >> (in.imm & 31))
		case opSra:
			*d = uint64(int64(int32(v)) >> (in.imm & 31))
		case opSllv:
			*d = sx(uint32(v) << (s & 31))
		case opSrlv:
			*d = sx(uint32(v) >> (s & 31))
		case opSrav:
			*d = uint64(int64(int32(v)) >> (s & 31))
		case opJr:
			after = s & mask
		case opJalr:
			*d = pc + 8
			after = s & mask
		case opMovz:
			if v == 0 {
				*d = s
			}
		case opMovn:
			if v != 0 {
				*d = s
			}
		case opMfhi:
			*d = t.hi
		case opMthi:
			t.hi = s
		case opMflo:
			*d = t.lo
		case opMtlo:
			t.lo = s
		case opDsllv:
			*d = v << (s & 63)
		case opDsrlv:
			*d = v >> (s & 63)
		case opDsrav:
			*d = uint64(int64(v) >> (s & 63))
		case opMult:
			p := int64(int32(s)) * int64(int32(v))
			t.lo, t.hi = sx(uint32(p)), sx(uint32(uint64(p)>>32))
		case opMultu:
			p := uint64(uint32(s)) * uint64(uint32(v))
			t.lo, t.hi = sx(uint32(p)), sx(uint32(p>>32))
		case opDiv:
			if x, y := int64(int32(s)), int64(int32(v)); y != 0 {
				t.lo, t.hi = sx(uint32(x/y)), sx(uint32(x%y))
			}
		case opDivu:
			if x, y := uint32(s), uint32(v); y != 0 {
				t.lo, t.hi = sx(x/y), sx(x%y)
			}
		case opDmult:
			hi, lo := bits.Mul64(s, v)
			if int64(s) < 0 {
				hi -= v
			}
			if int64(v) < 0 {
				hi -= s
			}
			t.lo, t.hi = lo, hi
		case opDmultu:
			t.hi, t.lo = bits.Mul64(s, v)
		case opDdiv:
			if v != 0 {
				t.lo, t.hi = uint64(int64(s)/int64(v)), uint64(int64(s)%int64(v))
			}
		case opDdivu:
			if v != 0 {
				t.lo, t.hi = s/v, s%v
			}
		case opAddu:
			*d = sx(uint32(s) + uint32(v))
		case opSubu:
			*d = sx(uint32(s) - uint32(v))
		case opAnd:
			*d = s & v
		case opOr:
			*d = s | v
		case opXor:
			*d = s ^ v
		case opNor:
			*d = ^(s | v)
		case opSlt:
			*d = 0
			if int64(s) < int64(v) {
				*d = 1
			}
		case opSltu:
			*d = 0
			if s < v {
				*d = 1
			}
		case opDaddu:
			*d = s + v
		case opDsubu:
			*d = s - v
		case opTeq:
			if s == v {
				panic("trap")
			}
		case opDsll:
			*d = v << (in.imm & 63)
		case opDsrl:
			*d = v >> (in.imm & 63)
		case opDsra:
			*d = uint64(int64(v) >> (in.imm & 63))
		case opBltz:
			if in.d == 31 {
				*d = pc + 8
			}
			if int64(s) < 0 {
				after = in.imm
			}
		case opBgez:
			if in.d == 31 {
				*d = pc + 8
			}
			if int64(s) >= 0 {
				after = in.imm
			}
		case opJ:
			after = in.imm
		case opJal:
			r[31] = pc + 8
			after = in.imm
		case opBeq:
			if s == v {
				after = in.imm
			}
		case opBne:
			if s != v {
				after = in.imm
			}
		case opBlez:
			if int64(s) <= 0 {
				after = in.imm
			}
		case opBgtz:
			if int64(s) > 0 {
				after = in.imm
			}
		case opAddiu:
			*d = sx(uint32(s) + uint32(in.imm))
		case opSlti:
			*d = 0
			if int64(s) < int64(in.imm) {
				*d = 1
			}
		case opSltiu:
			*d = 0
			if s < in.imm {
				*d = 1
			}
		case opAndi:
			*d = s & in.imm
		case opOri:
			*d = s | in.imm
		case opXori:
			*d = s ^ in.imm
		case opLui:
			*d = in.imm
		case opDaddiu:
			*d = s + in.imm
		case opMul:
			*d = sx(uint32(s) * uint32(v))
		case opClz:
			*d = uint64(bits.LeadingZeros32(uint32(s)))
		case opClo:
			*d = uint64(bits.LeadingZeros32(^uint32(s)))
		case opDclz:
			*d = uint64(bits.LeadingZeros64(s))
		case opLb:
			*d = uint64(int64(*(*int8)(a)))
		case opLbu:
			*d = uint64(*(*uint8)(a))
		case opLh:
			*d = uint64(int64(int16(bits.ReverseBytes16(*(*uint16)(a)))))
		case opLhu:
			*d = uint64(bits.ReverseBytes16(*(*uint16)(a)))
		case opLw:
			*d = sx(bits.ReverseBytes32(*(*uint32)(a)))
		case opLwu:
			*d = uint64(bits.ReverseBytes32(*(*uint32)(a)))
		case opLd:
			*d = bits.ReverseBytes64(*(*uint64)(a))
		case opSb:
			*(*uint8)(a) = uint8(v)
		case opSh:
			*(*uint16)(a) = bits.ReverseBytes16(uint16(v))
		case opSw:
			*(*uint32)(a) = bits.ReverseBytes32(uint32(v))
		case opSd:
			*(*uint64)(a) = bits.ReverseBytes64(v)
		case opLwl, opLwr, opSwl, opSwr, opLdl, opLdr, opSdl, opSdr:
			m.unaligned(in.op, (s+in.imm)&mask, v, d)
		case opLl:
			*d = sx(bits.ReverseBytes32(*(*uint32)(a)))
			t.linked, t.link = true, s+in.imm
		case opLld:
			*d = bits.ReverseBytes64(*(*uint64)(a))
			t.linked, t.link = true, s+in.imm
		case opSc, opScd:
			*d = 0
			if t.linked && t.link == s+in.imm {
				if in.op == opSc {
					*(*uint32)(a) = bits.ReverseBytes32(uint32(v))
				} else {
					*(*uint64)(a) = bits.ReverseBytes64(v)
				}
				*d = 1
			}
			t.linked = false
		case opSyscall:
			t.pc, t.npc = next, after
			m.clock += uint64(done)
			n -= done
			done = 0
			m.syscall(t)
			pc, npc = t.pc, t.npc
			m.clock++
			if t.state != running || t.yield {
				t.yield = false
				return
			}
			continue
		case opBreak:
			panic("break")
		case opRdhwr:
			*d = 0
		default:
			panic(fmt.Sprintf("unknown instruction %08x", binary.BigEndian.Uint32(m.mem[pc:])))
		}
		pc, npc = next, after
	}
}

// unaligned does the accesses to parts of words, in big-endian order.
func (m *Machine) unaligned(op uint8, a, v uint64, d *uint64) {
	w := uint64(4)
	if op >= opLdl {
		w = 8
	}
	b := m.mem[a&^(w-1):][:w]
	k := a & (w - 1)
	le := func(reg []byte) {
		if w == 4 {
			binary.BigEndian.PutUint32(reg, uint32(v))
		} else {
			binary.BigEndian.PutUint64(reg, v)
		}
	}
	var buf [8]byte
	reg := buf[:w]
	le(reg)
	switch op {
	case opLwl, opLdl:
		copy(reg, b[k:])
	case opLwr, opLdr:
		copy(reg[w-1-k:], b[:k+1])
	case opSwl, opSdl:
		copy(b[k:], reg)
		return
	case opSwr, opSdr:
		copy(b[:k+1], reg[w-1-k:])
		return
	}
	if w == 4 {
		*d = sx(binary.BigEndian.Uint32(reg))
	} else {
		*d = binary.BigEndian.Uint64(reg)
	}
}
