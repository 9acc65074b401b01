package mips

import (
	"encoding/binary"
	"fmt"
	"syscall"
)

// system calls by the numbers of the o32 (mips) and n64 (mips64) interfaces
var calls = map[uint64]string{
	4001: "exit", 4003: "read", 4004: "write", 4005: "open", 4006: "close", 4020: "getpid", 4037: "kill", 4045: "brk", 4055: "fcntl", 4090: "mmap", 4091: "munmap",
	4104: "ok", 4120: "clone", 4125: "ok", 4162: "yield", 4166: "nanosleep", 4194: "ok", 4195: "ok", 4206: "ok", 4217: "mincore", 4218: "madvise", 4220: "fcntl",
	4222: "gettid", 4238: "futex", 4240: "affinity", 4246: "exitgroup", 4263: "clock", 4266: "tgkill", 4288: "open", 4403: "clock64", 4249: "ok", 4313: "poll", 4325: "event", 4326: "epoll", 4422: "futex64",
	5000: "read", 5001: "write", 5002: "open", 5003: "close", 5009: "mmap", 5010: "ok", 5011: "munmap", 5012: "brk", 5013: "ok", 5014: "ok", 5023: "yield", 5026: "mincore",
	5027: "madvise", 5034: "nanosleep", 5036: "ok", 5038: "getpid", 5055: "clone", 5058: "exit", 5060: "kill", 5070: "fcntl", 5129: "ok", 5178: "gettid", 5194: "futex",
	5196: "affinity", 5205: "exitgroup", 5222: "clock", 5225: "tgkill", 5247: "open", 5208: "ok", 5272: "poll", 5284: "event", 5285: "epoll",
}

// file descriptors of the guest
const (
	epollFD = 10
	eventFD = 11
)

func (m *Machine) fail(t *thread, errno uint64) { t.r[2], t.r[7] = errno, 1 }

func (m *Machine) result(t *thread, x uint64) { t.r[2], t.r[7] = x, 0 }

func (m *Machine) arg(t *thread, i int) uint64 {
	if m.wide {
		return t.r[4+i]
	}
	if i < 4 {
		return uint64(uint32(t.r[4+i]))
	}
	return uint64(binary.BigEndian.Uint32(m.mem[t.r[29]&m.mask+uint64(i)*4:]))
}

// span reads a struct timespec.
func (m *Machine) span(a uint64, wide bool) uint64 {
	if wide {
		return binary.BigEndian.Uint64(m.mem[a:])*1e9 + binary.BigEndian.Uint64(m.mem[a+8:])
	}
	return uint64(binary.BigEndian.Uint32(m.mem[a:]))*1e9 + uint64(binary.BigEndian.Uint32(m.mem[a+4:]))
}

func (m *Machine) syscall(t *thread) {
	no := t.r[2]
	name := calls[no]
	arg := func(i int) uint64 { return m.arg(t, i) }
	switch name {
	case "ok", "tgkill", "kill":
		m.result(t, 0)
	case "exit":
		for i, o := range m.threads {
			if o == t {
				m.threads = append(m.threads[:i:i], m.threads[i+1:]...)
				break
			}
		}
		t.state = sleeping
		m.cur = 0
		if len(m.threads) == 0 {
			panic(Exit(arg(0)))
		}
	case "exitgroup":
		panic(Exit(arg(0)))
	case "read":
		if arg(0) == eventFD {
			m.result(t, 8)
			return
		}
		if arg(0) != 0 {
			m.fail(t, 9)
			return
		}
		a, n := arg(1), arg(2)
		read := func() {
			k := copy(m.mem[a:a+n], m.in)
			m.in = m.in[k:]
			m.result(t, uint64(k))
		}
		if len(m.in) > 0 {
			read()
			return
		}
		t.state, t.ready = input, read
	case "write":
		b := m.mem[arg(1) : arg(1)+arg(2)]
		switch arg(0) {
		case 1:
			m.out = append(m.out, b...)
		case 2:
			if len(m.Stderr) < 1<<16 {
				m.Stderr = append(m.Stderr, b...)
			}
		case eventFD:
			for _, o := range m.threads {
				if o.state == polling {
					m.wake(o)
				}
			}
		default:
			m.fail(t, 9)
			return
		}
		m.result(t, arg(2))
	case "open":
		m.fail(t, 2)
	case "epoll":
		m.result(t, epollFD)
	case "event":
		m.result(t, eventFD)
	case "poll":
		// there are no events; an interruption by the event file looks like a time-out
		m.result(t, 0)
		if ms := int32(arg(3)); ms != 0 {
			t.state, t.until = polling, 0
			if ms > 0 {
				t.until = m.now() + uint64(ms)*1e6
			}
		}
	case "close", "fcntl":
		m.result(t, 0)
	case "getpid":
		m.result(t, 1)
	case "gettid":
		m.result(t, t.id)
	case "brk", "mincore":
		m.fail(t, 12)
	case "mmap":
		a, n, flags := arg(0), (arg(1)+4095)&^4095, arg(3)
		if flags&0x10 == 0 {
			limit := m.mask
			if !m.wide {
				limit = stackTop - 1<<20
			}
			if a < m.top || a > limit {
				a = m.top
			}
			if n > limit || a+n > limit {
				m.fail(t, 12)
				return
			}
			m.top = a + n
		} else {
			m.drop(a, n)
		}
		m.result(t, a)
	case "munmap":
		a, n := arg(0), (arg(1)+4095)&^4095
		m.drop(a, n)
		if a+n == m.top {
			m.top = a
		}
		m.result(t, 0)
	case "madvise":
		if arg(2) == 4 { // MADV_DONTNEED
			m.drop(arg(0), (arg(1)+4095)&^4095)
		}
		m.result(t, 0)
	case "clone":
		c := m.spawn()
		id, st := c.id, arg(1)
		*c = *t
		c.id, c.linked, c.ready = id, false, nil
		c.r[29] = st
		m.result(c, 0)
		m.result(t, id)
	case "yield":
		m.result(t, 0)
		t.yield = true
	case "nanosleep":
		t.until = m.now() + m.span(arg(0), m.wide)
		t.state = sleeping
		m.result(t, 0)
	case "clock", "clock64":
		x := epoch + m.now()
		a := arg(1)
		if m.wide || name == "clock64" {
			binary.BigEndian.PutUint64(m.mem[a:], x/1e9)
			binary.BigEndian.PutUint64(m.mem[a+8:], x%1e9)
		} else {
			binary.BigEndian.PutUint32(m.mem[a:], uint32(x/1e9))
			binary.BigEndian.PutUint32(m.mem[a+4:], uint32(x%1e9))
		}
		m.result(t, 0)
	case "futex", "futex64":
		a, val := arg(0), uint32(arg(2))
		switch arg(1) & 127 {
		case 0:
			if binary.BigEndian.Uint32(m.mem[a:]) != val {
				m.fail(t, 11)
				return
			}
			t.addr, t.state, t.until = a, waiting, 0
			if ts := arg(3); ts != 0 {
				t.until = m.now() + m.span(ts, m.wide || name == "futex64") + 1
			}
			m.result(t, 0)
		case 1:
			n := uint64(0)
			for _, o := range m.threads {
				if n < uint64(val) && o.state == waiting && o.addr == a {
					m.wake(o)
					n++
				}
			}
			m.result(t, n)
		default:
			m.fail(t, 89)
		}
	case "affinity":
		a, n := arg(2), uint64(8)
		clear(m.mem[a : a+n])
		m.mem[a+n-1] = 1
		m.result(t, n)
	default:
		if no < 4000 || no > 6000 {
			panic(fmt.Sprintf("system call %d", no))
		}
		m.fail(t, 89)
	}
}

// drop makes whole pages zero.
func (m *Machine) drop(a, n uint64) {
	if n > 0 && a&4095 == 0 && a+n <= m.mask+1 {
		syscall.Madvise(m.mem[a:a+n], syscall.MADV_DONTNEED)
	}
}
