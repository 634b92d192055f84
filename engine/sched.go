package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative goroutines: exactly one runs at a time, switches happen at
// blocking operations only.

type coro struct {
	wake chan struct{}
	done bool
	fr   *Frame
}

type coSched struct {
	queue []*coro // others, in scheduling order
	cur   *coro
	main  *coro
	fatal any
	kill  bool
	all   []*coro
}

type killCo struct{}

func (m *Machine) sched() *coSched {
	if m.co == nil {
		mc := &coro{wake: make(chan struct{}, 1)}
		m.co = &coSched{cur: mc, main: mc}
	}
	return m.co
}

func (m *Machine) spawn(fr *Frame, fn Value, args []Value) {
	s := m.sched()
	c := &coro{wake: make(chan struct{}, 1)}
	s.queue = append(s.queue, c)
	s.all = append(s.all, c)
	go func() {
		<-c.wake
		defer func() {
			r := recover()
			c.done = true
			if _, ok := r.(killCo); ok || s.kill {
				return
			}
			if r != nil {
				s.fatal = r
				// hand over to main
				s.cur = s.main
				for i, q := range s.queue {
					if q == s.main {
						s.queue = append(append([]*coro(nil), s.queue[:i]...), s.queue[i+1:]...)
						break
					}
				}
				s.main.wake <- struct{}{}
				return
			}
			if len(s.queue) == 0 {
				return
			}
			n := s.queue[0]
			s.queue = s.queue[1:]
			s.cur = n
			n.wake <- struct{}{}
		}()
		if s.kill {
			panic(killCo{})
		}
		m.curFr = nil
		m.callFn(nil, fn, args)
	}()
}

// pause lets the other goroutines run; false if there are none.
func (m *Machine) pause() bool {
	s := m.sched()
	if len(s.queue) == 0 {
		return false
	}
	me := s.cur
	me.fr = m.curFr
	n := s.queue[0]
	s.queue = append(append([]*coro(nil), s.queue[1:]...), me)
	s.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if s.kill {
		panic(killCo{})
	}
	if s.fatal != nil && me == s.main {
		f := s.fatal
		s.fatal = nil
		panic(f)
	}
	m.curFr = me.fr
	return true
}

func (m *Machine) waitUntil(ready func() bool) {
	idle := 0
	before := m.steps
	for !ready() {
		if !m.pause() {
			m.rtPanic("all goroutines are asleep - deadlock!")
		}
		if m.steps == before {
			idle++
			if idle > 3*(len(m.sched().queue)+2) {
				m.rtPanic("all goroutines are asleep - deadlock!")
			}
		} else {
			idle = 0
			before = m.steps
		}
	}
}

func (m *Machine) killCoros() {
	if m.co == nil {
		return
	}
	m.co.kill = true
	for _, c := range m.co.all {
		if !c.done {
			select {
			case c.wake <- struct{}{}:
			default:
			}
		}
	}
	m.co = nil
}

func (m *Machine) chanSend(c *Chan, v Value) {
	if c == nil {
		m.waitUntil(func() bool { return false })
	}
	if c.cap > 0 {
		m.waitUntil(func() bool { return c.closed || len(c.buf) < c.cap })
	}
	if c.closed {
		m.rtPanic("send on closed channel")
	}
	c.buf = append(c.buf, v)
	if c.cap == 0 {
		n := len(c.buf)
		_ = n
		m.waitUntil(func() bool { return len(c.buf) == 0 || c.closed })
	}
}

func (m *Machine) chanRecv(c *Chan, in *ssa.UnOp) Value {
	if c == nil {
		m.waitUntil(func() bool { return false })
	}
	m.waitUntil(func() bool { return len(c.buf) > 0 || c.closed })
	var v Value
	ok := true
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
	} else {
		ok = false
		v = zero(in.X.Type().Underlying().(*types.Chan).Elem())
	}
	if in.CommaOk {
		return Tuple{v, ok}
	}
	return v
}

func (m *Machine) chanClose(c *Chan) {
	if c == nil {
		m.rtPanic("close of nil channel")
	}
	if c.closed {
		m.rtPanic("close of closed channel")
	}
	c.closed = true
}

func (m *Machine) doSelect(fr *Frame, in *ssa.Select, ins *instr) Value {
	type st struct {
		c    *Chan
		send bool
		v    Value
		t    types.Type
	}
	var sts []st
	k := 0
	for _, s := range in.States {
		x := st{send: s.Dir == types.SendOnly}
		x.c, _ = m.get(fr, &ins.ops[k]).(*Chan)
		x.v = m.get(fr, &ins.ops[k+1])
		x.t = s.Chan.Type().Underlying().(*types.Chan).Elem()
		k += 2
		sts = append(sts, x)
	}
	pick := -1
	ready := func() bool {
		for i, s := range sts {
			if s.c == nil {
				continue
			}
			if s.send {
				if s.c.closed || len(s.c.buf) < s.c.cap {
					pick = i
					return true
				}
			} else if len(s.c.buf) > 0 || s.c.closed {
				pick = i
				return true
			}
		}
		return false
	}
	if in.Blocking {
		m.waitUntil(ready)
	} else {
		ready()
	}
	res := Tuple{uint64(int64(pick)), false}
	for i, s := range sts {
		if s.send {
			if i == pick {
				if s.c.closed {
					m.rtPanic("send on closed channel")
				}
				s.c.buf = append(s.c.buf, s.v)
			}
			continue
		}
		v := zero(s.t)
		if i == pick {
			if len(s.c.buf) > 0 {
				v = s.c.buf[0]
				s.c.buf = s.c.buf[1:]
				res[1] = true
			}
		}
		res = append(res, v)
	}
	return res
}
