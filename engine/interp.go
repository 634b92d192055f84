package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	opReg opKind = iota
	opConst
	opGlobal
	opNone
)

type opnd struct {
	kind opKind
	reg  int
	val  Value
	g    *ssa.Global
}

type instr struct {
	in  ssa.Instruction
	dst int
	ops []opnd
}

type fnInfo struct {
	fn     *ssa.Function
	name   string
	nregs  int
	blocks [][]instr
	intr   Intrinsic
	repo   bool
	nph    []int
	rng    map[*ssa.Range]bool
}

type Intrinsic func(m *Machine, fr *Frame, fn *ssa.Function, args []Value) (Value, bool)

type Engine struct {
	prog     *ssa.Program
	fset     *token.FileSet
	mu       sync.Mutex
	infos    sync.Map // *ssa.Function -> *fnInfo
	snapMu   sync.Mutex
	snap     map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	initing  map[*ssa.Package]bool
	initM    *Machine
	methMu   sync.Mutex
	meth     map[methKey]*ssa.Function
	rtErr    types.Type
	errStr   types.Type
	wrapErr  types.Type
	repoPath string
	tkeys    sync.Map
	sizes    types.Sizes
}

type methKey struct {
	t  string
	id string
}

type Frame struct {
	fi        *fnInfo
	regs      []Value
	caller    *Frame
	block     *ssa.BasicBlock
	prev      int
	defers    []deferred
	result    Value
	panicking bool
	panicVal  any
	depth     int
}

type deferred struct {
	fn   Value
	args []Value
}

type targetPanic struct{ v Value } // Iface value

// Machine executes one path.
type Machine struct {
	eng      *Engine
	st       *TermStore
	p        *Path
	globals  map[*ssa.Global]*Value
	clone    *cloner
	steps    int
	maxSteps int
	names    map[string]int
	run      *PathRun
	initMode bool
	hit      map[*ssa.Function]int
	mapOrder int
	mapRev   int // order taken for all maps: 0 open, 1 insertion, 2 reverse
	prov     map[int]Value // float term id -> decimal text it was parsed from
	depth    int
	lastPos  token.Pos
	side     map[any]any // engine-side attachments (e.g. sync.Once)
	co       *coSched
	curFr    *Frame
	bypass   *ssa.Function
}

func (e *Engine) typeKey(t types.Type) string {
	if k, ok := e.tkeys.Load(t); ok {
		return k.(string)
	}
	k := types.TypeString(types.Unalias(t), nil)
	e.tkeys.Store(t, k)
	return k
}

var theEngine *Engine

func typeKey(t types.Type) string { return theEngine.typeKey(t) }

func identical(a, b types.Type) bool {
	if a == b {
		return true
	}
	return types.Identical(a, b)
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if v, ok := e.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if v, ok := e.infos.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, name: fn.String()}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	if in, ok := intrinsics[o.String()]; ok {
		fi.intr = in
	}
	if fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), e.repoPath) && !strings.Contains(fn.Pkg.Pkg.Path(), "zzvx") {
		fi.repo = true
	}
	if fn.Blocks != nil {
		regs := map[ssa.Value]int{}
		n := 0
		add := func(v ssa.Value) { regs[v] = n; n++ }
		for _, p := range fn.Params {
			add(p)
		}
		for _, p := range fn.FreeVars {
			add(p)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
			}
		}
		fi.nregs = n
		fi.blocks = make([][]instr, len(fn.Blocks))
		var buf [16]*ssa.Value
		for bi, b := range fn.Blocks {
			code := make([]instr, 0, len(b.Instrs))
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				ins := instr{in: in, dst: -1}
				if v, ok := in.(ssa.Value); ok {
					ins.dst = regs[v]
				}
				for _, op := range in.Operands(buf[:0]) {
					var o opnd
					if op == nil || *op == nil {
						o.kind = opNone
					} else {
						switch v := (*op).(type) {
						case *ssa.Const:
							o.kind = opConst
							o.val = constVal(v)
						case *ssa.Global:
							o.kind = opGlobal
							o.g = v
						case *ssa.Function:
							o.kind = opConst
							o.val = v
						case *ssa.Builtin:
							o.kind = opConst
							o.val = v
						default:
							r, ok := regs[*op]
							if !ok {
								panic(fmt.Sprintf("no register for %v (%T) in %v", *op, *op, fn))
							}
							o.kind = opReg
							o.reg = r
						}
					}
					ins.ops = append(ins.ops, o)
				}
				code = append(code, ins)
			}
			fi.blocks[bi] = code
		}
	}
	e.infos.Store(fn, fi)
	return fi
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			w, s, _ := intWidth(b.Kind())
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return normInt(uint64(i), w, s)
			}
			u, _ := constant.Uint64Val(v)
			return normInt(u, w, s)
		case b.Info()&types.IsFloat != 0:
			f := c.Float64()
			if b.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return f
		case b.Info()&types.IsComplex != 0:
			return c.Complex128()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return constant.StringVal(c.Value)
			}
			return string(rune(c.Int64()))
		}
	}
	panic(pathEnd{"unsupported", fmt.Sprintf("const %v of type %v", c, c.Type())})
}

func (m *Machine) unsupported(format string, a ...any) {
	panic(pathEnd{"unsupported", fmt.Sprintf(format, a...) + " at " + m.where()})
}

func (m *Machine) where() string {
	var sb strings.Builder
	n := 0
	for f := m.curFr; f != nil && n < 6; f = f.caller {
		if n > 0 {
			sb.WriteString(" < ")
		}
		sb.WriteString(f.fi.name)
		n++
	}
	return m.eng.fset.Position(m.lastPos).String() + " [" + sb.String() + "]"
}

func (m *Machine) rtPanic(format string, a ...any) {
	panic(targetPanic{Iface{m.eng.rtErr, fmt.Sprintf(format, a...)}})
}

func (m *Machine) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *Term:
		return m.p.Branch(v)
	}
	panic(fmt.Sprintf("truth of %T", v))
}

func (m *Machine) get(fr *Frame, o *opnd) Value {
	switch o.kind {
	case opReg:
		return fr.regs[o.reg]
	case opConst:
		return o.val
	case opGlobal:
		return m.globalAddr(o.g)
	}
	return nil
}

// packages whose package-level state is never written after initialisation
var sharedPkgs = map[string]bool{"unicode": true, "unicode/utf8": true, "strconv": true, "math": true, "math/bits": true, "text/scanner": true,
	"internal/strconv": true, "strings": true, "bytes": true, "net/netip": true}

func (m *Machine) globalAddr(g *ssa.Global) *Value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	e := m.eng
	if m.initMode {
		if !e.inited[g.Pkg] {
			e.initPkg(g.Pkg)
		}
		return e.snapCell(g)
	}
	e.snapMu.Lock()
	if !e.inited[g.Pkg] {
		e.initPkg(g.Pkg)
	}
	c := e.snapCell(g)
	e.snapMu.Unlock()
	var p *Value
	if sharedPkgs[g.Pkg.Pkg.Path()] {
		p = c
	} else {
		p = m.clone.ptr(c)
	}
	m.globals[g] = p
	return p
}

func (e *Engine) snapCell(g *ssa.Global) *Value {
	c, ok := e.snap[g]
	if !ok {
		c = new(Value)
		*c = zero(g.Type().(*types.Pointer).Elem())
		e.snap[g] = c
	}
	return c
}

// initPkg runs the initialiser of one package (not of its imports; those are
// initialised when first touched). Caller holds snapMu.
func (e *Engine) initPkg(p *ssa.Package) {
	e.inited[p] = true
	if noInit[p.Pkg.Path()] {
		return
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	m := &Machine{eng: e, st: NewTermStore(), globals: map[*ssa.Global]*Value{}, maxSteps: 50_000_000, initMode: true, names: map[string]int{}, hit: map[*ssa.Function]int{}, side: map[any]any{}}
	m.p = newPath(m.st, nil, nil, &Stats{})
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				initErrs.Store(p.Pkg.Path(), r.msg)
			case targetPanic:
				initErrs.Store(p.Pkg.Path(), fmt.Sprintf("panic %v", r.v))
			default:
				panic(r)
			}
			if os.Getenv("VX_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "init of", p.Pkg.Path(), "failed:", r)
			}
		}
	}()
	m.callSSA(nil, f, nil, nil)
}

var initErrs sync.Map

var noInit = map[string]bool{"runtime": true, "os": true, "syscall": true, "internal/godebug": true, "reflect": true, "internal/poll": true, "log": true}

func (m *Machine) callFn(fr *Frame, fn Value, args []Value) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		return m.callSSA(fr, f, args, nil)
	case *Closure:
		return m.callSSA(fr, f.Fn, args, f.Env)
	case *ssa.Builtin:
		return m.callBuiltin(fr, f, args, nil)
	case nilFuncT:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case func(args []Value) Value:
		return f(args)
	}
	panic(fmt.Sprintf("call of %T", fn))
}

// callBody runs the body of a function that has an intrinsic.
func (m *Machine) callBody(caller *Frame, fn *ssa.Function, args []Value) Value {
	m.bypass = fn
	return m.callSSA(caller, fn, args, nil)
}

func (m *Machine) callSSA(caller *Frame, fn *ssa.Function, args []Value, env []Value) Value {
	fi := m.eng.info(fn)
	if m.bypass == fn {
		m.bypass = nil
	} else if fi.intr != nil {
		save := m.curFr
		if r, ok := fi.intr(m, caller, fn, args); ok {
			m.curFr = save
			return r
		}
		m.curFr = save
	}
	if fi.blocks == nil {
		m.unsupported("call of external function %s", fi.name)
	}
	if fi.repo {
		m.hit[fn]++
	}
	fr := &Frame{fi: fi, regs: make([]Value, fi.nregs), caller: caller}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > 3000 {
			panic(pathEnd{"limit", "call depth at " + m.where()})
		}
	}
	copy(fr.regs, args)
	copy(fr.regs[len(fn.Params):], env)
	if len(args) != len(fn.Params) {
		panic(fmt.Sprintf("arity: %s called with %d args", fi.name, len(args)))
	}
	saved := m.curFr
	m.curFr = fr
	fr.block = fn.Blocks[0]
	if fn.Recover == nil && !hasDefer(fi) {
		m.runFrame(fr)
	} else {
		m.runProtected(fr)
	}
	m.curFr = saved
	return fr.result
}

func hasDefer(fi *fnInfo) bool {
	for _, b := range fi.blocks {
		for i := range b {
			switch b[i].in.(type) {
			case *ssa.Defer:
				return true
			}
		}
	}
	return false
}

func (m *Machine) runProtected(fr *Frame) {
	for {
		done := m.tryRun(fr)
		if done {
			return
		}
	}
}

// tryRun executes the frame; on a target panic it runs deferred calls and, if
// one of them recovered, continues in the recover block.
func (m *Machine) tryRun(fr *Frame) (done bool) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, isT := r.(targetPanic)
		if !isT {
			panic(r)
		}
		m.curFr = fr
		fr.panicking = true
		fr.panicVal = tp
		m.runDefers(fr) // panics again if not recovered
		// recovered
		if fr.fi.fn.Recover != nil {
			fr.block = fr.fi.fn.Recover
			fr.prev = -1
			done = false
			return
		}
		fr.result = zeroResult(fr.fi.fn)
		done = true
	}()
	m.runFrame(fr)
	ok = true
	return true
}

func zeroResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return zero(res.At(0).Type())
	}
	return zero(res)
}

func (m *Machine) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					if tp, isT := r.(targetPanic); isT {
						fr.panicking = true
						fr.panicVal = tp
						m.curFr = fr
						return
					}
					panic(r)
				}
			}()
			m.callFn(fr, d.fn, d.args)
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (m *Machine) runFrame(fr *Frame) {
	for {
		code := fr.fi.blocks[fr.block.Index]
		i := 0
		// phis
		if len(code) > 0 {
			if _, ok := code[0].in.(*ssa.Phi); ok {
				pi := -1
				for k, p := range fr.block.Preds {
					if p.Index == fr.prev {
						pi = k
						break
					}
				}
				var tmp [8]Value
				vals := tmp[:0]
				for i < len(code) {
					if _, ok := code[i].in.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, m.get(fr, &code[i].ops[pi]))
					i++
				}
				for k, v := range vals {
					fr.regs[code[k].dst] = v
				}
			}
		}
		m.steps += len(code)
		if m.steps > m.maxSteps {
			panic(pathEnd{"limit", "step limit at " + m.where()})
		}
		jumped := false
		for ; i < len(code); i++ {
			ins := &code[i]
			switch in := ins.in.(type) {
			case *ssa.Jump:
				fr.prev = fr.block.Index
				fr.block = fr.block.Succs[0]
				jumped = true
			case *ssa.If:
				s := 1
				if m.truth(m.get(fr, &ins.ops[0])) {
					s = 0
				}
				fr.prev = fr.block.Index
				fr.block = fr.block.Succs[s]
				jumped = true
			case *ssa.Return:
				switch len(ins.ops) {
				case 0:
				case 1:
					fr.result = m.get(fr, &ins.ops[0])
				default:
					res := make(Tuple, len(ins.ops))
					for k := range ins.ops {
						res[k] = m.get(fr, &ins.ops[k])
					}
					fr.result = res
				}
				return
			case *ssa.Panic:
				m.lastPos = in.Pos()
				panic(targetPanic{m.get(fr, &ins.ops[0])})
			default:
				m.visit(fr, ins)
			}
			if jumped {
				break
			}
		}
		if !jumped {
			panic("fell off block in " + fr.fi.name)
		}
	}
}

func (m *Machine) visit(fr *Frame, ins *instr) {
	if p := ins.in.Pos(); p != token.NoPos {
		m.lastPos = p
	}
	switch in := ins.in.(type) {
	case *ssa.BinOp:
		fr.regs[ins.dst] = m.binop(in.Op, in.X.Type(), in.Y.Type(), m.get(fr, &ins.ops[0]), m.get(fr, &ins.ops[1]))
	case *ssa.UnOp:
		fr.regs[ins.dst] = m.unop(fr, in, m.get(fr, &ins.ops[0]))
	case *ssa.Call:
		fr.regs[ins.dst] = m.doCall(fr, &in.Call, ins.ops)
	case *ssa.ChangeInterface:
		fr.regs[ins.dst] = m.get(fr, &ins.ops[0])
	case *ssa.ChangeType:
		fr.regs[ins.dst] = m.get(fr, &ins.ops[0])
	case *ssa.Convert:
		fr.regs[ins.dst] = m.conv(in.Type(), in.X.Type(), m.get(fr, &ins.ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ins.dst] = m.conv(in.Type(), in.X.Type(), m.get(fr, &ins.ops[0]))
	case *ssa.SliceToArrayPointer:
		s := m.get(fr, &ins.ops[0]).(Slice)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if int64(len(s)) < n {
			m.rtPanic("cannot convert slice with length %d to array", len(s))
		}
		v := Value(Array(s[:n:n]))
		fr.regs[ins.dst] = &v
	case *ssa.MakeInterface:
		fr.regs[ins.dst] = Iface{in.X.Type(), m.get(fr, &ins.ops[0])}
	case *ssa.Extract:
		fr.regs[ins.dst] = m.get(fr, &ins.ops[0]).(Tuple)[in.Index]
	case *ssa.Slice:
		fr.regs[ins.dst] = m.slice(fr, in, ins)
	case *ssa.Alloc:
		c := new(Value)
		*c = zero(in.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ins.dst] = c
	case *ssa.MakeSlice:
		n := int(int64(m.concInt(m.get(fr, &ins.ops[0]), in.Len.Type())))
		c := int(int64(m.concInt(m.get(fr, &ins.ops[1]), in.Cap.Type())))
		if n < 0 || n > 1<<24 {
			m.rtPanic("makeslice: len out of range")
		}
		if c < n || c > 1<<24 {
			m.rtPanic("makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		s := make(Slice, c)
		for i := range s {
			s[i] = zero(et)
		}
		fr.regs[ins.dst] = s[:n]
	case *ssa.MakeMap:
		fr.regs[ins.dst] = newMap(in.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeChan:
		fr.regs[ins.dst] = &Chan{cap: int(int64(m.concInt(m.get(fr, &ins.ops[0]), in.Size.Type())))}
	case *ssa.MakeClosure:
		env := make([]Value, len(ins.ops)-1)
		for k := range env {
			env[k] = m.get(fr, &ins.ops[k+1])
		}
		fr.regs[ins.dst] = &Closure{in.Fn.(*ssa.Function), env}
	case *ssa.FieldAddr:
		p := m.deref(m.get(fr, &ins.ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			m.unsupported("field of %T", *p)
		}
		fr.regs[ins.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := m.get(fr, &ins.ops[0]).(Struct)
		if !ok {
			m.unsupported("field of %T", m.get(fr, &ins.ops[0]))
		}
		fr.regs[ins.dst] = s[in.Field]
	case *ssa.IndexAddr:
		fr.regs[ins.dst] = m.indexAddr(m.get(fr, &ins.ops[0]), m.get(fr, &ins.ops[1]), in.Index.Type())
	case *ssa.Index:
		fr.regs[ins.dst] = m.adaptTab(m.index(m.get(fr, &ins.ops[0]), m.get(fr, &ins.ops[1]), in.Index.Type()), in.Type())
	case *ssa.Lookup:
		x := m.get(fr, &ins.ops[0])
		if mp, ok := x.(*Map); ok {
			var v Value
			e := m.mapFind(mp, m.get(fr, &ins.ops[1]))
			if e != nil {
				v = e.val
			} else {
				v = zero(in.X.Type().Underlying().(*types.Map).Elem())
			}
			if in.CommaOk {
				fr.regs[ins.dst] = Tuple{v, e != nil}
			} else {
				fr.regs[ins.dst] = v
			}
		} else {
			fr.regs[ins.dst] = m.adaptTab(m.index(x, m.get(fr, &ins.ops[1]), in.Index.Type()), in.Type())
		}
	case *ssa.MapUpdate:
		mp := m.get(fr, &ins.ops[0]).(*Map)
		if mp == nil {
			panic(targetPanic{Iface{m.eng.rtErr, "assignment to entry in nil map"}})
		}
		m.mapSet(mp, m.get(fr, &ins.ops[1]), m.get(fr, &ins.ops[2]))
	case *ssa.Range:
		x := m.get(fr, &ins.ops[0])
		if mp, ok := x.(*Map); ok {
			it := &MapIter{m: mp}
			if mp != nil {
				it.ents = m.orderEntries(fr, mp)
			}
			fr.regs[ins.dst] = it
		} else {
			fr.regs[ins.dst] = &StrIter{s: x}
		}
	case *ssa.Next:
		switch it := m.get(fr, &ins.ops[0]).(type) {
		case *MapIter:
			for it.pos < len(it.ents) && it.ents[it.pos].dead {
				it.pos++
			}
			if it.pos >= len(it.ents) {
				fr.regs[ins.dst] = Tuple{false, nil, nil}
			} else {
				e := it.ents[it.pos]
				it.pos++
				fr.regs[ins.dst] = Tuple{true, e.key, e.val}
			}
		case *StrIter:
			if it.pos >= strLen(it.s) {
				fr.regs[ins.dst] = Tuple{false, uint64(0), uint64(0)}
			} else {
				r, n := m.decodeRune(it.s, it.pos)
				fr.regs[ins.dst] = Tuple{true, uint64(it.pos), r}
				it.pos += n
			}
		default:
			panic("next")
		}
	case *ssa.Store:
		m.store(m.get(fr, &ins.ops[0]), m.get(fr, &ins.ops[1]))
	case *ssa.TypeAssert:
		fr.regs[ins.dst] = m.typeAssert(in, m.get(fr, &ins.ops[0]))
	case *ssa.Defer:
		fn, args := m.prepCall(fr, &in.Call, ins.ops[:len(ins.ops)-1]) // the last operand is the defer stack
		fr.defers = append(fr.defers, deferred{fn, args})
	case *ssa.RunDefers:
		m.runDefers(fr)
	case *ssa.Go:
		fn, args := m.prepCall(fr, &in.Call, ins.ops)
		m.spawn(fr, fn, args)
	case *ssa.Send:
		m.chanSend(m.get(fr, &ins.ops[0]).(*Chan), m.get(fr, &ins.ops[1]))
	case *ssa.Select:
		fr.regs[ins.dst] = m.doSelect(fr, in, ins)
	default:
		m.unsupported("instruction %T", in)
	}
}

func (m *Machine) deref(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		m.unsupported("deref of %T", v)
	}
	if p == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	return p
}

func (m *Machine) store(addr, v Value) {
	if se, ok := addr.(*SymElem); ok {
		i := m.p.Concretize(se.idx, 300)
		storeTo(&se.elems[i], v)
		return
	}
	p := m.deref(addr)
	storeTo(p, v)
}

func (m *Machine) concInt(v Value, t types.Type) uint64 {
	switch v := v.(type) {
	case uint64:
		return v
	case *Term:
		x := m.p.Concretize(v, 300)
		w, s, _ := typeIntWidth(t)
		return normInt(x, w, s)
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (m *Machine) elemsOf(x Value) []Value {
	switch x := x.(type) {
	case Slice:
		return x
	case Array:
		return x
	case *Value:
		p := m.deref(x)
		a, ok := (*p).(Array)
		if !ok {
			m.unsupported("index through pointer to %T", *p)
		}
		return a
	}
	m.unsupported("index of %T", x)
	return nil
}

func (m *Machine) boundCheck(idx *Term, n int) bool {
	// index < n as unsigned (negative values become huge)
	w := idx.w
	if w < 64 && n >= 1<<uint(w) {
		return true
	}
	return m.p.Branch(m.st.Cmp(OUlt, idx, m.st.BV(uint64(n), w)))
}

func (m *Machine) indexAddr(x, i Value, it types.Type) Value {
	es := m.elemsOf(x)
	switch i := i.(type) {
	case uint64:
		if i >= uint64(len(es)) {
			m.rtPanic("index out of range [%d] with length %d", int64(i), len(es))
		}
		return &es[i]
	case *Term:
		if !m.boundCheck(i, len(es)) {
			m.rtPanic("index out of range with length %d", len(es))
		}
		return &SymElem{es, i}
	}
	panic("indexAddr")
}

func (m *Machine) index(x, i Value, it types.Type) Value {
	switch x.(type) {
	case string, *SymStr:
		n := strLen(x)
		switch i := i.(type) {
		case uint64:
			if i >= uint64(n) {
				m.rtPanic("index out of range [%d] with length %d", int64(i), n)
			}
			return strAt(x, int(i))
		case *Term:
			if !m.boundCheck(i, n) {
				m.rtPanic("index out of range with length %d", n)
			}
			return m.selectElem(strBytes(x), i)
		}
	}
	es := m.elemsOf(x)
	switch i := i.(type) {
	case uint64:
		if i >= uint64(len(es)) {
			m.rtPanic("index out of range [%d] with length %d", int64(i), len(es))
		}
		return es[i]
	case *Term:
		if !m.boundCheck(i, len(es)) {
			m.rtPanic("index out of range with length %d", len(es))
		}
		return m.selectElem(es, i)
	}
	panic("index")
}

// selectElem reads a table at a symbolic in-range index.
func (m *Machine) selectElem(es []Value, idx *Term) Value {
	if idx.w < 64 && len(es) > 1<<uint(idx.w) {
		es = es[:1<<uint(idx.w)]
	}
	if len(es) == 1 {
		return es[0]
	}
	// all integer elements: run-length ite chain
	w := 0
	kind := 0
	for _, e := range es {
		switch e := e.(type) {
		case uint64:
			if kind == 0 {
				kind = 1
			} else if kind != 1 && kind != 3 {
				kind = -1
			}
		case bool:
			if kind == 0 || kind == 2 {
				kind = 2
			} else {
				kind = -1
			}
		case *Term:
			if e.w > 0 {
				w = e.w
				kind = 3
			} else {
				kind = -1
			}
		default:
			kind = -1
		}
		if kind == -1 {
			break
		}
	}
	st := m.st
	if kind == -1 {
		// a table of slices: all nil entries are one case
		none := st.Bool(false)
		n := 0
		for i := 0; i < len(es); i++ {
			if x, ok := es[i].(Slice); !ok || x != nil {
				continue
			}
			j := i
			for j+1 < len(es) {
				if x, ok := es[j+1].(Slice); !ok || x != nil {
					break
				}
				j++
			}
			n += j - i + 1
			in := st.And(st.Cmp(OUle, st.BV(uint64(i), idx.w), idx), st.Cmp(OUle, idx, st.BV(uint64(j), idx.w)))
			none = st.Or(none, in)
			i = j
		}
		if n > 1 && m.p.Branch(none) {
			return Slice(nil)
		}
		i := m.p.Concretize(idx, 300)
		return es[i]
	}
	if w == 0 {
		w = 64
		// width is recovered by the caller through normalisation; find the smallest safe width
		max := uint64(0)
		for _, e := range es {
			if x, ok := e.(uint64); ok && x > max {
				max = x
			}
		}
		if max < 256 {
			w = 8
		}
	}
	lift := func(v Value) *Term {
		switch v := v.(type) {
		case bool:
			return st.Bool(v)
		case uint64:
			return st.BV(v, w)
		case *Term:
			return v
		}
		panic("lift")
	}
	res := lift(es[len(es)-1])
	for i := len(es) - 2; i >= 0; i-- {
		e := lift(es[i])
		if i+1 < len(es) && e == lift(es[i+1]) {
			continue
		}
		// elements 0..i: idx <= i -> chain built from the back
		res = st.Ite(st.Cmp(OUle, idx, st.BV(uint64(i), idx.w)), e, res)
	}
	return symTab{res}
}

// symTab marks a table read whose width must be adapted to the element type.
type symTab struct{ t *Term }

func (m *Machine) adaptTab(v Value, t types.Type) Value {
	st, ok := v.(symTab)
	if !ok {
		return v
	}
	if st.t.isConst() {
		if st.t.w == SBool {
			return st.t.val == 1
		}
		w, s, _ := typeIntWidth(t)
		return normInt(st.t.val, w, s)
	}
	if st.t.w == SBool {
		return st.t
	}
	w, _, ok := typeIntWidth(t)
	if !ok {
		m.unsupported("table of %v", t)
	}
	if st.t.w == w {
		return st.t
	}
	if st.t.w < w {
		return m.st.Zext(st.t, w)
	}
	return m.st.Trunc(st.t, w)
}

func (m *Machine) load(addr Value, t types.Type) Value {
	if se, ok := addr.(*SymElem); ok {
		return m.adaptTab(m.selectElem(se.elems, se.idx), t)
	}
	p := m.deref(addr)
	v := *p
	switch x := v.(type) {
	case Struct, Array:
		return copyVal(v)
	case Slice:
		// *(*string)(unsafe.Pointer(&b))
		if b := basicOf(t); b != nil && b.Info()&types.IsString != 0 {
			return mkStr(x)
		}
	case string, *SymStr:
		if _, ok := t.Underlying().(*types.Slice); ok {
			return Slice(strBytes(v))
		}
	}
	return v
}

func (m *Machine) orderEntries(fr *Frame, mp *Map) []*MapEntry {
	ents := append([]*MapEntry(nil), mp.ents...)
	if m.mapOrder == 0 || !fr.fi.repo || len(ents) < 2 {
		return ents
	}
	n := len(ents)
	if m.mapOrder != 2 || n > 4 {
		// insertion order or its reverse, for each map or (mode 3) for all of them
		var rev int
		switch {
		case m.mapOrder != 3:
			rev = m.choice("maporder", 2)
		case m.mapRev == 0:
			rev = m.choice("maporder", 2)
			m.mapRev = 1 + rev
		default:
			rev = m.mapRev - 1
		}
		if rev == 1 {
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				ents[i], ents[j] = ents[j], ents[i]
			}
		}
		return ents
	}
	out := make([]*MapEntry, 0, n)
	for len(ents) > 1 {
		k := m.choice("maporder", len(ents))
		out = append(out, ents[k])
		ents = append(append([]*MapEntry(nil), ents[:k]...), ents[k+1:]...)
	}
	return append(out, ents[0])
}

func (m *Machine) uniq(name string) string {
	n := m.names[name]
	m.names[name] = n + 1
	if n == 0 {
		return name
	}
	return fmt.Sprintf("%s#%d", name, n)
}

// choice introduces a symbolic selector below n and forks over it.
func (m *Machine) choice(name string, n int) int {
	if n <= 1 {
		return 0
	}
	nm := m.uniq(name)
	if n > 256 {
		m.unsupported("choice over %d", n)
	}
	allowed := make([]uint64, n)
	for i := range allowed {
		allowed[i] = uint64(i)
	}
	t := m.p.newVar(nm, 8, allowed)
	return int(m.p.Concretize(t, 256))
}

func (m *Machine) prepCall(fr *Frame, c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	if c.IsInvoke() {
		recv, ok := m.get(fr, &ops[0]).(Iface)
		if !ok {
			m.unsupported("invoke on %T", m.get(fr, &ops[0]))
		}
		if recv.T == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := m.eng.method(recv.T, c.Method)
		if fn == nil {
			m.unsupported("method %v on %v", c.Method.Name(), recv.T)
		}
		args := make([]Value, 0, len(ops))
		args = append(args, recv.V)
		for k := 1; k < len(ops); k++ {
			args = append(args, m.get(fr, &ops[k]))
		}
		return fn, args
	}
	fn := m.get(fr, &ops[0])
	args := make([]Value, 0, len(ops)-1)
	for k := 1; k < len(ops); k++ {
		args = append(args, m.get(fr, &ops[k]))
	}
	return fn, args
}

func (m *Machine) doCall(fr *Frame, c *ssa.CallCommon, ops []opnd) Value {
	fn, args := m.prepCall(fr, c, ops)
	if m.initMode && fr.fi.fn.Name() == "init" && fr.fi.fn.Synthetic != "" {
		if f, ok := fn.(*ssa.Function); ok && f.Name() == "init" && f.Pkg != fr.fi.fn.Pkg && f.Synthetic != "" {
			return nil // imports are initialised on demand
		}
	}
	if b, ok := fn.(*ssa.Builtin); ok {
		return m.callBuiltin(fr, b, args, c)
	}
	return m.callFn(fr, fn, args)
}

func (e *Engine) method(t types.Type, f *types.Func) *ssa.Function {
	return e.methodByName(t, f.Pkg(), f.Name(), f.Id())
}

func (e *Engine) methodByName(t types.Type, pkg *types.Package, name, id string) *ssa.Function {
	k := methKey{e.typeKey(t), id}
	e.methMu.Lock()
	defer e.methMu.Unlock()
	if fn, ok := e.meth[k]; ok {
		return fn
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	var fn *ssa.Function
	if sel != nil {
		fn = e.prog.MethodValue(sel)
	}
	e.meth[k] = fn
	return fn
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, x Value) Value {
	itf, ok := x.(Iface)
	if !ok {
		m.unsupported("type assertion on %T", x)
	}
	var v Value
	errMsg := ""
	if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
		v = itf
		if itf.T == nil {
			errMsg = fmt.Sprintf("interface conversion: interface is nil, not %s", in.AssertedType)
		} else if !types.Implements(itf.T, it) {
			errMsg = fmt.Sprintf("interface conversion: %v is not %v: missing method", itf.T, in.AssertedType)
		}
	} else if itf.T != nil && identical(itf.T, in.AssertedType) {
		v = itf.V
	} else {
		errMsg = fmt.Sprintf("interface conversion: interface is %v, not %s", itf.T, in.AssertedType)
	}
	if errMsg != "" {
		if !in.CommaOk {
			panic(targetPanic{Iface{m.eng.rtErr, errMsg}})
		}
		return Tuple{zero(in.AssertedType), false}
	}
	if in.CommaOk {
		return Tuple{v, true}
	}
	return v
}

func (m *Machine) slice(fr *Frame, in *ssa.Slice, ins *instr) Value {
	x := m.get(fr, &ins.ops[0])
	opt := func(i int, t ssa.Value, def int) int {
		if ins.ops[i].kind == opNone {
			return def
		}
		return int(int64(m.concInt(m.get(fr, &ins.ops[i]), t.Type())))
	}
	switch x := x.(type) {
	case string, *SymStr:
		n := strLen(x)
		lo := opt(1, in.Low, 0)
		hi := opt(2, in.High, n)
		if hi < 0 || hi > n {
			m.rtPanic("slice bounds out of range [:%d] with length %d", hi, n)
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		return strSlice(x, lo, hi)
	case Slice:
		c := cap(x)
		lo := opt(1, in.Low, 0)
		hi := opt(2, in.High, len(x))
		mx := opt(3, in.Max, c)
		if mx < 0 || mx > c {
			m.rtPanic("slice bounds out of range [::%d] with capacity %d", mx, c)
		}
		if hi < 0 || hi > mx {
			m.rtPanic("slice bounds out of range [:%d] with capacity %d", hi, c)
		}
		if lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range [%d:%d]", lo, hi)
		}
		if x == nil {
			return x
		}
		return x[lo:hi:mx]
	case *Value:
		a := m.elemsOf(x)
		lo := opt(1, in.Low, 0)
		hi := opt(2, in.High, len(a))
		mx := opt(3, in.Max, len(a))
		if mx < 0 || mx > len(a) || hi < 0 || hi > mx || lo < 0 || lo > hi {
			m.rtPanic("slice bounds out of range")
		}
		return Slice(a[lo:hi:mx])
	}
	m.unsupported("slice of %T", x)
	return nil
}

// decodeRune decodes the rune at position i.
func (m *Machine) decodeRune(s Value, i int) (Value, int) {
	b := strAt(s, i)
	st := m.st
	if t, ok := b.(*Term); ok {
		if m.p.Branch(st.Cmp(OUlt, t, st.BV(0x80, 8))) {
			return st.Zext(t, 32), 1
		}
		b = m.p.Concretize(t, 300)
	}
	c := b.(uint64)
	if c < 0x80 {
		return c, 1
	}
	// concretise the following bytes as needed
	buf := []byte{byte(c)}
	n := strLen(s)
	for k := 1; k < 4 && i+k < n; k++ {
		x := strAt(s, i+k)
		if t, ok := x.(*Term); ok {
			// only continuation bytes matter
			cont := m.p.Branch(st.And(st.Cmp(OUle, st.BV(0x80, 8), t), st.Cmp(OUle, t, st.BV(0xbf, 8))))
			if !cont {
				break
			}
			x = m.p.Concretize(t, 300)
		}
		buf = append(buf, byte(x.(uint64)))
	}
	r, sz := decodeRuneBytes(buf)
	return normInt(uint64(r), 32, true), sz
}

func (m *Machine) lift(v Value, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case bool:
		return m.st.Bool(v)
	case uint64:
		w, _, ok := typeIntWidth(t)
		if !ok {
			m.unsupported("lift int %v of type %v", v, t)
		}
		return m.st.BV(v, w)
	case float64:
		return m.st.F64(v)
	}
	panic(fmt.Sprintf("lift %T", v))
}

// lower turns constant terms back into concrete values.
func (m *Machine) lower(t *Term, ty types.Type) Value {
	if !t.isConst() {
		return t
	}
	switch {
	case t.w == SBool:
		return t.val == 1
	case t.w == SF64:
		return math.Float64frombits(t.val)
	}
	w, s, ok := typeIntWidth(ty)
	if !ok {
		return t.val
	}
	return normInt(t.val, w, s)
}

func lowerBool(t *Term) Value {
	if t.isConst() {
		return t.val == 1
	}
	return t
}

func (m *Machine) unop(fr *Frame, in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.MUL:
		return m.load(x, in.Type())
	case token.NOT:
		switch x := x.(type) {
		case bool:
			return !x
		case *Term:
			return lowerBool(m.st.Not(x))
		}
	case token.SUB:
		switch x := x.(type) {
		case uint64:
			w, s, _ := typeIntWidth(in.Type())
			return normInt(-x, w, s)
		case float64:
			return -x
		case complex128:
			return -x
		case *Term:
			if x.w == SF64 {
				return m.st.FNeg(x)
			}
			return m.lower(m.st.Bin(OSub, m.st.BV(0, x.w), x), in.Type())
		}
	case token.XOR:
		switch x := x.(type) {
		case uint64:
			w, s, _ := typeIntWidth(in.Type())
			return normInt(^x, w, s)
		case *Term:
			return m.lower(m.st.Bin(OBXor, x, m.st.BV(^uint64(0), x.w)), in.Type())
		}
	case token.ARROW:
		return m.chanRecv(x.(*Chan), in)
	}
	m.unsupported("unop %v on %T", in.Op, x)
	return nil
}
