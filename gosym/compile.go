package main

// Per-worker compiled form of SSA functions: operands resolved to register slots or constant values.

import (
	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	slot int32 // >=0 register; -1 constant; -2 global
	val  Value
	g    *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	dst int32
	ops []opnd
}

type cphi struct {
	dst   int32
	edges []opnd
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []cphi
	ins   []cinstr
	regs  []*region // if-conversion candidates of the If ending this block, preferred first
	regOK bool
}

type cfunc struct {
	fn     *ssa.Function
	blocks []*cblock
	nslots int
	free   int // slot of first free variable
}

func (in *Interp) compiled(fn *ssa.Function) *cfunc {
	if c, ok := in.w.funcs[fn]; ok {
		return c
	}
	slot := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		slot[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	c := &cfunc{fn: fn, free: int(n)}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nslots = int(n)
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{slot: -1}
		case *ssa.Const:
			return opnd{slot: -1, val: in.constVal(x)}
		case *ssa.Global:
			return opnd{slot: -2, g: x}
		case *ssa.Function:
			return opnd{slot: -1, val: &Closure{fn: x}}
		case *ssa.Builtin:
			return opnd{slot: -1, val: x}
		}
		s, ok := slot[v]
		if !ok {
			panic(engineErr("no slot for " + v.String()))
		}
		return opnd{slot: s}
	}
	for _, b := range fn.Blocks {
		cb := &cblock{b: b}
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.DebugRef); ok {
				continue
			}
			if p, ok := i.(*ssa.Phi); ok {
				cp := cphi{dst: slot[p]}
				for _, e := range p.Edges {
					cp.edges = append(cp.edges, op(e))
				}
				cb.phis = append(cb.phis, cp)
				continue
			}
			ci := cinstr{in: i, dst: -1}
			if v, ok := i.(ssa.Value); ok {
				ci.dst = slot[v]
			}
			for _, o := range i.Operands(nil) {
				if *o == nil {
					ci.ops = append(ci.ops, opnd{slot: -1})
				} else {
					ci.ops = append(ci.ops, op(*o))
				}
			}
			cb.ins = append(cb.ins, ci)
		}
		c.blocks = append(c.blocks, cb)
	}
	in.w.funcs[fn] = c
	in.w.noteFunc(fn)
	return c
}

// ---- if-conversion regions

// region lists blocks (in topological order) that may be executed under guards after the If of a block,
// and its one or two exits.
type region struct {
	blocks []*ssa.BasicBlock
	exits  []*ssa.BasicBlock
}

func pureInstr(i ssa.Instruction) bool {
	switch x := i.(type) {
	case *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.Phi, *ssa.Field, *ssa.FieldAddr, *ssa.IndexAddr,
		*ssa.Extract, *ssa.DebugRef, *ssa.If, *ssa.Jump, *ssa.Index:
		return true
	case *ssa.UnOp:
		return x.Op.String() != "<-"
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			return b.Name() == "len" || b.Name() == "cap"
		}
	}
	return false
}

func pureBlock(b *ssa.BasicBlock) bool {
	if len(b.Instrs) > 40 {
		return false
	}
	for _, i := range b.Instrs {
		if !pureInstr(i) {
			return false
		}
	}
	return true
}

func (cb *cblock) getRegions() []*region {
	if cb.regOK {
		return cb.regs
	}
	cb.regOK = true
	b := cb.b
	in := map[*ssa.BasicBlock]bool{b: true}
	var blocks []*ssa.BasicBlock
	exits := func() []*ssa.BasicBlock {
		var out []*ssa.BasicBlock
		seen := map[*ssa.BasicBlock]bool{}
		for _, x := range append([]*ssa.BasicBlock{b}, blocks...) {
			for _, s := range x.Succs {
				if (!in[s] || s == b) && !seen[s] {
					seen[s] = true
					out = append(out, s)
				}
			}
		}
		return out
	}
	var best2 *region
	for len(blocks) < 24 {
		ex := exits()
		if len(ex) == 1 {
			cb.regs = append(cb.regs, &region{append([]*ssa.BasicBlock(nil), blocks...), ex})
			break
		}
		if len(ex) == 2 && len(blocks) > 0 {
			best2 = &region{append([]*ssa.BasicBlock(nil), blocks...), ex}
		}
		var pick *ssa.BasicBlock
	search:
		for _, e := range ex {
			if e == b || !pureBlock(e) {
				continue
			}
			if e.Dominates(b) {
				continue
			}
			for _, p := range e.Preds {
				if !in[p] {
					continue search
				}
			}
			pick = e
			break
		}
		if pick == nil {
			break
		}
		in[pick] = true
		blocks = append(blocks, pick)
	}
	// two exits are useful only if something joins: some exit has two incoming region edges
	if best2 != nil {
		useful := false
		reg := map[*ssa.BasicBlock]bool{b: true}
		for _, x := range best2.blocks {
			reg[x] = true
		}
		for _, e := range best2.exits {
			n := 0
			for _, p := range e.Preds {
				if reg[p] {
					n++
				}
			}
			if n > 1 {
				useful = true
			}
		}
		if useful {
			cb.regs = append(cb.regs, best2)
		}
	}
	return cb.regs
}
