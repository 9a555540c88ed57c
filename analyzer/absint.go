package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"graphverif/interp"
)

// host tells the abstract interpreter about the program.
type host struct {
	p       *Program
	formats map[*types.Named]bool
	sparse  map[*types.Named]bool
	aliases map[*ssa.Function]string
	dims    map[*types.Named]map[string]string
	layouts map[*types.Named]*layout
}

func newHost(r *Report, p *Program) *host {
	h := &host{p: p, formats: map[*types.Named]bool{}, sparse: map[*types.Named]bool{}}
	for _, t := range p.matrixTypes(r) {
		h.formats[t] = true
	}
	for _, name := range []string{"CSRMatrix", "CSCMatrix", "SparseVector"} {
		if t := p.named("", name); t != nil {
			h.sparse[t] = true
		}
	}
	return h
}

func (h *host) Body(fn *ssa.Function) *ssa.Function { return body(fn) }
func (h *host) NoReturn(fn *ssa.Function) bool      { return h.p.noReturn(fn) }
func (h *host) Method(n *types.Named, name string) (*ssa.Function, []int) {
	return h.p.method(n, name)
}
func (h *host) Pos(i ssa.Instruction) string  { return h.p.instrPos(i) }
func (h *host) InScope(fn *ssa.Function) bool { return h.p.inScope(fn) }
func (h *host) IsFormat(n *types.Named) bool  { return h.formats[n] }
func (h *host) Sparse(n *types.Named) bool    { return h.sparse[n] }

// Alias is the exported method of the format that does nothing but call the function on its receiver,
// with its own arguments, and return what that returns.
func (h *host) Alias(n *types.Named, fn *ssa.Function) string {
	if h.aliases == nil {
		h.aliases = map[*ssa.Function]string{}
		for _, f := range h.sortedFormats() {
			ms := types.NewMethodSet(types.NewPointer(f))
			for i := 0; i < ms.Len(); i++ {
				m := body(h.p.SSA.FuncValue(ms.At(i).Obj().(*types.Func).Origin()))
				if m == nil || len(m.Blocks) != 1 {
					continue
				}
				var call *ssa.Call
				ok := true
				for _, x := range m.Blocks[0].Instrs {
					switch x := x.(type) {
					case *ssa.Call:
						if call != nil || x.Call.StaticCallee() == nil || len(x.Call.Args) != len(m.Params) {
							ok = false
							break
						}
						call = x
						for j, a := range x.Call.Args {
							ok = ok && a == ssa.Value(m.Params[j])
						}
					case *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Extract, *ssa.Return, *ssa.DebugRef:
					default:
						ok = false
					}
				}
				if ok && call != nil {
					g := body(call.Call.StaticCallee())
					if h.aliases[g] == "" || m.Name() < h.aliases[g] {
						h.aliases[g] = m.Name()
					}
				}
			}
		}
	}
	return h.aliases[body(fn)]
}

// GlobalInit evaluates the initialisation of a package variable nothing else writes.
func (h *host) GlobalInit(in *interp.Interp, st *interp.State, g *ssa.Global) (interp.Val, bool) {
	if g.Pkg == nil || !strings.HasPrefix(g.Pkg.Pkg.Path(), h.p.Module) {
		return nil, false
	}
	v, _, _ := globalValue(h.p, g)
	if v == nil {
		return nil, false
	}
	if a, ok := v.(*ssa.Alloc); ok && a.Heap {
		return interp.Opaque{Name: "global " + g.String()}, true // the one address it holds
	}
	// evaluated in a state of its own when it needs no memory
	w, s := evalInit(in, st, v)
	return w, w != nil && s == st
}

var _ interp.Host = (*host)(nil)
