package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// matrixTypes are the storage formats: every named type of the root package with the methods of MatrixLogical.
func (p *Program) matrixTypes(r *Report) []*types.Named {
	ml := p.named("", "MatrixLogical")
	if ml == nil {
		r.Undecided("anchor", "interface MatrixLogical", "", "not found")
		return nil
	}
	ts := p.implementers(ml.Underlying().(*types.Interface))
	names := map[string]bool{}
	for _, t := range ts {
		names[t.Obj().Name()] = true
	}
	for _, want := range []string{"CSRMatrix", "CSCMatrix", "SparseVector", "DenseMatrix", "DenseMatrixNumber", "DenseVector", "DenseVectorNumber"} {
		if !names[want] {
			r.Undecided("anchor", "storage format "+want, "", "no type of that name implements MatrixLogical")
		}
	}
	return ts
}

// entry is one API entry analysed under one aliasing of its arguments.
type entry struct {
	name   string
	fn     *ssa.Function
	recv   *types.Named // for methods
	path   []int
	out    int            // index of the output argument among fn.Params, or -1
	alias  map[int]int    // argument index -> index of the argument it is identical to
	config string         // description of the aliasing
	chain  []string       // methods called on the result afterwards
	script func(*pta)     // replaces the plain call
	skip   map[int]bool   // arguments that are not matrices, arrays or masks
	rnames map[int]string // root names by parameter index
}

func isMatrixish(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Name() {
	case "UnaryOp", "BinaryOp", "MonoID", "Context":
		return false
	}
	_, isI := n.Underlying().(*types.Interface)
	return isI || structOf(n) != nil
}

// run analyses the entry. It returns the engine, the value returned and the argument values.
func (en *entry) run(p *Program, reads bool) (*pta, val, []val) {
	e := newPTA(p)
	e.wantRead = reads
	args := make([]val, len(en.fn.Params))
	en.rnames = map[int]string{}
	for i, prm := range en.fn.Params {
		if a, ok := en.alias[i]; ok {
			args[i] = args[a]
			en.rnames[i] = en.rnames[a]
			continue
		}
		name := prm.Name()
		if name == "" || name == "_" {
			name = fmt.Sprintf("arg%d", i)
		}
		en.rnames[i] = name
		if i == 0 && en.recv != nil {
			o := e.newObj(kRoot, en.recv, name+":"+en.recv.Obj().Name())
			o.root, o.group = name, name
			e.roots[name] = append(e.roots[name], o)
			v := target{o: o}
			for _, ix := range en.path {
				v.path += fmt.Sprintf(".%d", ix)
			}
			args[i] = single(v)
			continue
		}
		args[i] = e.rootVal(name, name, prm.Type(), 0)
	}
	var ret val
	if en.script != nil {
		e.solve(func() { en.script(e) })
		return e, ret, args
	}
	e.solve(func() {
		ret = e.top("entry", en.fn, args)
		cur := ret
		for _, m := range en.chain {
			next := val{}
			for el := range cur {
				typ := e.typeAt(el.t.o, el.t.path)
				if typ == nil {
					continue
				}
				if n := namedOf(typ); n != nil {
					next.add(e.invokeOn(nil, nil, el.t, n, m, nil))
				}
			}
		}
	})
	return e, ret, args
}

// methodEntries makes the entries for the methods called names of every storage format.
func methodEntries(p *Program, r *Report, ts []*types.Named, names []string) []*entry {
	var out []*entry
	for _, t := range ts {
		for _, m := range names {
			fn, path := p.method(t, m)
			if fn == nil {
				continue
			}
			out = append(out, &entry{name: t.Obj().Name() + "." + m, fn: fn, recv: t, path: path, out: -1})
		}
	}
	return out
}

type opSpec struct {
	pkg, name string
	out       int // output parameter, -1 for none
	inplace   bool
}

// operations is the table of the API's operations: which parameter is the output, and whether the output may be an operand.
var operations = []opSpec{
	{"", "MatrixMatrixMultiply", 4, false}, {"", "VectorMatrixMultiply", 4, false}, {"", "MatrixVectorMultiply", 4, false},
	{"", "ElementWiseMatrixMultiply", 4, true}, {"", "ElementWiseVectorMultiply", 4, true},
	{"", "Add", 4, true}, {"", "ElementWiseMatrixAdd", 4, true}, {"", "ElementWiseVectorAdd", 4, true}, {"", "Subtract", 4, true},
	{"", "Apply", 4, true}, {"", "Negative", 3, true}, {"", "Transpose", 3, false},
	{"", "TransposeToCSR", -1, false}, {"", "TransposeToCSC", -1, false},
	{"", "Compare", -1, false}, {"", "Less", -1, false}, {"", "Greater", -1, false}, {"", "String", -1, false},
	{"", "Equal", -1, false}, {"", "NotEqual", -1, false}, {"", "Scalar", -1, false},
	{"", "ReduceMatrixToVector", -1, false}, {"", "ReduceMatrixToVectorWithMonoID", -1, false},
	{"", "ReduceVectorToScalar", -1, false}, {"", "ReduceVectorToScalarWithMonoID", -1, false},
	{"", "ReduceMatrixToScalar", -1, false}, {"", "ReduceMatrixToScalarWithMonoID", -1, false},
	{"sort", "BubbleRow", -1, false}, {"sort", "BubbleColumns", -1, false},
	{"breadthfirst", "Search", -1, false}, {"math/reduced", "Reduced", -1, false},
	{"math/strassen", "Multiply", -1, false}, {"math/strassen", "MultiplyCrossoverPoint", -1, false},
	{"math/symmetric", "Symmetric", -1, false}, {"math/skewsymmetric", "SkewSymmetric", -1, false},
}

func opEntries(p *Program, r *Report) []*entry {
	var out []*entry
	for _, op := range operations {
		fn := p.fn(op.pkg, op.name)
		if fn == nil {
			r.Undecided("anchor", "function "+op.name, "", "not found in package %q", op.pkg)
			continue
		}
		name := op.name
		if op.pkg != "" {
			name = op.pkg + "." + name
		}
		// operands: matrix-like parameters other than the mask and the output
		var operands []int
		for i, prm := range fn.Params {
			n := namedOf(prm.Type())
			if n != nil && isMatrixish(prm.Type()) && n.Obj().Name() != "Mask" && i != op.out {
				operands = append(operands, i)
			}
		}
		if op.out >= len(fn.Params) {
			r.Undecided("anchor", "output of "+op.name, "", "parameter %d expected to be the output", op.out)
			continue
		}
		out = append(out, &entry{name: name, fn: fn, out: op.out, config: "operands and output distinct"})
		if op.inplace {
			for _, o := range operands {
				out = append(out, &entry{name: name, fn: fn, out: op.out, alias: map[int]int{op.out: o}, config: "output is operand " + fn.Params[o].Name()})
			}
		}
		if len(operands) == 2 {
			out = append(out, &entry{name: name, fn: fn, out: op.out, alias: map[int]int{operands[1]: operands[0]}, config: "both operands the same"})
		}
	}
	return out
}

// forbiddenEffects checks that the run wrote to no argument other than the output and to no package variable.
func forbiddenEffects(r *Report, rule string, en *entry, e *pta, allowed map[string]bool) {
	constr := en.name
	if en.config != "" {
		constr += " [" + en.config + "]"
	}
	type hit struct{ pos, text string }
	var hits []hit
	for _, ef := range e.effects {
		o := ef.t.o
		where := ""
		switch o.kind {
		case kRoot:
			if allowed[o.root] {
				continue
			}
			where = "argument " + o.label + ef.t.path
		case kGlobal:
			where = "package variable " + o.label
		default:
			continue
		}
		hits = append(hits, hit{r.Prog.instrPos(ef.instr), fmt.Sprintf("%s to %s, by %s", ef.what, where, e.path(ef.f))})
	}
	sort.Slice(hits, func(i, j int) bool {
		if len(hits[i].text) != len(hits[j].text) {
			return len(hits[i].text) < len(hits[j].text)
		}
		return hits[i].pos+hits[i].text < hits[j].pos+hits[j].text
	})
	pos := r.Prog.pos(en.fn.Pos())
	for k, v := range e.problems {
		r.Undecided(rule, constr, pos, "%s: %s", k, v)
		return
	}
	if len(hits) > 0 {
		r.Bad(rule, constr, hits[0].pos, "%s (%d writes in all)", hits[0].text, len(hits))
		return
	}
	r.OK(rule, constr, pos, "%d call paths, %d writes, none to what must not change", e.nframes, len(e.effects))
}

var readMethods = []string{"At", "AtVec", "Element", "Rows", "Columns", "Length", "Size", "Values", "RowsAt", "ColumnsAt", "RowsAtToArray", "Copy", "CopyLogical", "Equal", "NotEqual", "RawMatrix"}
var arithMethods = []string{"Scalar", "Multiply", "Add", "Subtract", "Negative", "Transpose"}

func init() {
	register(&Check{ID: "C01", Level: "proof", MinObs: 100,
		Rules: "For every storage format and every reading method, the points-to and effect analysis, cloned per call path from the method with its receiver and arguments as symbolic objects, finds no store, append within capacity, copy, map update or unmodelled call that can write to memory reachable from the receiver, from another argument or from a package variable. Iterators are followed through Enumerate, HasNext and Next.",
		Run: func(r *Report) {
			p := r.Prog
			ts := p.matrixTypes(r)
			ens := methodEntries(p, r, ts, readMethods)
			for _, t := range ts {
				fn, path := p.method(t, "Enumerate")
				if fn == nil {
					r.Undecided("anchor", t.Obj().Name()+".Enumerate", "", "not found")
					continue
				}
				ens = append(ens, &entry{name: t.Obj().Name() + ".Enumerate+HasNext+Next", fn: fn, recv: t, path: path, out: -1, chain: []string{"HasNext", "Next"}})
			}
			if em := p.named("", "EmptyMask"); em != nil {
				ens = append(ens, methodEntries(p, r, []*types.Named{em}, []string{"Rows", "Columns", "Element"})...)
			}
			for _, name := range []string{"Equal", "NotEqual", "Compare", "Less", "Greater", "String", "IsSparseMatrix"} {
				fn := p.fn("", name)
				if fn == nil {
					r.Undecided("anchor", "function "+name, "", "not found")
					continue
				}
				ens = append(ens, &entry{name: name, fn: fn, out: -1})
			}
			for _, en := range ens {
				e, _, _ := en.run(p, false)
				forbiddenEffects(r, "reading writes nothing", en, e, nil)
				r.Count("call_paths", e.nframes)
				r.Count("writes_examined", len(e.effects))
			}
		}})
	register(&Check{ID: "C02", Level: "proof", MinObs: 80,
		Rules: "For every operation and every aliasing of operands and output it supports, the points-to and effect analysis finds no write to memory reachable from an operand or mask that is not the output, nor to a package variable.",
		Run: func(r *Report) {
			p := r.Prog
			ts := p.matrixTypes(r)
			ens := append(opEntries(p, r), methodEntries(p, r, ts, arithMethods)...)
			for _, en := range ens {
				e, _, _ := en.run(p, false)
				allowed := map[string]bool{}
				if en.out >= 0 {
					allowed[en.rnames[en.out]] = true
				}
				forbiddenEffects(r, "only the output is written", en, e, allowed)
				r.Count("call_paths", e.nframes)
				r.Count("writes_examined", len(e.effects))
			}
		}})
	register(&Check{ID: "C03", Level: "proof", MinObs: 80,
		Rules: "For every method and function that returns a matrix, vector or array, and for every operation with an output argument, the set of objects reachable from the result after the call is disjoint, in the points-to analysis, from the set reachable from each operand and mask.",
		Run: func(r *Report) {
			p := r.Prog
			ts := p.matrixTypes(r)
			names := append([]string{"Copy", "CopyLogical", "RowsAt", "ColumnsAt", "RowsAtToArray"}, arithMethods...)
			ens := methodEntries(p, r, ts, names)
			for _, en := range opEntries(p, r) {
				if en.out >= 0 || resultShares(en.fn) {
					ens = append(ens, en)
				}
			}
			for _, c := range []string{"NewCSRMatrixFromArray", "NewCSCMatrixFromArray", "NewSparseVectorFromArray"} {
				fn := p.fn("", c)
				if fn == nil {
					r.Undecided("anchor", "function "+c, "", "not found")
					continue
				}
				ens = append(ens, &entry{name: c, fn: fn, out: -1})
			}
			for _, en := range ens {
				e, ret, args := en.run(p, false)
				checkSharing(r, en, e, ret, args)
				r.Count("call_paths", e.nframes)
			}
		}})
}

func resultShares(fn *ssa.Function) bool {
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		if pointerLike(res.At(i).Type()) {
			return true
		}
	}
	return false
}

func checkSharing(r *Report, en *entry, e *pta, ret val, args []val) {
	constr := en.name
	if en.config != "" {
		constr += " [" + en.config + "]"
	}
	pos := r.Prog.pos(en.fn.Pos())
	rule := "result shares no memory with operands"
	for k, v := range e.problems {
		r.Undecided(rule, constr, pos, "%s: %s", k, v)
		return
	}
	result := val{}
	result.add(ret)
	outName := ""
	if en.out >= 0 {
		outName = en.rnames[en.out]
		result.add(args[en.out])
	}
	for el := range result {
		if el.t.o.kind == kOpaque {
			r.Undecided(rule, constr, pos, "the result may be something the analysis does not know")
			return
		}
	}
	stopFn := func(o *obj) bool { return o.kind == kFunc }
	for _, a := range args {
		e.expand(a)
	}
	res := e.reachable(result, stopFn)
	n := 0
	for i, a := range args {
		prm := en.fn.Params[i]
		if !isMatrixish(prm.Type()) {
			if _, ok := prm.Type().Underlying().(*types.Slice); !ok {
				if !(i == 0 && en.recv != nil) {
					continue
				}
			}
		}
		if en.rnames[i] == outName && outName != "" {
			continue
		}
		n++
		for o := range e.reachable(a, stopFn) {
			if res[o] {
				where := o.label
				if o.site != nil {
					where = r.Prog.instrPos(o.site)
				}
				if o.kind == kRoot && o.depth == 0 && strings.HasPrefix(o.label, outName+":") && outName != "" {
					continue
				}
				r.Bad(rule, constr, pos, "the result and argument %s can both reach the same memory: %s", en.rnames[i], where)
				return
			}
		}
	}
	for o := range res {
		if o.kind == kGlobal {
			r.Bad(rule, constr, pos, "the result can reach the package variable %s", o.label)
			return
		}
	}
	if len(result) == 0 {
		r.Undecided(rule, constr, pos, "the analysis finds no result")
		return
	}
	r.OK(rule, constr, pos, "%d objects reachable from the result, %d operands", len(res), n)
}
