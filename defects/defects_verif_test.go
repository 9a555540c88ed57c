// Demonstrations, against the real code, of the defects that were repaired by
// the "fix:" commits in /repo (see ../KNOWN_FINDINGS.txt). Run with ./run.sh.
// This is documentation of the repairs; no check registered in MANIFEST.json
// runs it.
package graphblas_test

import (
	"context"
	"runtime"
	"testing"
	"time"

	gb "github.com/rossmerr/graphblas"
	"github.com/rossmerr/graphblas/binaryop"
	"github.com/rossmerr/graphblas/math/strassen"
	"github.com/rossmerr/graphblas/sort"
	"github.com/rossmerr/graphblas/unaryop"
)

var bg = context.Background()

func TestDefSparseVectorIndex(t *testing.T) {
	v := gb.NewSparseVector[float64](10)
	v.SetVec(5, 1)
	if v.AtVec(5) != 1 {
		t.Errorf("AtVec(5)=%v", v.AtVec(5))
	}
	v.SetVec(3, 2)
	if v.AtVec(3) != 2 || v.AtVec(5) != 1 {
		t.Errorf("%v", v)
	}
}

func TestDefConcurrentReaders(t *testing.T) { // run with -race
	for _, m := range []gb.Matrix[float64]{gb.NewCSCMatrix[float64](2, 2), gb.NewCSRMatrix[float64](2, 2), gb.NewSparseVector[float64](2)} {
		m.Set(0, 0, 1)
		d := make(chan bool)
		for i := 0; i < 2; i++ {
			go func() {
				for k := 0; k < 100; k++ {
					m.At(0, 0)
					m.Element(0, 0)
				}
				d <- true
			}()
		}
		<-d
		<-d
	}
}

func TestDefMutex(t *testing.T) { // run with -race
	m := gb.NewMutexMatrix[float64](gb.NewCSRMatrix[float64](2, 2))
	d := make(chan bool)
	go func() {
		for k := 0; k < 100; k++ {
			m.Set(0, 0, 1)
			m.Clear()
		}
		d <- true
	}()
	go func() {
		for k := 0; k < 100; k++ {
			m.Values()
			m.At(0, 0)
		}
		d <- true
	}()
	go func() {
		for k := 0; k < 100; k++ {
			for e := m.Enumerate(); e.HasNext(); {
				e.Next()
			}
			for e := m.Map(); e.HasNext(); {
				e.Map(func(r, c int, v float64) float64 { return v + 1 })
			}
		}
		d <- true
	}()
	<-d
	<-d
	<-d
}

func TestDefRegistry(t *testing.T) {
	if !gb.IsSparseMatrix[int](gb.NewCSRMatrix[int](2, 2)) {
		t.Error("CSRMatrix[int] not sparse")
	}
	d := gb.NewDenseMatrixN[int](2, 2)
	d.Set(0, 0, 1)
	s := gb.NewCSRMatrix[int](2, 2)
	s.Set(0, 0, 1)
	if !s.Equal(d) {
		t.Error("equal contents reported different")
	}
}

func TestDefEqualMixed(t *testing.T) {
	d := gb.NewDenseMatrixN[float64](2, 2)
	d.Set(0, 0, 1)
	s := gb.NewCSRMatrix[float64](2, 2)
	if s.Equal(d) || d.Equal(s) {
		t.Error("empty equals non-empty")
	}
}

func TestDefAdd(t *testing.T) {
	m := gb.NewDenseMatrixN[float64](2, 2)
	m.Set(0, 0, 5)
	if got := gb.NewCSRMatrix[float64](2, 2).Add(m).At(0, 0); got != 5 {
		t.Errorf("0+5=%v", got)
	}
}

func TestDefSubtract(t *testing.T) {
	m := gb.NewDenseMatrixN[float64](2, 2)
	m.Set(0, 0, 5)
	if got := gb.NewCSRMatrix[float64](2, 2).Subtract(m).At(0, 0); got != -5 {
		t.Errorf("0-5=%v", got)
	}
	out := gb.NewDenseMatrixN[float64](2, 2)
	gb.Subtract[float64](bg, m, m, nil, out)
	if out.At(0, 0) != 0 {
		t.Errorf("5-5=%v", out.At(0, 0))
	}
	v := gb.NewSparseVector[float64](2)
	v.SetVec(0, 3)
	if got := v.Subtract(gb.NewSparseVector[float64](2)).At(0, 0); got != 3 {
		t.Errorf("3-0=%v", got)
	}
}

func TestDefApply(t *testing.T) {
	dbl := unaryop.NewUnaryOp(func(v float64) float64 { return 2 * v })
	m := gb.NewDenseMatrixN[float64](2, 2)
	m.Set(0, 1, 5)
	out := gb.NewDenseMatrixN[float64](2, 2)
	gb.Apply[float64](bg, m, nil, dbl, out)
	if out.At(0, 1) != 10 {
		t.Error("apply result transposed")
	}
	gb.Apply[float64](bg, m, nil, dbl, m)
	if m.At(0, 1) != 10 {
		t.Error("in place apply ignored")
	}
}

func TestDefNegative(t *testing.T) {
	m := gb.NewDenseMatrixN[float64](2, 2)
	m.Set(0, 1, 5)
	out := gb.NewDenseMatrixN[float64](2, 2)
	gb.Negative[float64](bg, m, nil, out)
	if out.At(0, 1) != -5 {
		t.Errorf("negative=%v", out.At(0, 1))
	}
}

func TestDefTransposeMask(t *testing.T) {
	m := gb.NewDenseMatrixN[float64](2, 2)
	m.Set(0, 1, 5)
	mask := gb.NewDenseMatrixN[float64](2, 2)
	mask.Set(1, 0, 1)
	out := gb.NewDenseMatrixN[float64](2, 2)
	gb.Transpose[float64](bg, m, mask, out)
	if out.At(1, 0) != 0 {
		t.Error("masked position written")
	}
}

func TestDefEwiseShape(t *testing.T) {
	defer func() {
		if recover() != nil {
			t.Error("2x3 with 2x3 rejected")
		}
	}()
	a := gb.NewDenseMatrixN[float64](2, 3)
	gb.ElementWiseMatrixMultiply[float64](bg, a, a.Copy(), nil, gb.NewDenseMatrixN[float64](2, 3))
	gb.ElementWiseMatrixAdd[float64](bg, a, a.Copy(), nil, gb.NewDenseMatrixN[float64](2, 3))
}

func TestDefEwiseMult(t *testing.T) {
	a, b := gb.NewDenseMatrixN[float64](2, 2), gb.NewDenseMatrixN[float64](2, 2)
	a.Set(0, 0, 2)
	b.Set(0, 0, 3)
	o := gb.NewDenseMatrixN[float64](2, 2)
	gb.ElementWiseMatrixMultiply[float64](bg, a, b, nil, o)
	if o.At(0, 0) != 6 {
		t.Errorf("2*3=%v", o.At(0, 0))
	}
	s := gb.NewCSRMatrix[float64](2, 2)
	s.Set(0, 0, 1)
	gb.ElementWiseMatrixMultiply[float64](bg, s, gb.NewCSRMatrix[float64](2, 2), nil, s)
	if s.At(0, 0) != 0 {
		t.Errorf("in place 1*0=%v", s.At(0, 0))
	}
}

func TestDefScalarCancelled(t *testing.T) {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	d := make(chan bool, 1)
	go func() { gb.Scalar[float64](ctx, gb.NewDenseMatrixN[float64](2, 2), 2); d <- true }()
	select {
	case <-d:
	case <-time.After(time.Second):
		t.Error("Scalar spins forever on a cancelled context")
	}
}

func TestDefReduceCancelled(t *testing.T) {
	ctx, cancel := context.WithCancel(bg)
	cancel()
	d := make(chan bool, 1)
	go func() { gb.ReduceMatrixToScalar[float64](ctx, gb.NewDenseMatrixN[float64](2, 2), nil); d <- true }()
	select {
	case <-d:
	case <-time.After(time.Second):
		t.Error("Reduce blocks forever on a cancelled context")
	}
}

func TestDefReduceLeak(t *testing.T) {
	n := runtime.NumGoroutine()
	for i := 0; i < 10; i++ {
		func() {
			defer func() { recover() }()
			gb.ReduceMatrixToScalar[float64](bg, gb.NewDenseMatrixN[float64](2, 2), gb.NewEmptyMask(1, 1))
		}()
	}
	time.Sleep(100 * time.Millisecond)
	if k := runtime.NumGoroutine(); k > n+2 {
		t.Errorf("leaked %d goroutines", k-n)
	}
}

func TestDefMapRemoval(t *testing.T) {
	for _, m := range []gb.Matrix[float64]{gb.NewCSCMatrix[float64](3, 3), gb.NewCSRMatrix[float64](3, 3), gb.NewSparseVector[float64](3)} {
		for i := 0; i < 3; i++ {
			for j := 0; j < m.Columns(); j++ {
				m.Set(i, j, 1)
			}
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					t.Errorf("%T: %v", m, r)
				}
			}()
			if got := m.Scalar(0); got.Values() != 0 {
				t.Errorf("%T: %v", m, got)
			}
		}()
	}
}

func TestDefReSize(t *testing.T) {
	v := gb.NewDenseVectorFromArray([]float64{1, 2, 3, 4, 5})
	if n := v.ReSize(2); n != 2 {
		t.Errorf("ReSize(2)=%d", n)
	}
}

func TestDefVectorColumnBounds(t *testing.T) {
	try := func(name string, f func()) {
		defer func() {
			if recover() == nil {
				t.Error(name, "accepted column 5")
			}
		}()
		f()
	}
	d, s := gb.NewDenseVectorN[float64](3), gb.NewSparseVector[float64](3)
	try("dense At", func() { d.At(0, 5) })
	try("dense Element", func() { d.Element(0, 5) })
	try("sparse Element", func() { s.Element(0, 5) })
}

func TestDefVectorMultiply(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("3x1 * 1x2: %v", r)
		}
	}()
	row := gb.NewDenseMatrixN[float64](1, 2)
	for _, v := range []gb.Vector[float64]{gb.NewDenseVectorN[float64](3), gb.NewSparseVector[float64](3)} {
		got := v.Multiply(row)
		if got.Rows() != 3 || got.Columns() != 2 {
			t.Error("shape")
		}
	}
}

func TestDefStrassenShapes(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%v", r)
		}
	}()
	for _, d := range [][3]int{{3, 3, 3}, {4, 4, 2}, {2, 4, 4}, {1, 4, 7}} {
		a, b := gb.NewDenseMatrixN[int](d[0], d[1]), gb.NewDenseMatrixN[int](d[1], d[2])
		for r := 0; r < d[0]; r++ {
			for c := 0; c < d[1]; c++ {
				a.Set(r, c, r+2*c+1)
			}
		}
		for r := 0; r < d[1]; r++ {
			for c := 0; c < d[2]; c++ {
				b.Set(r, c, 3*r+c+1)
			}
		}
		if !strassen.MultiplyCrossoverPoint[int](bg, a, b, 1).Equal(a.Multiply(b)) {
			t.Errorf("%v differs", d)
		}
	}
}

func TestDefElementNegative(t *testing.T) {
	for _, m := range []gb.Matrix[float64]{gb.NewCSCMatrix[float64](1, 1), gb.NewCSRMatrix[float64](1, 1), gb.NewSparseVector[float64](1), gb.NewDenseVectorN[float64](1), gb.NewDenseMatrixN[float64](1, 1)} {
		m.Set(0, 0, -1)
		if !m.Element(0, 0) {
			t.Errorf("%T: -1 is not an element", m)
		}
	}
}

func TestDefContextMode(t *testing.T) {
	ctx, cancel := context.WithCancel(gb.NewContext(bg, gb.NonBlocking))
	defer cancel()
	if m, ok := gb.BlockingMode(ctx); !ok || m != gb.NonBlocking {
		t.Error("mode lost in derived context")
	}
}

func TestDefSparseRune(t *testing.T) {
	a := gb.NewCSRMatrixFromArray([][]rune{{'b', 0}, {0, 'a'}})
	b := gb.NewDenseMatrixFromArray([][]rune{{'b', 0}, {0, 'a'}})
	if !sort.BubbleRow(bg, a).Equal(sort.BubbleRow(bg, b)) || !sort.BubbleColumns(bg, a).Equal(sort.BubbleColumns(bg, b)) {
		t.Error("sparse and dense sort differently")
	}
}

func TestDefReduceMaximum(t *testing.T) {
	m := gb.NewDenseMatrixN[float64](1, 1)
	m.Set(0, 0, -3)
	if v := gb.ReduceMatrixToVector[float64](bg, m).AtVec(0); v != -3 {
		t.Errorf("KNOWN: max of {-3} = %v", v)
	}
	_ = binaryop.Maximum[float64]
}

func TestDefElementWiseAddInPlace(t *testing.T) {
	s, m := gb.NewDenseMatrixN[float64](1, 1), gb.NewDenseMatrixN[float64](1, 1)
	out := gb.NewDenseMatrixN[float64](1, 1)
	s.Set(0, 0, 1)
	m.Set(0, 0, 2)
	gb.ElementWiseMatrixAdd[float64](bg, s, m, nil, out)
	gb.ElementWiseMatrixAdd[float64](bg, s, m, nil, m)
	if m.At(0, 0) != out.At(0, 0) {
		t.Errorf("in place %v, else %v", m.At(0, 0), out.At(0, 0))
	}
}
