"""Behaviour-preserving rewrites of the reductions and the Strassen product (development only).
usage: reduce.py <copy of /repo> <name>"""
import sys
F={'monoid':'binaryop/monoID.go','ops':'operators.go','str':'math/strassen/strassen.go','def':'default.go'}
class Tree:
    def __init__(s,d): s.d=d
    def sub(s,f,a,b,n=1):
        p=s.d+'/'+F[f]; t=open(p).read(); assert t.count(a)>=1,(f,a)
        open(p,'w').write(t.replace(a,b) if n==0 else t.replace(a,b,n))
    def cut(s,f,a,b,new):
        p=s.d+'/'+F[f]; t=open(p).read(); i=t.index(a); j=t.index(b,i)
        open(p,'w').write(t[:i]+new+t[j:])
    def app(s,f,new):
        p=s.d+'/'+F[f]; open(p,'a').write(new)
REDUCE='''	go func() {
		result := s.unit'''
def rhelper(t):
    t.cut('monoid','	go func() {','	return out','	go s.fold(done, slice, out)\n')
    t.app('monoid','''
func (s *monoID[T]) fold(done <-chan struct{}, values <-chan T, out chan<- T) {
	acc := s.Zero()
	for {
		select {
		case <-done:
			out <- acc
			close(out)
			return
		case v := <-values:
			acc = s.Apply(acc, v)
		}
	}
}
''')
def rdefer(t):
    t.sub('monoid','		result := s.unit\n','		defer close(out)\n		result := s.unit\n')
    t.sub('monoid','				close(out)\n','')
def rflag(t):
    t.cut('monoid','		for {','	}()','''		for running := true; running; {
			select {
			case value := <-slice:
				result = s.BinaryOp.Apply(result, value)
			case <-done:
				running = false
			}
		}
		out <- result
		close(out)
''')
def rlabel(t):
    t.cut('monoid','		for {','	}()','''	loop:
		for {
			select {
			case value := <-slice:
				next := s.BinaryOp.Apply(result, value)
				result = next
			case <-done:
				break loop
			}
		}
		out <- result
		close(out)
''')
def rbuf(t):
    t.sub('monoid','make(chan T)','make(chan T, 1)')
def fcontinue(t):
    t.sub('ops','''				if !mask.Element(r, c) {
					slice <- value
				}''','''				if mask.Element(r, c) {
					continue
				}
				slice <- value''')
def fhelper(t):
    t.cut('ops','	go func() {\n		for iterator := s.Enumerate()','	return <-out','	go feed(ctx, s, mask, slice, done)\n\n')
    t.app('ops','''
func feed[T constraints.Number](ctx context.Context, s MatrixLogical[T], mask Mask, values chan<- T, done chan<- struct{}) {
	iterator := s.Enumerate()
	for iterator.HasNext() {
		select {
		case <-ctx.Done():
			done <- struct{}{}
			return
		default:
		}
		r, c, value := iterator.Next()
		if covered := mask.Element(r, c); !covered {
			values <- value
		}
	}
	done <- struct{}{}
}
''')
def fdefer(t):
    t.cut('ops','	go func() {\n		for iterator := s.Enumerate()','	return <-out','''	go func() {
		defer func() { done <- struct{}{} }()
		for iterator := s.Enumerate(); iterator.HasNext(); {
			select {
			case <-ctx.Done():
				return
			default:
				r, c, value := iterator.Next()
				if !mask.Element(r, c) {
					slice <- value
				}
			}
		}
	}()

''')
def fhoist(t):
    t.sub('ops','''	go func() {
		for iterator := s.Enumerate(); iterator.HasNext(); {''','''	iterator := s.Enumerate()
	go func() {
		for iterator.HasNext() {''')
def fresult(t):
    t.sub('ops','	return <-out\n\n}','	result := <-out\n	return result\n}')
def fmaskhelper(t):
    t.cut('ops','	if mask == nil {\n		mask = NewEmptyMask(s.Rows(), s.Columns())\n	}\n\n	if mask.Rows() != s.Rows()','	done := make(chan','	mask = checked(mask, s.Rows(), s.Columns())\n')
    t.app('ops','''
func checked(mask Mask, rows, columns int) Mask {
	if mask == nil {
		return NewEmptyMask(rows, columns)
	}
	if rows != mask.Rows() {
		log.Panicf("Can not apply mask found rows mismatch %+v, %+v", mask.Rows(), rows)
	}
	if columns != mask.Columns() {
		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), columns)
	}
	return mask
}
''')
def vrange(t):
    t.cut('ops','	vector := NewDenseVectorN[T](s.Columns())\n	for c := 0','// ReduceVectorToScalar perform','''	columns := s.Columns()
	vector := NewDenseVectorN[T](columns)
	for column := 0; column < columns; column++ {
		vector.SetVec(column, ReduceVectorToScalarWithMonoID[T](ctx, s.ColumnsAt(column), monoID, mask))
	}
	return vector
}

''')
def vdown(t):
    t.sub('ops','	for c := 0; c < s.Columns(); c++ {\n		select {\n		case <-ctx.Done():\n			return vector','	for c := s.Columns() - 1; c >= 0; c-- {\n		select {\n		case <-ctx.Done():\n			return vector')
def vinner(t):
    t.sub('ops','ReduceVectorToScalarWithMonoID(ctx, v, monoID, mask)','reduceAll[T](ctx, v, monoID, mask)')
    t.sub('ops','	return ReduceMatrixToScalarWithMonoID[T](ctx, s, monoID, mask)','	return reduceAll[T](ctx, s, monoID, mask)')
    t.sub('ops','func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {','''func ReduceMatrixToScalarWithMonoID[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {
	return reduceAll(ctx, s, monoID, mask)
}

func reduceAll[T constraints.Number](ctx context.Context, s MatrixLogical[T], monoID binaryop.MonoID[T], mask Mask) T {''')
def dinline(t):
    t.cut('def','	d := Default[T]()\n	add','}','	return binaryop.NewMonoID(Zero[T](), binaryop.Addition[T]())\n')
def dinto(t):
    t.sub('ops','DefaultMonoIDAddition[T]()','binaryop.NewMonoID(0, binaryop.Addition[T]())')
# Strassen
def slist(t):
    t.cut('str','	go subMatrixM(ctx, out, 1','	m := [8]','''	tasks := []struct {
		m    int
		a, b graphblas.Matrix[T]
	}{
		{1, a11.Add(a22), b11.Add(b22)},
		{2, a21.Add(a22), b11},
		{3, a11, b12.Subtract(b22)},
		{4, a22, b21.Subtract(b11)},
		{5, a11.Add(a12), b22},
		{6, a21.Subtract(a11), b11.Add(b12)},
		{7, a12.Subtract(a22), b21.Add(b22)},
	}
	for _, task := range tasks {
		go subMatrixM(ctx, out, task.m, task.a, task.b, crossover)
	}

''')
def sclosure(t):
    t.cut('str','	go subMatrixM(ctx, out, 1','	m := [8]','''	start := func(m int, a, b graphblas.Matrix[T]) {
		go subMatrixM(ctx, out, m, a, b, crossover)
	}
	start(7, a12.Subtract(a22), b21.Add(b22))
	start(1, a11.Add(a22), b11.Add(b22))
	start(2, a21.Add(a22), b11)
	start(3, a11, b12.Subtract(b22))
	start(4, a22, b21.Subtract(b11))
	start(5, a11.Add(a12), b22)
	start(6, a21.Subtract(a11), b11.Add(b12))

''')
def sbuf(t):
    t.sub('str','make(chan *mPlace[T])','make(chan *mPlace[T], 7)')
def sorder(t):
    t.sub('str','m[1].Add(m[4]).Subtract(m[5]).Add(m[7])','m[7].Add(m[4].Subtract(m[5])).Add(m[1])')
def sblock(t):
    t.cut('str','	a11 := graphblas','	out := make','''	a11 := block(ctx, a, 0, 0, size)
	a12 := block(ctx, a, 0, size, size)
	a21 := block(ctx, a, size, 0, size)
	a22 := block(ctx, a, size, size, size)

	b11 := block(ctx, b, 0, 0, size)
	b12 := block(ctx, b, 0, size, size)
	b21 := block(ctx, b, size, 0, size)
	b22 := block(ctx, b, size, size, size)

''')
    t.app('str','''
func block[T constraints.Number](ctx context.Context, m graphblas.Matrix[T], top, left, size int) graphblas.Matrix[T] {
	out := graphblas.NewDenseMatrixN[T](size, size)
	for r := 0; r < size; r++ {
		for c := 0; c < size; c++ {
			select {
			case <-ctx.Done():
				return out
			default:
				out.Set(r, c, m.At(top+r, left+c))
			}
		}
	}
	return out
}
''')
def sguard(t):
    t.sub('str','	if n <= crossover || n == 0 || n%2 != 0 || a.Rows() != n || b.Columns() != n {','	divisible := n > 0 && n%2 == 0 && a.Rows() == n && b.Columns() == n\n	if !divisible || n <= crossover {')
def sshift(t):
    t.sub('str','	shift := c11.Rows()\n','	shift := size\n')
    t.sub('str','graphblas.NewDenseMatrixN[T](c11.Rows()*2, c11.Rows()*2)','graphblas.NewDenseMatrixN[T](n, n)')
def srange(t):
    t.sub('str','	for i := 0; i < 7; i++ {\n		mtx := <-out\n		m[mtx.m] = mtx.matrix\n	}','	for received := 7; received > 0; received-- {\n		place := <-out\n		m[place.m] = place.matrix\n	}')
def fclose(t):
    t.sub('ops','	defer close(done)\n','')
    t.sub('ops','				done <- struct{}{}\n				return','				close(done)\n				return')
    t.sub('ops','		done <- struct{}{}\n	}()','		close(done)\n	}()')
def fclosed(t):
    t.sub('ops','	defer close(done)\n','')
    t.sub('ops','				done <- struct{}{}\n				return','				return')
    t.sub('ops','		done <- struct{}{}\n	}()','	}()')
    t.sub('ops','	go func() {\n','	go func() {\n		defer close(done)\n')
def fnoclose(t):
    t.sub('ops','	defer close(slice)\n','')
def fbreak(t):
    t.sub('ops','				done <- struct{}{}\n				return','				break read')
    t.sub('ops','	go func() {\n		for','	go func() {\n	read:\n		for')
def swg(t):
    t.cut('str','	out := make(chan','	c11 :=','''	type pair struct{ a, b graphblas.Matrix[T] }
	pairs := []pair{
		{a11.Add(a22), b11.Add(b22)},
		{a21.Add(a22), b11},
		{a11, b12.Subtract(b22)},
		{a22, b21.Subtract(b11)},
		{a11.Add(a12), b22},
		{a21.Subtract(a11), b11.Add(b12)},
		{a12.Subtract(a22), b21.Add(b22)},
	}
	m := [8]graphblas.Matrix[T]{}
	var wg sync.WaitGroup
	for i, p := range pairs {
		wg.Add(1)
		go func(i int, p pair) {
			defer wg.Done()
			m[i+1] = MultiplyCrossoverPoint(ctx, p.a, p.b, crossover)
		}(i, p)
	}
	wg.Wait()

''')
    t.sub('str','	"log"\n','	"log"\n	"sync"\n')
    t.cut('str','func subMatrixM','type mPlace','')
def swaiter(t):
    t.sub('str','	m := [8]','	go func() {\n		wg.Wait()\n		close(out)\n	}()\n	m := [8]')
    t.sub('str','	for i := 0; i < 7; i++ {\n		mtx := <-out\n','	for mtx := range out {\n')
    t.sub('str','	out := make(chan *mPlace[T])\n','	out := make(chan *mPlace[T])\n	var wg sync.WaitGroup\n	wg.Add(7)\n')
    t.sub('str','	"log"\n','	"log"\n	"sync"\n')
    t.sub('str','ctx, out, ','ctx, &wg, out, ',0)
    t.sub('str','func subMatrixM[T constraints.Number](ctx context.Context, out chan','func subMatrixM[T constraints.Number](ctx context.Context, wg *sync.WaitGroup, out chan')
    t.sub('str','	out <- &mPlace','	defer wg.Done()\n	out <- &mPlace')
def sdoneeach(t):
    t.sub('str','	for i := 0; i < 7; i++ {\n		mtx := <-out\n','	for i := 0; i < cap(m)-1; i++ {\n		mtx := <-out\n')
def sdirect(t):
    t.cut('str','	go subMatrixM(ctx, out, 1','	go subMatrixM[T](ctx, out, 2','')
    t.sub('str','	for i := 0; i < 7; i++ {','	m[1] = MultiplyCrossoverPoint(ctx, a11.Add(a22), b11.Add(b22), crossover)\n	for i := 0; i < 6; i++ {')
def fsend(t):
    t.sub('ops','					slice <- value\n','					select {\n					case slice <- value:\n					case <-ctx.Done():\n					}\n')
def fstop(t):
    t.sub('ops','	return <-out\n','	result, _ := <-out\n	return result\n')
def scancel(t):
    t.sub('str','		mtx := <-out\n		m[mtx.m] = mtx.matrix\n','		select {\n		case mtx := <-out:\n			m[mtx.m] = mtx.matrix\n		case <-ctx.Done():\n			// they end on their own\n			mtx := <-out\n			m[mtx.m] = mtx.matrix\n		}\n')
R={k:v for k,v in globals().items() if callable(v) and v.__class__.__name__=='function'}
if __name__=='__main__':
    if len(sys.argv)<2: print(' '.join(R)); sys.exit()
    R[sys.argv[2]](Tree(sys.argv[1]))
