"""Behaviour-preserving rewrites of the mutex matrix, registry, masks, contexts and operators (development only).
usage: misc.py <copy of /repo> <name>"""
import sys
F={'mutex':'mutexMatrix.go','reg':'matrixRegistry.go','mask':'mask.go','ctx':'context.go','def':'default.go','cmp':'operators/comparison.go','bin':'binaryop/operators.go','sym':'math/symmetric/symmetric.go','skew':'math/skewsymmetric/skewSymmetric.go','dm':'denseMatrix.go','dv':'denseVector.go','sv':'sparseVector.go','csr':'csrMatrix.go','csc':'cscMatrix.go','red':'math/reduced/reduced.go','una':'unaryop/unaryOp.go','ops':'operators.go','arith':'operators/arithmetic.go','bool':'operators/boolean.go'}
class Tree:
    def __init__(s,d): s.d=d
    def sub(s,f,a,b,n=1):
        p=s.d+'/'+F[f]; t=open(p).read(); assert t.count(a)>=1,(f,a)
        open(p,'w').write(t.replace(a,b) if n==0 else t.replace(a,b,n))
    def cut(s,f,a,b,new):
        p=s.d+'/'+F[f]; t=open(p).read(); i=t.index(a); j=t.index(b,i)
        open(p,'w').write(t[:i]+new+t[j:])
    def app(s,f,new):
        p=s.d+'/'+F[f]; open(p,'a').write(new)
def mreading(t):
    t.sub('mutex','	s.RLock()\n	defer s.RUnlock()\n\n	return s.matrix.At(r, c)','	defer s.reading()()\n	return s.matrix.At(r, c)')
    t.app('mutex','''
func (s *MutexMatrix[T]) reading() func() {
	s.RLock()
	return s.RUnlock
}
''')
def mwith(t):
    t.sub('mutex','	s.Lock()\n	defer s.Unlock()\n\n	s.matrix.Set(r, c, value)','	s.writing(func(m Matrix[T]) { m.Set(r, c, value) })')
    t.sub('mutex','	s.Lock()\n	defer s.Unlock()\n\n	s.matrix.Clear()','	s.writing(func(m Matrix[T]) { m.Clear() })')
    t.app('mutex','''
func (s *MutexMatrix[T]) writing(f func(m Matrix[T])) {
	s.Lock()
	defer s.Unlock()
	f(s.matrix)
}
''')
def mlocal(t):
    t.sub('mutex','	return s.matrix.RowsAt(r)','	m := s.matrix\n	row := m.RowsAt(r)\n	return row')
    t.sub('mutex','	return s.matrix.Copy()\n','	matrix := s.matrix\n	copied := matrix.Copy()\n	return copied\n')
def mstronger(t):
    t.sub('mutex','	s.RLock()\n	defer s.RUnlock()\n\n	return s.matrix.Values()','	s.Lock()\n	defer s.Unlock()\n\n	return s.matrix.Values()')
def mclosure(t):
    t.sub('mutex','	s.RLock()\n	defer s.RUnlock()\n\n	return s.matrix.Element(r, c)','	s.RLock()\n	defer func() {\n		s.RUnlock()\n	}()\n\n	return s.matrix.Element(r, c)')
def mnamed(t):
    t.sub('mutex','func (s *MutexMatrix[T]) NotEqual(m MatrixLogical[T]) bool {\n	s.RLock()\n	defer s.RUnlock()\n\n	return s.matrix.NotEqual(m)','func (s *MutexMatrix[T]) NotEqual(m MatrixLogical[T]) (different bool) {\n	s.RLock()\n	defer s.RUnlock()\n\n	different = s.matrix.NotEqual(m)\n	return')
def mnotequal(t):
    t.sub('mutex','	s.RLock()\n	defer s.RUnlock()\n\n	return s.matrix.NotEqual(m)','	return !s.Equal(m)')
def mfield(t):
    t.sub('mutex','	sync.RWMutex\n','	mu sync.RWMutex\n')
    for a in ['RLock','RUnlock','Lock','Unlock']:
        t.sub('mutex','s.'+a+'()','s.mu.'+a+'()',0)
def mpointer(t):
    t.sub('mutex','	sync.RWMutex\n','	*sync.RWMutex\n')
    t.sub('mutex','		matrix: matrix,','		RWMutex: &sync.RWMutex{},\n		matrix: matrix,')
def mexplicit(t):
    t.sub('mutex','	s.Lock()\n	defer s.Unlock()\n\n	s.matrix.Clear()','	l := &s.RWMutex\n	l.Lock()\n	defer l.Unlock()\n	s.matrix.Clear()')
def msnap(t):
    t.sub('mutex','func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {\n	s.RLock()\n	defer s.RUnlock()\n\n	return s.matrix.Copy().Enumerate()','func (s *MutexMatrix[T]) Enumerate() Enumerate[T] {\n	return s.Copy().Enumerate()')
def mmap(t):
    t.sub('mutex','	return &mutexMatrixMap[T]{matrix: s, iterator: s.Enumerate()}','	iterator := s.Enumerate()\n	m := new(mutexMatrixMap[T])\n	m.matrix, m.iterator = s, iterator\n	return m')
def mmaphelper(t):
    t.sub('mutex','	s.matrix.Update(r, c, func(v T) T {\n		return f(r, c, v)\n	})','	update := func(v T) T { return f(r, c, v) }\n	s.matrix.Update(r, c, update)')
def melement(t):
    t.sub('mutex','	return s.matrix.Element(r, c)','	return s.matrix.At(r, c) != Default[T]()')
def mupdate(t):
    t.sub('mutex','	s.matrix.Update(r, c, f)','	s.matrix.Set(r, c, f(s.matrix.At(r, c)))')
def mdefer(t):
    t.sub('mutex','	return s.matrix.Values()','	n := s.matrix.Values()\n	return n')
    t.sub('mutex','	return s.matrix.Size()','	return s.Rows() * s.Columns()')
def mcolumns(t):
    t.sub('mutex','	return s.matrix.Columns()','	s.RLock()\n	defer s.RUnlock()\n	return s.matrix.Columns()')
def rstruct(t):
    t.sub('reg','var sparseMatrixNames = make(map[string]bool)','var sparseMatrixNames = map[string]struct{}{}')
    t.sub('reg','= true\n','= struct{}{}\n')
    t.sub('reg','	return sparseMatrixNames[genericName(t)]','	_, found := sparseMatrixNames[genericName(t)]\n	return found')
def rsplit(t):
    t.sub('reg','	name, _, _ := strings.Cut(t.Name(), "[")\n','	name := strings.SplitN(t.Name(), "[", 2)[0]\n')
def rindex(t):
    t.sub('reg','	name, _, _ := strings.Cut(t.Name(), "[")\n','	name := t.Name()\n	if i := strings.Index(name, "["); i >= 0 {\n		name = name[:i]\n	}\n')
def rinline(t):
    t.sub('reg','	t := reflect.TypeOf(s).Elem()\n	return sparseMatrixNames[genericName(t)]','	return sparseMatrixNames[genericName(reflect.TypeOf(s).Elem())]')
def rone(t):
    t.sub('reg','	if _, found := sparseMatrixRegistry[matrix.Name()]; found {\n		log.Panicf("Already registered Matrix %q.", matrix.Name())\n	}\n	sparseMatrixRegistry[matrix.Name()] = matrix\n','	name := matrix.Name()\n	if _, found := sparseMatrixRegistry[name]; found {\n		log.Panicf("Already registered Matrix %q.", name)\n	}\n	sparseMatrixRegistry[name] = matrix\n')
def kfields(t):
    t.sub('mask','	return &EmptyMask{r: r, c: c}','	m := new(EmptyMask)\n	m.r = r\n	m.c = c\n	return m')
    t.sub('mask','	r int\n	c int\n','	rows, columns int\n')
    t.sub('mask','	m.r = r\n	m.c = c\n','	m.rows, m.columns = r, c\n')
    t.sub('mask','return s.c\n','return s.columns\n')
    t.sub('mask','return s.r\n','return s.rows\n')
def cswitch(t):
    t.sub('ctx','	if key == (modeKey{}) {\n		return s.mode\n	}\n	return s.Context.Value(key)','	switch key.(type) {\n	case modeKey:\n		return s.mode\n	default:\n		return s.Context.Value(key)\n	}')
def cok(t):
    t.sub('ctx','	mode, ok := ctx.Value(modeKey{}).(Mode)\n	if ok {\n		return mode, ok\n	}\n	return Blocking, false','	v := ctx.Value(modeKey{})\n	if v == nil {\n		return Blocking, false\n	}\n	mode, ok := v.(Mode)\n	return mode, ok')
def cptr(t):
    t.sub('ctx','type modeKey struct{}','type modeKeyType struct{ _ int }\n\nvar modeKey = &modeKeyType{}')
    t.sub('ctx','modeKey{}','modeKey',0)
    t.sub('ctx','(modeKey)','modeKey',1)
def cint(t):
    t.sub('ctx','type modeKey struct{}','type contextKey int\n\nconst modeKey contextKey = 0')
    t.sub('ctx','(modeKey{})','modeKey',0)
    t.sub('ctx','modeKey{}','modeKey',0)
def cwith(t):
    t.sub('ctx','	return &graphContect{ctx, mode}','	return &graphContect{Context: ctx, mode: mode}')
def cmode(t):
    t.sub('ctx','	if key == (modeKey{}) {\n		return s.mode\n	}','	if _, is := key.(modeKey); is {\n		return s.Mode()\n	}')
def onot(t):
    t.sub('cmp','		return in1 != in2','		return !(in1 == in2)')
    t.sub('cmp','		return in1 > in2','		return in2 < in1')
def onamed(t):
    t.sub('cmp','	return binaryop.NewBinaryOpToBool(func(in1, in2 T) bool {\n		return in1 < in2\n	})','	return binaryop.NewBinaryOpToBool(less[T])')
    t.app('cmp','\nfunc less[T constraints.Number](in1, in2 T) bool { return in1 < in2 }\n')
def ovar(t):
    t.sub('bin','		if in1 < in2 {\n			return in1\n		}\n		return in2','		least := in1\n		if in2 <= in1 {\n			least = in2\n		}\n		return least')
def oadd(t):
    t.sub('bin','		return in1 + in2','		sum := in2\n		sum += in1\n		return sum')
def oelse(t):
    t.sub('bin','		if in1 > in2 {\n			return in1\n		}\n\n		return in2','		if in1 > in2 {\n			return in1\n		} else {\n			return in2\n		}')
def symone(t):
    t.sub('sym','	r := s.Rows()\n	c := s.Columns()\n	if r != c {\n		return false\n	}\n\n	t := s.Transpose()\n	return t.Equal(s)','	return s.Rows() == s.Columns() && s.Equal(s.Transpose())')
def symloop(t):
    t.sub('sym','	t := s.Transpose()\n	return t.Equal(s)','	for i := 0; i < r; i++ {\n		for j := 0; j < i; j++ {\n			if s.At(i, j) != s.At(j, i) {\n				return false\n			}\n		}\n	}\n	return true')
def skeworder(t):
    t.sub('skew','	n := s.Negative()\n	t := n.Transpose()\n	return t.Equal(s)','	t := s.Transpose()\n	n := s.Negative()\n	return n.Equal(t)')
def skewnot(t):
    t.sub('skew','	return t.Equal(s)','	return !t.NotEqual(s)')
def unainline(t):
    t.sub('una','	return s.apply(in)','	f := s.apply\n	result := f(in)\n	return result')
def redvars(t):
    t.sub('red','		f := 1 / m.At(r, lead)\n\n		vector := m.RowsAtToArray(r)\n		for c := 0; c < len(vector); c++ {\n			value := vector[c]\n			value *= f\n			m.Set(r, c, value)\n		}','		f := 1 / m.At(r, lead)\n\n		for c, value := range m.RowsAtToArray(r) {\n			m.Set(r, c, value*f)\n		}')
def redswap(t):
    t.cut('red','			v1 := m.RowsAtToArray(i)','		}\n\n		f := 1','			swapRows(m, r, i)\n')
    t.app('red','''
func swapRows[T constraints.Number](m graphblas.Matrix[T], a, b int) {
	first, second := m.RowsAtToArray(a), m.RowsAtToArray(b)
	for c := range second {
		m.Set(a, c, second[c])
		m.Set(b, c, first[c])
	}
}
''')
def redelim(t):
    t.sub('red','		for i = 0; i < rowCount; i++ {\n			if i != r {','		for i = 0; i < rowCount; i++ {\n			if i == r {\n				continue\n			}\n			{')
def redfind(t):
    t.cut('red','		i := r\n','		if i != r {','''		i, column := pivot(m, r, lead)
		if i < 0 {
			return m
		}
		lead = column
''')
    t.app('red','''
// pivot finds the first element that is not zero at or below the row, in the first column from lead on that has one
func pivot[T constraints.Number](m graphblas.Matrix[T], row, lead int) (int, int) {
	for c := lead; c < m.Columns(); c++ {
		for i := row; i < m.Rows(); i++ {
			if m.At(i, c) != 0 {
				return i, c
			}
		}
	}
	return -1, -1
}
''')
R={k:v for k,v in globals().items() if callable(v) and v.__class__.__name__=='function'}
if __name__=='__main__':
    if len(sys.argv)<2: print(' '.join(R)); sys.exit()
    R[sys.argv[2]](Tree(sys.argv[1]))
