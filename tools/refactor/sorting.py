"""Behaviour-preserving rewrites of the orders of matrices and the sorts (development only).
usage: sorting.py <copy of /repo> <name>"""
import sys
F={'bfs':'breadthfirst/breadthFirst.go','ops':'operators.go','sort':'sort/bubble.go'}
class Tree:
    def __init__(s,d): s.d=d
    def sub(s,f,a,b,n=1):
        p=s.d+'/'+F[f]; t=open(p).read(); assert t.count(a)>=1,(f,a)
        open(p,'w').write(t.replace(a,b) if n==0 else t.replace(a,b,n))
    def cut(s,f,a,b,new):
        p=s.d+'/'+F[f]; t=open(p).read(); i=t.index(a); j=t.index(b,i)
        open(p,'w').write(t[:i]+new+t[j:])
    def app(s,f,new):
        p=s.d+'/'+F[f]; open(p,'a').write(new)
STRING='func String('
EQUAL='// Equal the two matrices are equal'
def shelper(t):
    t.sub('ops','b.WriteRune(s.At(r, c))','writeRune(&b, s, r, c)')
    t.app('ops','''
func writeRune(b *strings.Builder, s MatrixLogical[rune], r, c int) {
	b.WriteRune(s.At(r, c))
}
''')
def sstring(t): t.sub('ops','b.WriteRune(s.At(r, c))','b.WriteString(string(s.At(r, c)))')
def slocals(t):
    t.cut('ops',STRING,EQUAL,'''func String(ctx context.Context, s MatrixLogical[rune]) string {
	b := &strings.Builder{}
	rows, columns := s.Rows(), s.Columns()
	for r := 0; r != rows; r++ {
		for c := 0; c != columns; c++ {
			if ctx.Err() != nil {
				return b.String()
			}
			element := s.At(r, c)
			b.WriteRune(element)
		}
	}
	return b.String()
}

''')
def nostr(t): t.sub("ops","\t\"strings\"\n","")
def sslice(t):
    nostr(t)
    t.cut('ops',STRING,EQUAL,'''func String(ctx context.Context, s MatrixLogical[rune]) string {
	text := make([]rune, 0, s.Size())
	for r := 0; r < s.Rows(); r++ {
		for c := 0; c < s.Columns(); c++ {
			select {
			case <-ctx.Done():
				return string(text)
			default:
				text = append(text, s.At(r, c))
			}
		}
	}
	return string(text)
}

''')
def sindex(t):
    nostr(t)
    t.cut('ops',STRING,EQUAL,'''func String(ctx context.Context, s MatrixLogical[rune]) string {
	text := make([]rune, s.Rows()*s.Columns())
	n := 0
	for r := 0; r < s.Rows(); r++ {
		for c := 0; c < s.Columns(); c++ {
			select {
			case <-ctx.Done():
				return string(text[:n])
			default:
			}
			text[n] = s.At(r, c)
			n++
		}
	}
	return string(text)
}

''')
def cswitch(t):
    t.cut('ops','		if Less(ctx, s, m) {','	}\n	return +1','''		switch {
		case Less(ctx, s, m):
			return -1
		}
''')
def cstrings(t):
    t.cut('ops','func Less(','func String(','''func Less(ctx context.Context, s, m MatrixLogical[rune]) bool {
	return strings.Compare(String(ctx, s), String(ctx, m)) < 0
}

func Greater(ctx context.Context, s, m MatrixLogical[rune]) bool {
	return Less(ctx, m, s)
}

''')
def cerr(t):
    t.cut('ops','func Compare(','func Less(','''func Compare(ctx context.Context, s, m MatrixLogical[rune]) int {
	if ctx.Err() != nil || s.Equal(m) || ctx.Err() != nil {
		return 0
	}
	if less := Less(ctx, s, m); less {
		return -1
	}
	return 1
}

''')
def bless(t): t.sub('sort','graphblas.Compare(ctx, vj, vi) > 0','graphblas.Greater(ctx, vj, vi)',0)
def bflip(t): t.sub('sort','graphblas.Compare(ctx, vj, vi) > 0','graphblas.Compare(ctx, vi, vj) < 0',0)
def bhelper(t):
    t.cut('sort','				for c := 0; c < result.Columns(); c++ {','			}\n		}\n	}\n\n	return result','''				swapRows(result, j, i, vj, vi)
''')
    t.app('sort','''
func swapRows(m graphblas.MatrixRune, j, i int, vj, vi graphblas.VectorLogial[rune]) {
	for c := 0; c < m.Columns(); c++ {
		m.Set(j, c, vi.AtVec(c))
		m.Set(i, c, vj.AtVec(c))
	}
}
''')
def btemp(t):
    t.sub('sort','''					result.Set(j, c, vi.AtVec(c))
					result.Set(i, c, vj.AtVec(c))
''','''					vjc, vic := result.At(j, c), result.At(i, c)
					result.Set(j, c, vic)
					result.Set(i, c, vjc)
''')
    t.sub('sort','''					result.Set(c, j, vi.AtVec(c))
					result.Set(c, i, vj.AtVec(c))
''','''					tmp := result.At(c, j)
					result.Set(c, j, result.At(c, i))
					result.Set(c, i, tmp)
''')
def btwice(t):
    t.sub('sort','''				for c := 0; c < result.Columns(); c++ {
					result.Set(j, c, vi.AtVec(c))
					result.Set(i, c, vj.AtVec(c))
				}
''','''				for c := 0; c < result.Columns(); c++ {
					result.Set(j, c, vi.AtVec(c))
				}
				for c := 0; c < result.Columns(); c++ {
					result.Set(i, c, vj.AtVec(c))
				}
''')
def bcontinue(t):
    t.sub('sort','''			if graphblas.Compare(ctx, vj, vi) > 0 {
				for c := 0; c < result.Columns(); c++ {
					result.Set(j, c, vi.AtVec(c))
					result.Set(i, c, vj.AtVec(c))
				}
			}
''','''			if graphblas.Compare(ctx, vj, vi) <= 0 {
				continue
			}
			for c := result.Columns() - 1; c >= 0; c-- {
				result.Set(j, c, vi.AtVec(c))
				result.Set(i, c, vj.AtVec(c))
			}
''')
def bouter(t):
    t.sub('sort','for j := 0; j < size-1; j++ {','for j := 0; j < size; j++ {',0)
def bhoist(t):
    t.cut('sort','			select {','			vj := result.RowsAt(j)','''			if ctx.Err() != nil {
				return result
			}
''')
def bshared(t):
    t.cut('sort','func BubbleRow','func BubbleColumns','''func BubbleRow(ctx context.Context, a graphblas.MatrixRune) graphblas.MatrixRune {
	result := a.CopyLogical()
	exchange(ctx, a.Rows(), func(i int) graphblas.VectorLogial[rune] { return result.RowsAt(i) }, func(j, i int, vj, vi graphblas.VectorLogial[rune]) {
		for c := 0; c < result.Columns(); c++ {
			result.Set(j, c, vi.AtVec(c))
			result.Set(i, c, vj.AtVec(c))
		}
	})
	return result
}

func exchange(ctx context.Context, size int, at func(i int) graphblas.VectorLogial[rune], swap func(j, i int, vj, vi graphblas.VectorLogial[rune])) {
	for j := 0; j < size-1; j++ {
		for i := j + 1; i < size; i++ {
			select {
			case <-ctx.Done():
				return
			default:
			}
			vj, vi := at(j), at(i)
			if graphblas.Compare(ctx, vj, vi) > 0 {
				swap(j, i, vj, vi)
			}
		}
	}
}

''')
def qreturn(t): t.sub('bfs','			break\n','			return result\n')
def qfor(t):
    t.sub('bfs','	for d < n {','	for d := 0; d < n; d++ {'); t.sub('bfs','		d++\n',''); t.sub('bfs','	// level in BFS traversal\n	d := 0\n','')
def qdown(t):
    t.sub('bfs','	for d < n {','	for d > 0 {'); t.sub('bfs','		d++\n',''); t.sub('bfs','	d := 0','	d := n')
    t.sub('bfs','		result.Clear()\n','		result.Clear()\n		d--\n')
def qfresh(t):
    t.cut('bfs','	// when some','	return result\n}','''	for d < n {
		if ctx.Err() != nil {
			return result
		}
		d++
		next := graphblas.NewDenseVectorN[T](n)
		graphblas.MatrixVectorMultiply[T](ctx, a, frontier, visited, next)
		if c(next) {
			return next
		}
		graphblas.ElementWiseVectorAdd[T](ctx, visited, next, nil, visited)
		frontier = next
	}
''')
def qswap(t):
    t.sub('bfs','		frontier = result.Copy().(graphblas.Vector[T])\n','		frontier, result = result, frontier\n')
    t.sub('bfs','	result := graphblas.NewDenseVectorN[T](n)','	var result graphblas.Vector[T] = graphblas.NewDenseVectorN[T](n)')
def qhelper(t):
    t.sub('bfs','''		graphblas.ElementWiseVectorAdd[T](ctx, visited, result, nil, visited)
		frontier = result.Copy().(graphblas.Vector[T])
		result.Clear()
''','''		frontier = advance[T](ctx, visited, result)
''')
    t.app('bfs','''
func advance[T constraints.Number](ctx context.Context, visited, level graphblas.Vector[T]) graphblas.Vector[T] {
	next := level.Copy().(graphblas.Vector[T])
	graphblas.ElementWiseVectorAdd[T](ctx, visited, level, nil, visited)
	level.Clear()
	return next
}
''')
def qloop(t):
    t.sub('bfs','		graphblas.ElementWiseVectorAdd[T](ctx, visited, result, nil, visited)\n','''		for i := 0; i < n; i++ {
			if v := result.AtVec(i); v != 0 {
				visited.SetVec(i, v)
			}
		}
''')
def qcopy(t):
    t.sub('bfs','		frontier = result.Copy().(graphblas.Vector[T])\n','''		for i := 0; i < n; i++ {
			frontier.SetVec(i, result.AtVec(i))
		}
''')
def qsource(t):
    t.sub('bfs','	visited := frontier.Copy().(graphblas.Vector[T])\n','''	visited := graphblas.NewDenseVectorN[T](n)
	visited.SetVec(s, 1)
''')
def qtest(t):
    t.sub('bfs','''		if c(result) {
			break
		}
''','''		done := c(result)
		if done {
			break
		}
''')
def qmark(t):
    t.sub('bfs','		graphblas.ElementWiseVectorAdd[T](ctx, visited, result, nil, visited)\n','''		for i := 0; i < n; i++ {
			if result.AtVec(i) != 0 {
				visited.SetVec(i, 1)
			}
		}
''')
def qorder(t): t.sub('bfs','(ctx, visited, result, nil, visited)','(ctx, result, visited, nil, visited)')
R={k:v for k,v in list(globals().items()) if callable(v) and k not in("Tree","nostr")}
if len(sys.argv)<3: print(' '.join(R))
else: R[sys.argv[2]](Tree(sys.argv[1]))
