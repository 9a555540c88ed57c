"""Behaviour-preserving rewrites of operators.go, to test that the checks stay quiet (development only).
usage: ops.py <copy of /repo> <name>"""
import re,sys
MASK=re.compile(r'''	if mask == nil \{
		mask = NewEmptyMask\(matrix.Rows\(\), matrix.Columns\(\)\)
	\}

	if mask.Rows\(\) != matrix.Rows\(\) \{
		log.Panicf\("Can not apply mask found rows mismatch %\+v, %\+v", mask.Rows\(\), matrix.Rows\(\)\)
	\}

	if mask.Columns\(\) != matrix.Columns\(\) \{
		log.Panicf\("Can not apply mask found columns mismatch %\+v, %\+v", mask.Columns\(\), matrix.Columns\(\)\)
	\}
''')
def maskhelper(s):
    s,n=MASK.subn("	mask = maskFor(mask, matrix.Rows(), matrix.Columns())\n",s); assert n>=6
    return s+'''
func maskFor(mask Mask, rows, columns int) Mask {
	if mask == nil {
		return NewEmptyMask(rows, columns)
	}
	switch {
	case mask.Rows() != rows:
		log.Panicf("Can not apply mask found rows mismatch %+v, %+v", mask.Rows(), rows)
	case mask.Columns() != columns:
		log.Panicf("Can not apply mask found columns mismatch %+v, %+v", mask.Columns(), columns)
	}
	return mask
}
'''
def each(s):
    # closure helper
    s,n=re.subn(r'''for iterator := (\w+)\.Enumerate\(\); iterator\.HasNext\(\); \{
		select \{
		case <-ctx\.Done\(\):
			return
		default:
			r, c, (\w+) := iterator\.Next\(\)
((?:.*\n)*?)		\}
	\}
''',lambda m:"each[T](ctx, %s, func(r, c int, %s T) {\n%s	})\n"%(m[1],m[2],m[3]),s); assert n>=4,n
    return s+'''
func each[T constraints.Type](ctx context.Context, s MatrixLogical[T], f func(r, c int, value T)) {
	for it := s.Enumerate(); it.HasNext(); {
		select {
		case <-ctx.Done():
			return
		default:
			f(it.Next())
		}
	}
}
'''
def forloop(s):
    s,tail=s[:s.index("// ReduceMatrixToVector perform")],s[s.index("// ReduceMatrixToVector perform"):]
    s,n=re.subn(r'''(\t+)for iterator := (.*); iterator\.HasNext\(\); \{\n''',lambda m:"%siterator := %s\n%sfor {\n%s	if !iterator.HasNext() {\n%s		break\n%s	}\n"%(m[1],m[2],m[1],m[1],m[1],m[1]),s)
    assert n>8
    # two loops in one function: rename with blocks
    i=[0]
    out=[];
    for part in re.split(r'(?=^func )',s,flags=re.M):
        k=[0]
        def ren(m):
            k[0]+=1; return m[0]
        parts=re.split(r'(?=^\t+iterator := )',part,flags=re.M)
        for j,p in enumerate(parts):
            if j>0: p=re.sub(r'\biterator\b','it%d'%j,p)
            parts[j]=p
        out.append(''.join(parts))
    s=''.join(out)
    return s+tail
def contin(s):
    s,n=re.subn(r'''(\t+)if !mask\.Element\((\w), (\w)\) \{\n((?:.*\n)*?)\1\}\n''',lambda m:"%sif mask.Element(%s, %s) {\n%s	continue\n%s}\n%s"%(m[1],m[2],m[3],m[1],m[1],re.sub('(?m)^\t','',m[4])) if 'return' not in m[4] else m[0],s)
    assert n>5; return s
def err(s):
    s,n=re.subn(r'''(\t+)select \{
\t+case <-ctx\.Done\(\):
\t+return
\t+default:
((?:.*\n)*?)\1\}\n''',lambda m:"%sif ctx.Err() != nil {\n%s	return\n%s}\n%s"%(m[1],m[1],m[1],re.sub('(?m)^\t','',m[2])),s); assert n>5,n
    return s
def dot(s):
    a=s.index("			sum := Default[T]()"); b=s.index("			if !mask.Element(r, c) {\n				matrix.Set(r, c, sum)")
    s=s[:a]+'''			if sum, ok := dot[T](ctx, rows, column); !ok {
				return
			} else if !mask.Element(r, c) {
				matrix.Set(r, c, sum)
			}
'''+s[s.index("			}\n",b)+5:]
    return s+'''
func dot[T constraints.Number](ctx context.Context, a, b VectorLogial[T]) (sum T, ok bool) {
	for i, n := 0, a.Length(); i < n; i++ {
		if ctx.Err() != nil {
			return sum, false
		}
		sum = sum + a.AtVec(i)*b.AtVec(i)
	}
	return sum, true
}
'''
def transposedloops(s):
    # columns first
    a=s.index("	for r := 0; r < s.Rows(); r++ {\n		rows :="); b=s.index("// MatrixMatrixMultiply multiplies")
    return s[:a]+'''	for c := m.Columns() - 1; c >= 0; c-- {
		column := m.ColumnsAt(c)
		for r := 0; r < s.Rows(); r++ {
			if mask.Element(r, c) {
				continue
			}
			row := s.RowsAt(r)
			var sum T
			l := 0
			for l < column.Length() {
				if ctx.Err() != nil {
					return
				}
				sum += row.AtVec(l) * column.AtVec(l)
				l++
			}
			matrix.Set(r, c, sum)
		}
	}
}

'''+s[b:]
def swaploops(s):
    # elementWiseAdd: helper putting values
    a=s.index("	if s != matrix {\n		for iterator := s.Enumerate()"); b=s.index("// ElementWiseMatrixAdd Element-wise")
    return s[:a]+'''	zero := Default[T]()
	if s != matrix {
		it := s.Enumerate()
		for it.HasNext() {
			if ctx.Err() != nil {
				return
			}
			r, c, v := it.Next()
			if v == zero || mask.Element(r, c) {
				continue
			}
			if m == matrix && m.At(r, c) != zero {
				continue
			}
			matrix.Set(r, c, v)
		}
	}
	if m == matrix {
		return
	}
	it := m.Enumerate()
	for it.HasNext() {
		if ctx.Err() != nil {
			return
		}
		if r, c, v := it.Next(); v != zero && !mask.Element(r, c) {
			matrix.Set(r, c, v)
		}
	}
}

'''+s[b:]
def addindex(s):
    # Add by coordinates
    a=s.index("	for iterator := s.Enumerate(); iterator.HasNext(); {",s.index("func Add[")); b=s.index("func elementWiseAdd")
    return s[:a]+'''	rows, columns := s.Rows(), s.Columns()
	for i := 0; i < rows*columns; i++ {
		select {
		case <-ctx.Done():
			return
		default:
		}
		r, c := i/columns, i%columns
		if !mask.Element(r, c) {
			matrix.Set(r, c, s.At(r, c)+m.At(r, c))
		}
	}
}

'''+s[b:]
def addindex2(s):
    a=s.index("	for iterator := s.Enumerate(); iterator.HasNext(); {",s.index("func Add[")); b=s.index("func elementWiseAdd")
    return s[:a]+'''	for r := 0; r < s.Rows(); r++ {
		for c := 0; c < s.Columns(); c++ {
			select {
			case <-ctx.Done():
				return
			default:
			}
			if !mask.Element(r, c) {
				matrix.Set(r, c, s.At(r, c)+m.At(r, c))
			}
		}
	}
}

'''+s[b:]
def shapehelper(s):
    s,n=re.subn(r'''	if (\w)\.Columns\(\) != (\w)\.Columns\(\) \{
		log\.Panicf.*
	\}

	if \1\.Rows\(\) != \2\.Rows\(\) \{
		log\.Panicf.*
	\}
''',r'''	sameShape[T](\1, \2)
''',s); assert n==2,n
    return s+'''
func sameShape[T constraints.Number](a, b Matrix[T]) {
	if !(a.Columns() == b.Columns() && a.Rows() == b.Rows()) {
		log.Panicf("shape mismatch %+v by %+v, %+v by %+v", a.Rows(), a.Columns(), b.Rows(), b.Columns())
	}
}
'''
def combine(s):
    # Add and Subtract share a body with a function parameter
    def bodyof(name):
        a=s.index("func %s["%name); a2=s.index("{\n",a)+2; b=s.index("\n}\n",a2)+1
        return a,a2,b
    a,a2,b=bodyof("Subtract")
    body=s[a2:b]
    gen=body.replace("value-m.At(r, c)","f(value, m.At(r, c))").replace("-value","f(Default[T](), value)")
    s=s[:a2]+"	combine(ctx, s, m, mask, matrix, func(a, b T) T { return a - b })\n"+s[b:]
    a,a2,b=bodyof("Add")
    s=s[:a2]+"	combine(ctx, s, m, mask, matrix, func(a, b T) T { return a + b })\n"+s[b:]
    return s+'''
func combine[T constraints.Number](ctx context.Context, s, m Matrix[T], mask Mask, matrix Matrix[T], f func(a, b T) T) {
'''+gen+"}\n"
def mapcopy(s):
    # Negative in place via a copy
    a=s.index("	for iterator := matrix.Map(); iterator.HasNext(); {",s.index("func Negative[")); b=s.index("// Transpose swaps")
    return s[:a]+'''	for iterator := s.Copy().Enumerate(); iterator.HasNext(); {
		select {
		case <-ctx.Done():
			return
		default:
			if r, c, value := iterator.Next(); !mask.Element(r, c) {
				matrix.Set(r, c, -value)
			}
		}
	}
}

'''+s[b:]
def mapfn(s):
    # named closures, hoisted out of the loop
    s,n=re.subn(r'''(\t+)for iterator := (\w+)\.Map\(\); iterator\.HasNext\(\); \{
((?:.*\n)*?)\t+iterator\.Map\(func\((.*?)\) T \{\n((?:.*\n)*?)\t+\}\)\n''',lambda m:"%sf := func(%s) T {\n%s%s}\n%sfor iterator := %s.Map(); iterator.HasNext(); {\n%s%s			iterator.Map(f)\n"%(m[1],m[4],m[5],m[1],m[1],m[2],m[3],m[1]),s); assert n>=3,n
    return s
def deferlog(s):
    # a counter and a no-op statement
    s=re.sub(r'(func (?:Add|Subtract|Negative|Transpose|multiply|elementWiseAdd|elementWiseMultiply|Apply)\[.*\{\n)',r'\1	visited := 0\n	defer func() { _ = visited }()\n',s)
    t=s.index("// ReduceMatrixToVector perform")
    s=re.sub(r'(\t+)(r, c, \w+ := iterator\.Next\(\)\n)',r'\1visited++\n\1\2',s[:t])+s[t:]
    return s
def earlycopy(s):
    s=s.replace('''	if s == matrix {
		s = s.Copy()
	}
	if m == matrix {
		m = m.Copy()
	}
''','''	left, right := s, m
	if matrix == left {
		left = left.Copy()
	}
	if matrix == right {
		right = right.Copy()
	}
	s, m = left, right
''')
    return s
def source(s):
    s=s.replace('''	var iterator Enumerate[T]
	var source Matrix[T]
	if IsSparseMatrix[T](s) {
		iterator = s.Enumerate()
		source = m
	} else {
		iterator = m.Enumerate()
		source = s
	}

	for iterator.HasNext() {''','''	walk, source := m, s
	if IsSparseMatrix[T](s) {
		walk, source = s, m
	}
	iterator := walk.Enumerate()
	for iterator.HasNext() {''')
    return s
def trresult(s):
    a=s.index("	matrix := NewCSRMatrix[T](s.Columns(), s.Rows())\n"); b=s.index("// TransposeToCSC")
    return s[:a]+'''	result := NewCSRMatrix[T](s.Columns(), s.Rows())
	for it := s.Enumerate(); it.HasNext(); {
		if ctx.Err() != nil {
			break
		}
		row, column, v := it.Next()
		result.Set(column, row, v)
	}
	return result
}

'''+s[b:]
R={k:v for k,v in globals().items() if callable(v) and not k.startswith('_') and k not in('MASK',)}
if __name__=='__main__':
    if len(sys.argv)<2: print(' '.join(R)); sys.exit()
    p=sys.argv[1]+'/operators.go'
    s=open(p).read(); t=R[sys.argv[2]](s); assert s!=t
    open(p,'w').write(t)
