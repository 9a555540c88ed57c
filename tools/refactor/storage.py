"""Behaviour-preserving rewrites of the storage formats (development only).
usage: storage.py <copy of /repo> <name>; without arguments the names"""
import sys
R={}
def rw(name,*edits): R[name]=edits
CSR,CSC,SV,DM,DV='csrMatrix.go','cscMatrix.go','sparseVector.go','denseMatrix.go','denseVector.go'
HAS='''	if s.last >= s.size {
		return false
	}
	return true
'''
for f in (CSR,CSC,SV,DM,DV):
    rw('hasnext-'+f[:-9 if 'Matrix' in f else -9],(f,HAS,'	return s.last < s.size\n'))
for f in (CSR,CSC):
    rw('bounds-helper-'+f[:3],(f,'''	if r < 0 || r >= s.r {
		log.Panicf("Row '%+v' is invalid", r)
	}

	if c < 0 || c >= s.c {
		log.Panicf("Column '%+v' is invalid", c)
	}
''','	s.check(r, c)\n'),(f,None,'''
func (s *%s[T]) check(r, c int) {
	if r < 0 || r >= s.Rows() {
		log.Panicf("Row '%%+v' is invalid", r)
	}
	if c >= s.c || c < 0 {
		log.Panicf("Column '%%+v' is invalid", c)
	}
}
'''%('CSRMatrix' if f==CSR else 'CSCMatrix')))
rw('csr-find',(CSR,'''	pointerStart, pointerEnd := s.columnIndex(r, c)

	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
		value = s.values[pointerStart]
	}

	return
''','''	if p, ok := s.find(r, c); ok {
		return s.values[p]
	}
	return Default[T]()
'''),(CSR,None,'''
func (s *CSRMatrix[T]) find(r, c int) (int, bool) {
	p, end := s.columnIndex(r, c)
	return p, p < end && s.cols[p] == c
}
'''))
rw('csr-bsearch',(CSR,'''	for start < end {
		p := (start + end) / 2
		if s.cols[p] > c {
			end = p
		} else if s.cols[p] < c {
			start = p + 1
		} else {
			return p, end
		}
	}
''','''	for start < end {
		mid := start + (end-start)/2
		switch col := s.cols[mid]; {
		case col == c:
			return mid, end
		case col < c:
			start = mid + 1
		default:
			end = mid
		}
	}
'''))
rw('csr-linear',(CSR,'''	if start-end == 0 {
		return start, end
	}

	if c > s.cols[end-1] {
		return end, end
	}

	for start < end {
		p := (start + end) / 2
		if s.cols[p] > c {
			end = p
		} else if s.cols[p] < c {
			start = p + 1
		} else {
			return p, end
		}
	}

	return start, end
''','''	for start < end && s.cols[start] < c {
		start++
	}

	return start, end
'''))
rw('csr-insert',(CSR,'''	s.cols = append(s.cols[:pointer], append([]int{c}, s.cols[pointer:]...)...)
	s.values = append(s.values[:pointer], append([]T{value}, s.values[pointer:]...)...)

	for i := r + 1; i <= s.r; i++ {
		s.rowStart[i]++
	}
''','''	s.cols = append(s.cols, 0)
	copy(s.cols[pointer+1:], s.cols[pointer:])
	s.cols[pointer] = c
	s.values = append(s.values, value)
	copy(s.values[pointer+1:], s.values[pointer:])
	s.values[pointer] = value

	for i := s.r; i > r; i-- {
		s.rowStart[i]++
	}
'''))
rw('csr-remove',(CSR,'''	s.cols = append(s.cols[:pointer], s.cols[pointer+1:]...)
	s.values = append(s.values[:pointer], s.values[pointer+1:]...)

	for i := r + 1; i <= s.r; i++ {
		s.rowStart[i]--
	}
''','''	n := len(s.values) - 1
	copy(s.cols[pointer:], s.cols[pointer+1:])
	s.cols = s.cols[:n]
	copy(s.values[pointer:], s.values[pointer+1:])
	s.values = s.values[:n]
	s.shift(r, -1)
'''),(CSR,'''	for i := r + 1; i <= s.r; i++ {
		s.rowStart[i]++
	}
''','	s.shift(r, 1)\n'),(CSR,None,'''
func (s *CSRMatrix[T]) shift(r, by int) {
	for i := r + 1; i <= s.r; i++ {
		s.rowStart[i] += by
	}
}
'''))
rw('csr-shift-range',(CSR,'''	for i := r + 1; i <= s.r; i++ {
		s.rowStart[i]++
	}
''','''	following := s.rowStart[r+1:]
	for i := range following {
		following[i]++
	}
'''))
rw('csr-copy',(CSR,'''	for i := range s.values {
		matrix.values[i] = s.values[i]
		matrix.cols[i] = s.cols[i]
	}

	for i := range s.rowStart {
		matrix.rowStart[i] = s.rowStart[i]
	}
''','''	copy(matrix.values, s.values)
	copy(matrix.cols, s.cols)
	copy(matrix.rowStart, s.rowStart)
'''))
rw('csr-copy-append',(CSR,'''	matrix := newCSRMatrix[T](s.r, s.c, len(s.values))

	for i := range s.values {
		matrix.values[i] = s.values[i]
		matrix.cols[i] = s.cols[i]
	}

	for i := range s.rowStart {
		matrix.rowStart[i] = s.rowStart[i]
	}

	return matrix
''','''	return &CSRMatrix[T]{
		r:        s.r,
		c:        s.c,
		values:   append([]T(nil), s.values...),
		cols:     append([]int(nil), s.cols...),
		rowStart: append([]int(nil), s.rowStart...),
	}
'''))
rw('csr-update',(CSR,'''	if pointerStart < pointerEnd && s.cols[pointerStart] == c {
		value := f(s.values[pointerStart])
		if value == Default[T]() {
			s.remove(pointerStart, r)
		} else {
			s.values[pointerStart] = value
		}
		return pointerStart, 0
	} else {
		row := s.insert(pointerStart, r, c, f(Default[T]()))
		return pointerStart, row
	}
''','''	stored := pointerStart < pointerEnd && s.cols[pointerStart] == c
	if !stored {
		return pointerStart, s.insert(pointerStart, r, c, f(Default[T]()))
	}
	if value := f(s.values[pointerStart]); value != Default[T]() {
		s.values[pointerStart] = value
	} else {
		s.remove(pointerStart, r)
	}
	return pointerStart, 0
'''))
rw('csr-columnsat',(CSR,'''	for r := range s.rowStart[:s.r] {
		pointerStart, pointerEnd := s.columnIndex(r, c)
		if pointerStart < pointerEnd && s.cols[pointerStart] == c {
			columns.SetVec(r, s.values[pointerStart])
		}
	}
''','''	for r := 0; r < s.Rows(); r++ {
		if v := s.At(r, c); v != Default[T]() {
			columns.SetVec(r, v)
		}
	}
'''))
rw('csr-rowsat',(CSR,'''	start := s.rowStart[r]
	end := s.rowStart[r+1]

	for i := start; i < end; i++ {
		rows.SetVec(s.cols[i], s.values[i])
	}
''','''	values := s.values[s.rowStart[r]:s.rowStart[r+1]]
	for i, c := range s.cols[s.rowStart[r]:s.rowStart[r+1]] {
		rows.SetVec(c, values[i])
	}
'''))
rw('csr-rowsarray',(CSR,'''	for i := start; i < end; i++ {
		rows[s.cols[i]] = s.values[i]
	}
''','''	for start != end {
		rows[s.cols[start]] = s.values[start]
		start++
	}
'''))
rw('csr-next-simple',(CSR,'''	for s.pointerStart < s.pointerEnd {
		if s.matrix.cols[s.pointerStart] == s.cIndex {
			s.index = s.pointerStart
			s.pointerStart++
			s.c = s.cIndex
			s.cIndex++
			s.last++
			return
		}
		s.cIndex++
	}
''','''	s.index = s.pointerStart
	s.c = s.matrix.cols[s.index]
	s.cIndex = s.c + 1
	s.pointerStart++
	s.last++
'''))
rw('csr-next-advance',(CSR,'''	for s.pointerStart == s.pointerEnd {
		s.r++
		s.pointerStart = s.matrix.rowStart[s.r]
		s.pointerEnd = s.matrix.rowStart[s.r+1]
		s.cIndex = s.matrix.cols[s.pointerStart]
	}

''','	s.advance()\n'),(CSR,None,'''
func (s *cSRMatrixIterator[T]) advance() {
	for s.pointerStart == s.pointerEnd {
		s.r++
		m := s.matrix
		s.pointerStart, s.pointerEnd = m.rowStart[s.r], m.rowStart[s.r+1]
		s.cIndex = m.cols[s.pointerStart]
	}
}
'''))
rw('csr-map',(CSR,'''	if value != Default[T]() {
		s.matrix.values[s.index] = value
	} else {
		s.matrix.remove(s.index, s.r)
		s.pointerStart--
		s.pointerEnd--
		s.last--
		s.size--
	}
''','''	if value == Default[T]() {
		s.matrix.remove(s.index, s.r)
		s.size--
		s.last--
		s.pointerEnd--
		s.pointerStart--
		return
	}
	s.matrix.values[s.index] = value
'''))
rw('csr-new',(CSR,'''	s := &CSRMatrix[T]{
		r:        r,
		c:        c,
		values:   make([]T, l),
		cols:     make([]int, l),
		rowStart: make([]int, r+1),
	}
	return s
''','''	s := new(CSRMatrix[T])
	s.r, s.c = r, c
	s.values = make([]T, l)
	s.cols = make([]int, l)
	s.rowStart = make([]int, r+1)
	return s
'''))
rw('csr-fromarray',(CSR,'''	for i := 0; i < r; i++ {
		for k := 0; k < c; k++ {
			s.Set(i, k, data[i][k])
		}
	}
''','''	for i, row := range data {
		for k := range row[:c] {
			if row[k] != Default[T]() {
				s.Set(i, k, row[k])
			}
		}
	}
'''))
rw('csr-clear',(CSR,'''	s.values = make([]T, 0)
	s.cols = make([]int, 0)
	s.rowStart = make([]int, s.r+1)
''','''	*s = *newCSRMatrix[T](s.r, s.c, 0)
'''))
rw('csr-clear-reuse',(CSR,'''	s.values = make([]T, 0)
	s.cols = make([]int, 0)
	s.rowStart = make([]int, s.r+1)
''','''	s.values = nil
	s.cols = nil
	for i := range s.rowStart {
		s.rowStart[i] = 0
	}
'''))
rw('csr-element',(CSR,'	return s.At(r, c) != Default[T]()\n','''	v := s.At(r, c)
	b = !(v == Default[T]())
	return b
'''))
rw('csr-set',(CSR,'''	s.Update(r, c, func(v T) T {
		return value
	})
''','''	s.UpdateReturnPointer(r, c, func(T) T { return value })
'''))
rw('sv-index',(SV,'''	start := 0
	end := length

	for start < end {
		p := (start + end) / 2
		if s.indices[p] > i {
			end = p
		} else if s.indices[p] < i {
			start = p + 1
		} else {
			return p, length, nil
		}
	}

	return start, length, nil
''','''	low, high := 0, length
	for low != high {
		if p := (low + high) >> 1; s.indices[p] < i {
			low = p + 1
		} else {
			high = p
		}
	}
	return low, length, nil
'''))
rw('sv-update',(SV,'''	v := s.AtVec(r)
	s.SetVec(r, f(v))
''','''	s.SetVec(r, f(s.AtVec(r)))
'''))
rw('sv-setvec',(SV,'''	if pointer < length && s.indices[pointer] == i {
		if IsZero(value) {
			s.remove(pointer)
		} else {
			s.values[pointer] = value
		}
	} else {
		s.insert(pointer, i, value)
	}
''','''	switch found := pointer < length && s.indices[pointer] == i; {
	case !found:
		s.insert(pointer, i, value)
	case IsZero(value):
		s.remove(pointer)
	default:
		s.values[pointer] = value
	}
'''))
rw('sv-copy',(SV,'''	for i := range s.values {
		vector.values[i] = s.values[i]
		vector.indices[i] = s.indices[i]
	}
''','''	copy(vector.values, s.values)
	for i, index := range s.indices {
		vector.indices[i] = index
	}
'''))
rw('sv-remove-clear',(SV,'''	s.values = make([]T, 0)
	s.indices = make([]int, 0)

''','''	s.values, s.indices = s.values[:0:0], s.indices[:0:0]
'''))
rw('dm-copy',(DM,'''			v = s.data[r][c]
			if v != Default[T]() {
				row[c] = v
			} else {
				row[c] = v
			}
''','''			row[c] = s.data[r][c]
'''))
rw('dm-copy-copy',(DM,'''	v := Default[T]()

	matrix := newMatrixNumber[T](s.Rows(), s.Columns(), func(row []T, r int) {
		for c := 0; c < s.Columns(); c++ {
			v = s.data[r][c]
			if v != Default[T]() {
				row[c] = v
			} else {
				row[c] = v
			}
		}
	})

	return matrix
''','''	matrix := newMatrixNumber[T](s.r, s.c, nil)
	for r, row := range s.data {
		copy(matrix.data[r], row)
	}
	return matrix
'''))
rw('dm-backing',(DM,'''	for i := 0; i < r; i++ {
		s.data[i] = make([]T, c)
''','''	backing := make([]T, r*c)
	for i := 0; i < r; i++ {
		s.data[i] = backing[i*c : (i+1)*c : (i+1)*c]
'''))
rw('dm-clear',(DM,'''	s.data = make([][]T, s.r)
	for i := 0; i < s.r; i++ {
		s.data[i] = make([]T, s.c)
	}
''','''	*s = newMatrix[T](s.r, s.c, nil)
'''))
rw('dm-clear-loop',(DM,'''	s.data = make([][]T, s.r)
	for i := 0; i < s.r; i++ {
		s.data[i] = make([]T, s.c)
	}
''','''	fresh := make([][]T, s.r)
	for i := range fresh {
		fresh[i] = make([]T, s.c)
	}
	s.data = fresh
'''))
rw('dm-next',(DM,'''	if s.c == s.matrix.Columns() {
		s.c = 0
		s.r++
	}
	s.cOld = s.c
	s.c++
	s.last++
''','''	if s.c >= s.matrix.c {
		s.r, s.c = s.r+1, 0
	}
	s.cOld, s.c = s.c, s.c+1
	s.last++
'''))
rw('dm-map',(DM,'''	s.matrix.Set(s.r, s.cOld, f(s.r, s.cOld, s.matrix.At(s.r, s.cOld)))
''','''	r, c := s.r, s.cOld
	s.matrix.Update(r, c, func(v T) T { return f(r, c, v) })
'''))
rw('dm-rowsat',(DM,'''	rows := NewDenseVector[T](s.c)

	for i := 0; i < s.c; i++ {
		rows.SetVec(i, s.data[r][i])
	}
''','''	rows := NewDenseVector[T](s.c)

	for i, v := range s.data[r] {
		rows.SetVec(i, v)
	}
'''))
rw('dm-rowsarray',(DM,'''	for i := 0; i < s.c; i++ {
		rows[i] = s.data[r][i]
	}
''','''	copy(rows, s.data[r])
'''))
rw('dm-at',(DM,'''	return s.data[r][c]
}

// Set''','''	row := s.data[r]
	value := row[c]
	return value
}

// Set'''))
# vectors
SVROW='''	rows := make([]T, 1)

	v := s.AtVec(r)
	rows[0] = v

	return rows
'''
RESIZE='''	if size > s.l {
		length := size - s.l
		arr := make([]T, length)
		s.values = append(s.values, arr...)
	} else if size < s.l {
		s.values = append([]T(nil), s.values[:size]...)
	}

	s.l = len(s.values)
	return s.l
'''
rw('dv-resize-copy',(DV,RESIZE,'''	values := make([]T, size)
	copy(values, s.values)
	s.values, s.l = values, size
	return size
'''))
rw('dv-resize-switch',(DV,RESIZE,'''	switch n := size - s.l; {
	case n == 0:
		return s.l
	case n > 0:
		s.values = append(s.values, make([]T, n)...)
	default:
		s.values = append(make([]T, 0, size), s.values[:size]...)
	}
	s.l = size
	return s.l
'''))
rw('dv-resize-loop',(DV,RESIZE,'''	values := make([]T, size)
	for i := 0; i < size && i < s.l; i++ {
		values[i] = s.values[i]
	}
	s.values = values
	s.l = size
	return s.l
'''))
rw('dv-resize-push',(DV,'''		length := size - s.l
		arr := make([]T, length)
		s.values = append(s.values, arr...)
''','''		for i := s.l; i < size; i++ {
			s.values = append(s.values, Default[T]())
		}
'''))
COPYDV='''	for i, v := range s.values {
		if v != Default[T]() {
			vector.SetVec(i, v)
		} else {
			vector.SetVec(i, v)
		}
	}
'''
rw('dv-copy',(DV,COPYDV,'''	copy(vector.values, s.values)
'''))
rw('dv-copy-loop',(DV,COPYDV,'''	for i := 0; i < s.l; i++ {
		vector.values[i] = s.values[i]
	}
'''))
rw('dv-copy-append',(DV,COPYDV,'''	vector.values = append(vector.values[:0], s.values...)
'''))
rw('dv-rowsarray',(DV,SVROW,'''	return []T{s.values[r]}
'''))
rw('dv-rowsat',(DV,'''	rows := NewDenseVector[T](1)

	v := s.AtVec(r)
	rows.SetVec(0, v)

	return rows
''','''	return NewDenseVectorFromArray([]T{s.AtVec(r)})
'''))
rw('dv-update',(DV,'''	v := s.AtVec(r)
	s.SetVec(r, f(v))
''','''	s.values[r] = f(s.values[r])
'''))
rw('dv-clear-loop',(DV,'''	s.values = make([]T, s.l)
''','''	for i := range s.values {
		s.values[i] = Default[T]()
	}
'''))
rw('dv-next',(DV,'''	if s.r == s.matrix.Rows() {
		s.r = 0
		s.c++
	}
	s.rOld = s.r
	s.r++
	s.last++
''','''	s.rOld = s.last
	s.last++
'''))
rw('dv-next-fields',(DV,'''	return s.rOld, 0, s.matrix.AtVec(s.rOld)
''','''	r := s.rOld
	return r, 0, s.matrix.values[r]
'''),(DV,'''	s.matrix.SetVec(s.rOld, f(s.rOld, 0, s.matrix.AtVec(s.rOld)))
''','''	v := &s.matrix.values[s.rOld]
	*v = f(s.rOld, 0, *v)
'''))
rw('dv-new',(DV,'''	v := newDenseVectorType[T](len(data))
	v.values = data
	return v
''','''	return &DenseVector[T]{values: data, l: len(data)}
'''))
rw('dv-bounds',(DV,'''	if r < 0 || r >= s.Rows() {
		log.Panicf("Row '%+v' is invalid", r)
	}

	if c < 0 || c >= s.Columns() {
		log.Panicf("Column '%+v' is invalid", c)
	}
''','''	s.inside(r, c)
'''),(DV,None,'''
func (s *DenseVector[T]) inside(r, c int) {
	if r < 0 || r >= s.l {
		log.Panicf("Row '%+v' is invalid", r)
	}
	if c != 0 {
		log.Panicf("Column '%+v' is invalid", c)
	}
}
'''))
rw('sv-rowsarray',(SV,SVROW,'''	return []T{s.AtVec(r)}
'''))
rw('sv-insert',(SV,'''	s.indices = append(s.indices[:pointer], append([]int{i}, s.indices[pointer:]...)...)
	s.values = append(s.values[:pointer], append([]T{value}, s.values[pointer:]...)...)
''','''	s.indices = append(s.indices, 0)
	copy(s.indices[pointer+1:], s.indices[pointer:])
	s.indices[pointer] = i
	s.values = append(s.values, value)
	copy(s.values[pointer+1:], s.values[pointer:])
	s.values[pointer] = value
'''))
rw('sv-remove',(SV,'''	s.indices = append(s.indices[:pointer], s.indices[pointer+1:]...)
	s.values = append(s.values[:pointer], s.values[pointer+1:]...)
''','''	n := len(s.indices) - 1
	copy(s.indices[pointer:], s.indices[pointer+1:])
	copy(s.values[pointer:], s.values[pointer+1:])
	s.indices, s.values = s.indices[:n], s.values[:n]
'''))
rw('sv-atvec',(SV,'''	if pointer < length && s.indices[pointer] == i {
		return s.values[pointer]
	}

	return Zero[T]()
''','''	if pointer >= length || s.indices[pointer] != i {
		return Zero[T]()
	}
	return s.values[pointer]
'''))
rw('sv-index-linear',(SV,'''	start := 0
	end := length

	for start < end {
		p := (start + end) / 2
		if s.indices[p] > i {
			end = p
		} else if s.indices[p] < i {
			start = p + 1
		} else {
			return p, length, nil
		}
	}

	return start, length, nil
''','''	p := 0
	for p < length && s.indices[p] < i {
		p++
	}
	return p, length, nil
'''))
rw('sv-map',(SV,'''	value := f(s.matrix.indices[s.old], 0, s.matrix.values[s.old])
	if !IsZero(value) {
		s.matrix.values[s.old] = value
	} else {
		s.matrix.remove(s.old)
		s.last--
		s.size--
	}
''','''	m, p := s.matrix, s.old
	value := f(m.indices[p], 0, m.values[p])
	if IsZero(value) {
		m.remove(p)
		s.last, s.size = s.last-1, s.size-1
		return
	}
	m.values[p] = value
'''))
rw('sv-next',(SV,'''	s.old = s.last
	s.last++
''','''	s.last++
	s.old = s.last - 1
'''))
rw('sv-rowsat',(SV,'''	rows := NewSparseVector[T](1)

	v := s.AtVec(r)
	rows.SetVec(0, v)

	return rows
''','''	rows := newSparseVector[T](1, 0)
	if v := s.AtVec(r); !IsZero(v) {
		rows.insert(0, 0, v)
	}
	return rows
'''))
rw('csc-find',(CSC,'''	pointerStart, pointerEnd := s.rowIndex(r, c)

	if pointerStart < pointerEnd && s.rows[pointerStart] == r {
		value = s.values[pointerStart]
	}

	return
''','''	return s.find(r, c)
'''),(CSC,'''		pointerStart, pointerEnd := s.rowIndex(r, c)
		if pointerStart < pointerEnd && s.rows[pointerStart] == r {
			rows[c] = s.values[pointerStart]
		}
''','''		rows[c] = s.find(r, c)
'''),(CSC,None,'''
// find is the element at a position inside
func (s *CSCMatrix[T]) find(r, c int) (value T) {
	if p, end := s.rowIndex(r, c); p < end && s.rows[p] == r {
		value = s.values[p]
	}
	return value
}
'''))
rw('csc-shift-down',(CSC,'''	for i := c + 1; i <= s.c; i++ {
		s.colStart[i]++
	}
''','''	for i := s.c; i > c; i-- {
		s.colStart[i]++
	}
'''))
rw('csc-update-early',(CSC,'''		return pointerStart, 0
	} else {
		zero := Zero[T]()
		col := s.insert(pointerStart, r, c, f(zero))
		return pointerStart, col
	}
''','''		return pointerStart, 0
	}
	return pointerStart, s.insert(pointerStart, r, c, f(Zero[T]()))
'''))
rw('csc-columnsat',(CSC,'''	start := s.colStart[c]
	end := s.colStart[c+1]

	for i := start; i < end; i++ {
		columns.SetVec(s.rows[i], s.values[i])
	}
''','''	from, to := s.colStart[c], s.colStart[c+1]
	columns.indices = append(columns.indices, s.rows[from:to]...)
	columns.values = append(columns.values, s.values[from:to]...)
'''))
rw('csc-rowsat',(CSC,'''	for c := range s.colStart[:s.c] {
		pointerStart, pointerEnd := s.rowIndex(r, c)
		if pointerStart < pointerEnd && s.rows[pointerStart] == r {
			rows.SetVec(c, s.values[pointerStart])
		}
	}
''','''	for c := 0; c < s.c; c++ {
		if v := s.At(r, c); v != Default[T]() {
			rows.SetVec(c, v)
		}
	}
'''))
rw('csc-copy',(CSC,'''	for i := range s.values {
		matrix.values[i] = s.values[i]
		matrix.rows[i] = s.rows[i]
	}

	for i := range s.colStart {
		matrix.colStart[i] = s.colStart[i]
	}
''','''	copy(matrix.colStart, s.colStart)
	copy(matrix.values, s.values)
	copy(matrix.rows, s.rows)
'''))
rw('csc-next',(CSC,'''	for s.pointerStart < s.pointerEnd {
		if s.matrix.rows[s.pointerStart] == s.rIndex {
			s.index = s.pointerStart
			s.pointerStart++
			s.r = s.rIndex
			s.rIndex++
			s.last++
			return
		}
		s.rIndex++
	}
''','''	s.index = s.pointerStart
	s.r = s.matrix.rows[s.index]
	s.pointerStart++
	s.last++
'''))
rw('csc-map',(CSC,'''	if value != Default[T]() {
		s.matrix.values[s.index] = value
	} else {
		s.matrix.remove(s.index, s.c)
		s.pointerStart--
		s.pointerEnd--
		s.last--
		s.size--
	}
''','''	if value == Default[T]() {
		s.removed()
		return
	}
	s.matrix.values[s.index] = value
'''),(CSC,None,'''
func (s *cSCMatrixMap[T]) removed() {
	s.matrix.remove(s.index, s.c)
	s.pointerStart--
	s.pointerEnd--
	s.last--
	s.size--
}
'''))
rw('csc-element',(CSC,'''	return s.At(r, c) != Default[T]()
''','''	b = !IsZero(s.At(r, c))
	return
'''))
# slices that grow element by element
rw('push-dm-rowsarray',(DM,'''	rows := make([]T, s.c)

	for i := 0; i < s.c; i++ {
		rows[i] = s.data[r][i]
	}
''','''	rows := make([]T, 0, s.c)

	for i := 0; i < s.c; i++ {
		rows = append(rows, s.data[r][i])
	}
'''))
rw('push-dm-rowsarray-nil',(DM,'''	rows := make([]T, s.c)

	for i := 0; i < s.c; i++ {
		rows[i] = s.data[r][i]
	}
''','''	var rows []T

	for _, v := range s.data[r] {
		rows = append(rows, v)
	}
'''))
rw('push-csc-rowsarray',(CSC,'''	rows := make([]T, s.c)

	for c := range s.colStart[:s.c] {
		pointerStart, pointerEnd := s.rowIndex(r, c)
		if pointerStart < pointerEnd && s.rows[pointerStart] == r {
			rows[c] = s.values[pointerStart]
		}
	}
''','''	rows := make([]T, 0, s.c)

	for c := range s.colStart[:s.c] {
		pointerStart, pointerEnd := s.rowIndex(r, c)
		v := Default[T]()
		if pointerStart < pointerEnd && s.rows[pointerStart] == r {
			v = s.values[pointerStart]
		}
		rows = append(rows, v)
	}
'''))
rw('push-csc-rowsarray-if',(CSC,'''	rows := make([]T, s.c)

	for c := range s.colStart[:s.c] {
		pointerStart, pointerEnd := s.rowIndex(r, c)
		if pointerStart < pointerEnd && s.rows[pointerStart] == r {
			rows[c] = s.values[pointerStart]
		}
	}
''','''	rows := make([]T, 0, s.c)

	for c := range s.colStart[:s.c] {
		pointerStart, pointerEnd := s.rowIndex(r, c)
		if pointerStart < pointerEnd && s.rows[pointerStart] == r {
			rows = append(rows, s.values[pointerStart])
			continue
		}
		rows = append(rows, Default[T]())
	}
'''))
rw('push-csr-copy',(CSR,'''	matrix := newCSRMatrix[T](s.r, s.c, len(s.values))

	for i := range s.values {
		matrix.values[i] = s.values[i]
		matrix.cols[i] = s.cols[i]
	}

	for i := range s.rowStart {
		matrix.rowStart[i] = s.rowStart[i]
	}
''','''	matrix := &CSRMatrix[T]{r: s.r, c: s.c}

	for i := range s.values {
		matrix.values = append(matrix.values, s.values[i])
		matrix.cols = append(matrix.cols, s.cols[i])
	}

	for _, start := range s.rowStart {
		matrix.rowStart = append(matrix.rowStart, start)
	}
'''))
rw('push-sv-copy',(SV,'''	vector := newSparseVector[T](s.l, len(s.indices))

	for i := range s.values {
		vector.values[i] = s.values[i]
		vector.indices[i] = s.indices[i]
	}
''','''	vector := newSparseVector[T](s.l, 0)

	for i, v := range s.values {
		vector.values = append(vector.values, v)
		vector.indices = append(vector.indices, s.indices[i])
	}
'''))
rw('push-csr-clear',(CSR,'''	s.rowStart = make([]int, s.r+1)
''','''	s.rowStart = s.rowStart[:0]
	for i := 0; i <= s.r; i++ {
		s.rowStart = append(s.rowStart, 0)
	}
'''))
rw('push-dv-new',(DV,'''	return &DenseVector[T]{l: l, values: make([]T, l)}
''','''	s := &DenseVector[T]{l: l}
	for len(s.values) < l {
		s.values = append(s.values, Default[T]())
	}
	return s
'''))
rw('push-dv-copy',(DV,COPYDV,'''	vector.values = vector.values[:0]
	for _, v := range s.values {
		vector.values = append(vector.values, v)
	}
'''))
rw('push-dm-new',(DM,'''	s := DenseMatrix[T]{data: make([][]T, r), r: r, c: c}

	for i := 0; i < r; i++ {
		s.data[i] = make([]T, c)

		if initialise != nil {
			initialise(s.data[i], i)
		}
	}
''','''	s := DenseMatrix[T]{data: make([][]T, 0, r), r: r, c: c}

	for i := 0; i < r; i++ {
		row := make([]T, c)

		if initialise != nil {
			initialise(row, i)
		}

		s.data = append(s.data, row)
	}
'''))
rw('push-dm-new-local',(DM,'''	s := DenseMatrix[T]{data: make([][]T, r), r: r, c: c}

	for i := 0; i < r; i++ {
		s.data[i] = make([]T, c)

		if initialise != nil {
			initialise(s.data[i], i)
		}
	}

	return s
''','''	data := make([][]T, r)

	for i := range data {
		data[i] = make([]T, c)

		if initialise != nil {
			initialise(data[i], i)
		}
	}

	return DenseMatrix[T]{data: data, r: r, c: c}
'''))
if len(sys.argv)<2: print(*R)
else:
    d,n=sys.argv[1:3]
    for f,a,b in R[n]:
        p=d+'/'+f; t=open(p).read()
        if a is None: t+=b
        else:
            assert a in t,(f,a); t=t.replace(a,b)
        open(p,'w').write(t)
