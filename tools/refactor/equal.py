"""Behaviour-preserving rewrites of Equal (development only).
usage: equal.py <copy of /repo> <name>"""
import sys
if len(sys.argv)<3:
    print("loops flag break count helper"); sys.exit()
v=sys.argv[2]
p=sys.argv[1]+'/operators.go'; s=open(p).read()
a=s.index("	for iterator.HasNext() {\n		select {\n		case <-ctx.Done():\n			return false\n		default:\n			sR, sC, sV")
b=s.index("	return true\n}", a)
new={
'loops':'''	for r := 0; r < s.Rows(); r++ {
		for c := 0; c < s.Columns(); c++ {
			if s.At(r, c) != m.At(r, c) {
				return false
			}
		}
	}
	_ = iterator
	_ = matrix
''',
'flag':'''	equal := true
	for iterator.HasNext() {
		sR, sC, sV := iterator.Next()
		if matrix.At(sR, sC) != sV {
			equal = false
		}
	}
	if !equal {
		return false
	}
''',
'break':'''	equal := true
	for equal && iterator.HasNext() {
		sR, sC, sV := iterator.Next()
		equal = matrix.At(sR, sC) == sV
	}
	if !equal {
		return false
	}
''',
'count':'''	diff := 0
	for iterator.HasNext() {
		sR, sC, sV := iterator.Next()
		if matrix.At(sR, sC) != sV {
			diff++
		}
	}
	if diff > 0 {
		return false
	}
''',
'helper':'''	if !sameElements(iterator, matrix) {
		return false
	}
'''}[v]
s=s[:a]+new+s[b:]
if v=='helper':
    s+='''
func sameElements[T constraints.Type](iterator Enumerate[T], matrix MatrixLogical[T]) bool {
	for {
		if !iterator.HasNext() {
			return true
		}
		r, c, v := iterator.Next()
		if v == matrix.At(r, c) {
			continue
		}
		return false
	}
}
'''
open(p,'w').write(s)
