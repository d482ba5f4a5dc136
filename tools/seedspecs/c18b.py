id="c18-count-partial"; prop="C18"
needs="a destination which accepts part of a table body before failing"
breaks="the byte count returned with an error omits the bytes of the partially accepted table"
edits=[("header/write.go","""		n, err := w.Write(body)
		totalSize += int64(n)
		if err != nil {
			return totalSize, err
		}
		if k""","""		n, err := w.Write(body)
		if err != nil {
			return totalSize, err
		}
		totalSize += int64(n)
		if k""")]
dir="header"
demo='''package header
import ("errors";"testing")
type lim struct{ n, got int }
func (l *lim) Write(p []byte) (int, error) {
	k := len(p)
	if l.got+k > l.n { k = l.n - l.got; l.got += k; return k, errors.New("full") }
	l.got += k
	return k, nil
}
func TestDemo(t *testing.T) {
	w := &lim{n: 12 + 16 + 2}
	n, err := Write(w, ScalerTypeTrueType, map[string][]byte{"aaaa": {1, 2, 3, 4, 5}})
	if err == nil || n != int64(w.got) { t.Fatal(n, w.got, err) }
}
'''
