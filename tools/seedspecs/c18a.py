id="c18-pad-error"; prop="C18"
needs="the destination refuses exactly the padding bytes after a table (for instance: it accepts everything up to the final padding, or one transient failure hits a padding write)"
breaks="header.Write ignores the result of padding writes when the destination fails there: a truncated file is reported as a success with a wrong count"
edits=[("header/write.go","""			l, err := w.Write(pad[:4-k])
			totalSize += int64(l)
			if err != nil {
				return totalSize, err
			}
""","""			// table data starts on 4-byte boundaries
			_, _ = w.Write(pad[:4-k])
			totalSize += int64(4 - k)
""")]
dir="header"
demo='''package header
import ("errors";"testing")
type lim struct{ n, got int }
func (l *lim) Write(p []byte) (int, error) {
	k := len(p)
	if l.got+k > l.n { k = l.n - l.got; l.got += k; return k, errors.New("full") }
	l.got += k
	return k, nil
}
func TestDemo(t *testing.T) {
	w := &lim{n: 12 + 16 + 5 + 1}
	n, err := Write(w, ScalerTypeTrueType, map[string][]byte{"aaaa": {1, 2, 3, 4, 5}})
	if err == nil || n != int64(w.got) { t.Fatal(n, w.got, err) }
}
'''
