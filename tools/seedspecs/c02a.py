id="c02-put-index"; prop="C02"
needs="a Type 2 charstring which stores to transient array element 32 (one past the last)"
breaks="cff.Read panics with index out of range"
edits=[("cff/t2decode.go","""				if m < 0 || m >= 32 {
					return nil, errors.New("cff: invalid store index")
				}
				if storage == nil {""","""				if m < 0 || m > 32 {
					return nil, errors.New("cff: invalid store index")
				}
				if storage == nil {""")]
dir="cff"
demo='''package cff
import "testing"
func TestDemo(t *testing.T) {
	info := &decodeInfo{}
	info.decodeCharString([]byte{139 + 1, 139 + 32, 12, 20, 14})
}
'''
