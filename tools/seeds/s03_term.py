ID="s03-terminator-error"; PROP="C03"; PKG="."
NEEDS="a sink that fails exactly on the zero byte that ends a string"
BREAKS="the failure is swallowed and Marshal reports a byte it did not write"
EDITS=[("marshaller.go","	if err := m.writer.WriteBits([]byte{0x00}, 8); err != nil {\n		return err\n	}\n	m.wbits += 8\n	return nil","	_ = m.writer.WriteBits([]byte{0x00}, 8)\n	m.wbits += 8\n	return nil")]
DEMO='''package mp4
import "errors"
import "testing"
type seedSink struct{ left int }
func (s *seedSink) Write(p []byte) (int, error) {
	if len(p) > s.left {
		return 0, errors.New("full")
	}
	s.left -= len(p)
	return len(p), nil
}
func TestSeedDemo(t *testing.T) {
	b := &Hdlr{HandlerType: [4]byte{'v', 'i', 'd', 'e'}, Name: "abc"}
	for n := 0; n < 28; n++ {
		if k, err := Marshal(&seedSink{n}, b, Context{}); err == nil {
			t.Fatal(n, k)
		}
	}
	if k, err := Marshal(&seedSink{28}, b, Context{}); err != nil || k != 28 {
		t.Fatal(k, err)
	}
}
'''
