ID="s03-count-of-long-list"; PROP="C03"; PKG="."
NEEDS="a byte list that holds more elements than its declared length"
BREAKS="the count returned by Marshal includes elements that were not written"
EDITS=[("marshaller.go","		m.wbits += length * 8\n		return nil","		m.wbits += uint64(v.Len()) * 8\n		return nil")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	b := &Emsg{}
	_ = b
	p := &Pssh{DataSize: 2, Data: []byte{1, 2, 3, 4}}
	var w bytes.Buffer
	n, err := Marshal(&w, p, Context{})
	if err != nil || n != uint64(w.Len()) {
		t.Fatal(n, err, w.Len())
	}
}
'''
