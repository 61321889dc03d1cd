ID="s21-list"; PROP="C21"; PKG="."
NEEDS="a box with a counted octet list of elements wider than a byte whose count runs past its size in a stream that goes on, or a count near 2^32 on a short payload"
BREAKS="a counted list gets its storage at once from the declared count, before a single element has been read: a 16 octet box makes the decoder ask for up to 2^32 elements"
EDITS=[("marshaller.go","""		slice = reflect.MakeSlice(v.Type(), 0, 0)
""","""		capacity := 0
		if fi.length != LengthUnlimited {
			capacity = int(fi.length)
		}
		slice = reflect.MakeSlice(v.Type(), 0, capacity)
""")]
DEMO='''package mp4
import "bytes"
import "runtime"
import "testing"
func TestSeedDemo(t *testing.T) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var d Stts
	if _, err := Unmarshal(bytes.NewReader([]byte{0, 0, 0, 0, 0x04, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 1}), 16, &d, Context{}); err == nil {
		t.Fatal("accepted")
	}
	runtime.ReadMemStats(&b)
	if b.TotalAlloc-a.TotalAlloc > 64<<20 {
		t.Fatal(b.TotalAlloc - a.TotalAlloc)
	}
}
'''
