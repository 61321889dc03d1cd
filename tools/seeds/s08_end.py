ID="s08-end-seek-end"; PROP="C08"
NEEDS="closing a box while the sink holds data beyond the current position (an in-place rewrite)"
BREAKS="EndBox returns to the end of the sink and not to the position it was called at"
EDITS=[("write.go","	if _, err := w.writer.Seek(end, io.SeekStart); err != nil {","	if _, err := w.writer.Seek(0, io.SeekEnd); err != nil {")]
DEMO='''package mp4
import "io"
import "os"
import "path/filepath"
import "testing"
func TestSeedDemo(t *testing.T) {
	f, err := os.Create(filepath.Join(t.TempDir(), "x"))
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	f.Write(make([]byte, 100))
	f.Seek(0, io.SeekStart)
	w := NewWriter(f)
	w.StartBox(&BoxInfo{Type: StrToBoxType("free")})
	w.Write(make([]byte, 4))
	if _, err := w.EndBox(); err != nil {
		t.Fatal(err)
	}
	if p, _ := f.Seek(0, io.SeekCurrent); p != 12 {
		t.Fatal(p)
	}
}
'''
