ID="s03-restart-position"; PROP="C03"; PKG="."
NEEDS="a box with an unsupported version that is decoded after a bit-misaligned or partial read, from a stream position other than that of the first field"
BREAKS="the stream is rewound by the bits consumed, rounded down, from wherever it is"
EDITS=[("marshaller.go","			r.Seek(sn, io.SeekStart)","			r.Seek(sn+int64(u.rbits/8), io.SeekStart)")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	r := bytes.NewReader([]byte{9, 9, 9, 7, 0, 0, 0, 1, 2, 3, 4})
	r.Seek(3, 0)
	_, err := Unmarshal(r, 8, &Mfhd{}, Context{})
	n, _ := r.Seek(0, 1)
	if err != ErrUnsupportedBoxVersion || n != 3 {
		t.Fatal(err, n)
	}
}
'''
