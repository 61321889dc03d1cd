ID="s22-inplace"; PROP="C22"; PKG="."
NEEDS="a compressor name that is not printable, printed before the box is used again"
BREAKS="printing a visual sample entry overwrites octets of its compressor name, so writing it afterwards changes the file"
EDITS=[("box_types_iso14496_12.go",'''			return `"` + util.EscapeUnprintables(string(vse.Compressorname[1:vse.Compressorname[0]+1])) + `"`, true''','''			name := vse.Compressorname[1 : vse.Compressorname[0]+1]
			for i, c := range name {
				if c < 0x20 || c == 0x7f {
					name[i] = '.'
				}
			}
			return `"` + util.EscapeUnprintables(string(name)) + `"`, true''')]
DEMO='''package mp4
import "testing"
func TestSeedDemo(t *testing.T) {
	e := &VisualSampleEntry{Compressorname: [32]byte{3, 'a', 9, 'b'}}
	e.SetType(StrToBoxType("avc1"))
	w := e.Compressorname
	if s, err := Stringify(e, Context{}); err != nil || e.Compressorname != w {
		t.Fatal(s, err, e.Compressorname)
	}
}
'''
