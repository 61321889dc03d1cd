ID="s12-item-number-16bit"; PROP="C12"
NEEDS="an item list box whose numeric type is above 65535 but not above the announced key count, or whose low half is small while the high half is not"
BREAKS="the number of a numbered item is taken from the last two octets of the type only"
EDITS=[("mp4.go","		typeID := int(binary.BigEndian.Uint32(boxType[:]))\n","		typeID := int(binary.BigEndian.Uint16(boxType[2:]))\n		if boxType[0]|boxType[1] >= 0x80 {\n			typeID = 0\n		}\n")]
DEMO='''package mp4
import "testing"
func TestSeedDemo(t *testing.T) {
	ctx := Context{UnderIlst: true, QuickTimeKeysMetaEntryCount: 4}
	if Uint32ToBoxType(0x00020003).IsSupported(ctx) {
		t.Fatal("item number 131075 of 4")
	}
}
'''
