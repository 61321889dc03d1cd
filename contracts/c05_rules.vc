package github.com/abema/go-mp4

// C05 - the rules of the fields whose width, number or presence depends on other fields or on the context.
// A rule is stated for the fields whose tags refer to it (contracts/layouts.txt, ? and =Field marks).

logic four(b [4]byte, x byte, y byte, z byte, w byte) bool = b[0] == x && b[1] == y && b[2] == z && b[3] == w

func (co64 *Co64).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "ChunkOffset"
  ensures r == uint(co64.EntryCount)

logic colrHas(name string, t [4]byte) bool = four(t, 'n', 'c', 'l', 'x') ? name == "ColourPrimaries" || name == "TransferCharacteristics" || name == "MatrixCoefficients" || name == "FullRangeFlag" || name == "Reserved"
  : four(t, 'r', 'I', 'C', 'C') || four(t, 'p', 'r', 'o', 'f') ? name == "Profile" : name == "Unknown"

func (colr *Colr).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  requires name == "ColourPrimaries" || name == "TransferCharacteristics" || name == "MatrixCoefficients" || name == "FullRangeFlag" || name == "Reserved" || name == "Profile" || name == "Unknown"
  ensures r == colrHas(name, colr.ColourType)

func (ctts *Ctts).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(ctts.EntryCount)

func (elst *Elst).GetFieldSize(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries" && elst.FullBox.Version <= 1
  ensures r == (elst.FullBox.Version == 0 ? uint(96) : uint(160))

func (elst *Elst).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(elst.EntryCount)

func (s HEVCNalu).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "NALUnit"
  ensures r == uint(s.Length)

func (a HEVCNaluArray).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Nalus"
  ensures r == uint(a.NumNalus)

func (hvcc HvcC).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "NaluArrays"
  ensures r == uint(hvcc.NumOfNaluArrays)

func (saio *Saio).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "OffsetV0" || name == "OffsetV1"
  ensures r == uint(saio.EntryCount)

func (saiz *Saiz).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  requires name == "SampleInfoSize"
  ensures r == (saiz.DefaultSampleInfoSize == 0)

func (saiz *Saiz).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "SampleInfoSize"
  ensures r == uint(saiz.SampleCount)

// under the wave box of a QuickTime file the entry is raw data; versions 1 and 2 append 16 and 36 octets
logic waveData(ctx Context) bool = ctx.IsQuickTimeCompatible && ctx.UnderWave

func (ase *AudioSampleEntry).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  ensures [quicktime] name == "QuickTimeData" ==> r == (ctx.IsQuickTimeCompatible && (ctx.UnderWave || ase.EntryVersion == 1 || ase.EntryVersion == 2))
  ensures [usual] name != "QuickTimeData" ==> r == !waveData(ctx)

func (ase *AudioSampleEntry).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "QuickTimeData" && ctx.IsQuickTimeCompatible && (ctx.UnderWave || ase.EntryVersion == 1 || ase.EntryVersion == 2)
  ensures r == (ctx.UnderWave ? uint(0xffffffff) : ase.EntryVersion == 1 ? uint(16) : uint(36))

func (avcc *AVCDecoderConfiguration).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "SequenceParameterSets" || name == "PictureParameterSets" || name == "SequenceParameterSetsExt"
  ensures r == (name == "SequenceParameterSets" ? uint(avcc.NumOfSequenceParameterSets) : name == "PictureParameterSets" ? uint(avcc.NumOfPictureParameterSets) : uint(avcc.NumOfSequenceParameterSetExt))

func (s *AVCParameterSet).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "NALUnit"
  ensures r == uint(s.Length)

func (sbgp *Sbgp).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(sbgp.EntryCount)

func (sgpd *Sgpd).GetFieldSize(name, ctx) (r)
  prop C05
  pure
  requires name == "AlternativeStartupEntries"
  ensures r == 8 * uint(sgpd.DefaultLength)

func (sgpd *Sgpd).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "RollDistances" || name == "RollDistancesL" || name == "AlternativeStartupEntries" || name == "AlternativeStartupEntriesL" || name == "VisualRandomAccessEntries" || name == "VisualRandomAccessEntriesL" || name == "TemporalLevelEntries" || name == "TemporalLevelEntriesL"
  ensures r == uint(sgpd.EntryCount)

// each entry carries its own length when version 1 gives no default
logic ownLengths(ver byte, dflt uint32) bool = ver == 1 && dflt == 0

func (sgpd *Sgpd).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  requires name == "RollDistances" || name == "RollDistancesL" || name == "AlternativeStartupEntries" || name == "AlternativeStartupEntriesL" || name == "VisualRandomAccessEntries" || name == "VisualRandomAccessEntriesL" || name == "TemporalLevelEntries" || name == "TemporalLevelEntriesL" || name == "Unsupported"
  let l = ownLengths(sgpd.FullBox.Version, sgpd.DefaultLength)
  let roll = four(sgpd.GroupingType, 'r', 'o', 'l', 'l') || four(sgpd.GroupingType, 'p', 'r', 'o', 'l')
  let alst = four(sgpd.GroupingType, 'a', 'l', 's', 't')
  let rap = four(sgpd.GroupingType, 'r', 'a', 'p', ' ')
  let tele = four(sgpd.GroupingType, 't', 'e', 'l', 'e')
  ensures [roll] name == "RollDistances" ==> r == (roll && !l)
  ensures [rollOwn] name == "RollDistancesL" ==> r == (roll && l)
  ensures [startup] name == "AlternativeStartupEntries" ==> r == (alst && !l)
  ensures [startupOwn] name == "AlternativeStartupEntriesL" ==> r == (alst && l)
  ensures [random] name == "VisualRandomAccessEntries" ==> r == (rap && !l)
  ensures [randomOwn] name == "VisualRandomAccessEntriesL" ==> r == (rap && l)
  ensures [level] name == "TemporalLevelEntries" ==> r == (tele && !l)
  ensures [levelOwn] name == "TemporalLevelEntriesL" ==> r == (tele && l)
  ensures [other] name == "Unsupported" ==> r == (!roll && !alst && !rap && !tele)

func (entry *AlternativeStartupEntry).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "SampleOffset"
  ensures r == uint(entry.RollCount)

func (entry *AlternativeStartupEntryL).GetFieldSize(name, ctx) (r)
  prop C05
  pure
  requires name == "AlternativeStartupEntry"
  ensures r == 8 * uint(entry.DescriptionLength)

func (sidx *Sidx).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "References"
  ensures r == uint(sidx.ReferenceCount)

func (stco *Stco).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "ChunkOffset"
  ensures r == uint(stco.EntryCount)

func (stsc *Stsc).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(stsc.EntryCount)

func (stss *Stss).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "SampleNumber"
  ensures r == uint(stss.EntryCount)

func (stsz *Stsz).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "EntrySize"
  ensures r == (stsz.SampleSize == 0 ? uint(stsz.SampleCount) : 0)

func (stts *Stts).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(stts.EntryCount)

logic wide(n byte) uint = 8 * (uint(n) + 1)

func (tfra *Tfra).GetFieldSize(name, ctx) (r)
  prop C05
  pure
  requires name == "TrafNumber" || name == "TrunNumber" || name == "SampleNumber" || (name == "Entries" && tfra.FullBox.Version <= 1)
  ensures [traf] name == "TrafNumber" ==> r == wide(tfra.LengthSizeOfTrafNum)
  ensures [trun] name == "TrunNumber" ==> r == wide(tfra.LengthSizeOfTrunNum)
  ensures [sample] name == "SampleNumber" ==> r == wide(tfra.LengthSizeOfSampleNum)
  ensures [entry] name == "Entries" ==> r == (tfra.FullBox.Version == 0 ? uint(64) : uint(128)) + wide(tfra.LengthSizeOfTrafNum) + wide(tfra.LengthSizeOfTrunNum) + wide(tfra.LengthSizeOfSampleNum)

func (tfra *Tfra).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(tfra.NumberOfEntry)

logic word(flags uint32, bit uint32) uint = flags & bit != 0 ? uint(32) : uint(0)

func (trun *Trun).GetFieldSize(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  let f = (uint32(trun.FullBox.Flags[0]) << 16) | (uint32(trun.FullBox.Flags[1]) << 8) | uint32(trun.FullBox.Flags[2])
  ensures r == word(f, 0x100) + word(f, 0x200) + word(f, 0x400) + word(f, 0x800)

func (trun *Trun).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(trun.SampleCount)

func (ds *Descriptor).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Data"
  ensures r == uint(ds.Size)

func (ds *Descriptor).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  requires name == "ESDescriptor" || name == "DecoderConfigDescriptor" || name == "Data"
  ensures [es] name == "ESDescriptor" ==> r == (ds.Tag == 3)
  ensures [decoder] name == "DecoderConfigDescriptor" ==> r == (ds.Tag == 4)
  ensures [data] name == "Data" ==> r == (ds.Tag != 3 && ds.Tag != 4)

func (esds *ESDescriptor).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "URLString"
  ensures r == uint(esds.URLLength)

func (esds *ESDescriptor).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  requires name == "DependsOnESID" || name == "URLLength" || name == "URLString" || name == "OCRESID"
  ensures r == (name == "DependsOnESID" ? esds.StreamDependenceFlag : name == "OCRESID" ? esds.OcrStreamFlag : esds.UrlFlag)

func (pssh *Pssh).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "KIDs" || name == "Data"
  ensures [kids] name == "KIDs" ==> r == uint(pssh.KIDCount)
  ensures [data] name == "Data" ==> r == uint(pssh.DataSize)

func (tenc *Tenc).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  requires name == "DefaultConstantIVSize" || name == "DefaultConstantIV"
  ensures r == (tenc.DefaultIsProtected == 1 && tenc.DefaultPerSampleIVSize == 0)

func (tenc *Tenc).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "DefaultConstantIV"
  ensures r == uint(tenc.DefaultConstantIVSize)

func (k *Keys).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "Entries"
  ensures r == uint(k.EntryCount)

func (k *Key).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "KeyValue"
  ensures r == uint(k.KeySize) - 8

func (dops DOps).IsOptFieldEnabled(name, ctx) (r)
  prop C05
  pure
  requires name == "StreamCount" || name == "CoupledCount" || name == "ChannelMapping"
  ensures r == (dops.ChannelMappingFamily != 0)

func (ops DOps).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "ChannelMapping"
  ensures r == uint(ops.OutputChannelCount)

func (vpcc VpcC).GetFieldLength(name, ctx) (r)
  prop C05
  pure
  requires name == "CodecInitializationData"
  ensures r == uint(vpcc.CodecInitializationDataSize)
