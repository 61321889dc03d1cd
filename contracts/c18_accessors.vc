package github.com/abema/go-mp4

// C18 - flag, version and fixed-point accessors.

logic flags24(b *FullBox) uint32 =
    (uint32(b.Flags[0]) << 16) | (uint32(b.Flags[1]) << 8) | uint32(b.Flags[2])

func (box *FullBox).GetVersion() (r)
  prop C18
  inline
  pure
  noalloc
  ensures r == box.Version

func (box *FullBox).SetVersion(version)
  prop C18
  inline
  noalloc
  modifies box.Version
  ensures box.Version == version

func (box *FullBox).GetFlags() (r)
  prop C18
  inline
  pure
  noalloc
  ensures r == flags24(box)

func (box *FullBox).CheckFlag(flag) (r)
  prop C18
  inline
  pure
  noalloc
  ensures r == (flags24(box) & flag != 0)

func (box *FullBox).SetFlags(flags)
  prop C18
  inline
  noalloc
  modifies box.Flags
  ensures flags24(box) == flags & 0xffffff
  ensures box.Version == old(box.Version)

func (box *FullBox).AddFlag(flag)
  prop C18
  inline
  noalloc
  modifies box.Flags
  ensures flags24(box) == old(flags24(box)) | (flag & 0xffffff)
  ensures box.Version == old(box.Version)

func (box *FullBox).RemoveFlag(flag)
  prop C18
  inline
  noalloc
  modifies box.Flags
  ensures flags24(box) == old(flags24(box)) &^ flag
  ensures box.Version == old(box.Version)

// plain boxes have no version and flags
func (box *Box).GetVersion() (r)
  prop C18
  inline
  pure
  noalloc
  ensures r == 0

func (box *Box).GetFlags() (r)
  prop C18
  inline
  pure
  noalloc
  ensures r == 0

func (box *Box).CheckFlag(flag) (r)
  prop C18
  inline
  pure
  noalloc
  ensures r

func (box *Box).SetVersion(version)
  prop C18
  inline
  noalloc
  pure

func (box *Box).SetFlags(flags)
  prop C18
  inline
  noalloc
  pure

func (box *Box).AddFlag(flag)
  prop C18
  inline
  noalloc
  pure

func (box *Box).RemoveFlag(flag)
  prop C18
  inline
  noalloc
  pure

func (box *Cslg).GetCompositionToDTSShift() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == int64(box.CompositionToDTSShiftV0)
  ensures box.Version == 1 ==> r == int64(box.CompositionToDTSShiftV1)

func (box *Cslg).GetLeastDecodeToDisplayDelta() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == int64(box.LeastDecodeToDisplayDeltaV0)
  ensures box.Version == 1 ==> r == int64(box.LeastDecodeToDisplayDeltaV1)

func (box *Cslg).GetGreatestDecodeToDisplayDelta() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == int64(box.GreatestDecodeToDisplayDeltaV0)
  ensures box.Version == 1 ==> r == int64(box.GreatestDecodeToDisplayDeltaV1)

func (box *Cslg).GetCompositionStartTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == int64(box.CompositionStartTimeV0)
  ensures box.Version == 1 ==> r == int64(box.CompositionStartTimeV1)

func (box *Cslg).GetCompositionEndTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == int64(box.CompositionEndTimeV0)
  ensures box.Version == 1 ==> r == int64(box.CompositionEndTimeV1)

func (box *Ctts).GetSampleOffset(index) (r)
  prop C18
  pure
  noalloc
  requires box.Version == 0 ==> index >= 0 && index < len(box.Entries)
  requires box.Version == 1 ==> index >= 0 && index < len(box.Entries)
  ensures box.Version == 0 ==> r == int64(box.Entries[index].SampleOffsetV0)
  ensures box.Version == 1 ==> r == int64(box.Entries[index].SampleOffsetV1)
  ensures box.Version > 1 ==> r == 0

func (box *Elst).GetSegmentDuration(index) (r)
  prop C18
  pure
  noalloc
  requires box.Version == 0 ==> index >= 0 && index < len(box.Entries)
  requires box.Version == 1 ==> index >= 0 && index < len(box.Entries)
  ensures box.Version == 0 ==> r == uint64(box.Entries[index].SegmentDurationV0)
  ensures box.Version == 1 ==> r == uint64(box.Entries[index].SegmentDurationV1)
  ensures box.Version > 1 ==> r == 0

func (box *Elst).GetMediaTime(index) (r)
  prop C18
  pure
  noalloc
  requires box.Version == 0 ==> index >= 0 && index < len(box.Entries)
  requires box.Version == 1 ==> index >= 0 && index < len(box.Entries)
  ensures box.Version == 0 ==> r == int64(box.Entries[index].MediaTimeV0)
  ensures box.Version == 1 ==> r == int64(box.Entries[index].MediaTimeV1)
  ensures box.Version > 1 ==> r == 0

func (box *Mdhd).GetCreationTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.CreationTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.CreationTimeV1)

func (box *Mdhd).GetModificationTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.ModificationTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.ModificationTimeV1)

func (box *Mdhd).GetDuration() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.DurationV0)
  ensures box.Version == 1 ==> r == uint64(box.DurationV1)
  ensures box.Version > 1 ==> r == 0

func (box *Mvhd).GetCreationTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.CreationTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.CreationTimeV1)

func (box *Mvhd).GetModificationTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.ModificationTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.ModificationTimeV1)

func (box *Mvhd).GetDuration() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.DurationV0)
  ensures box.Version == 1 ==> r == uint64(box.DurationV1)

func (box *Tkhd).GetCreationTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.CreationTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.CreationTimeV1)

func (box *Tkhd).GetModificationTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.ModificationTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.ModificationTimeV1)

func (box *Tkhd).GetDuration() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.DurationV0)
  ensures box.Version == 1 ==> r == uint64(box.DurationV1)

func (box *Mehd).GetFragmentDuration() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.FragmentDurationV0)
  ensures box.Version == 1 ==> r == uint64(box.FragmentDurationV1)

func (box *Saio).GetOffset(index) (r)
  prop C18
  pure
  noalloc
  requires box.Version == 0 ==> index >= 0 && index < len(box.OffsetV0)
  requires box.Version == 1 ==> index >= 0 && index < len(box.OffsetV1)
  ensures box.Version == 0 ==> r == uint64(box.OffsetV0[index])
  ensures box.Version == 1 ==> r == uint64(box.OffsetV1[index])

func (box *Sidx).GetEarliestPresentationTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.EarliestPresentationTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.EarliestPresentationTimeV1)

func (box *Sidx).GetFirstOffset() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.FirstOffsetV0)
  ensures box.Version == 1 ==> r == uint64(box.FirstOffsetV1)

func (box *Tfdt).GetBaseMediaDecodeTime() (r)
  prop C18
  pure
  noalloc
  ensures box.Version == 0 ==> r == uint64(box.BaseMediaDecodeTimeV0)
  ensures box.Version == 1 ==> r == uint64(box.BaseMediaDecodeTimeV1)

func (box *Tfra).GetTime(index) (r)
  prop C18
  pure
  noalloc
  requires box.Version == 0 ==> index >= 0 && index < len(box.Entries)
  requires box.Version == 1 ==> index >= 0 && index < len(box.Entries)
  ensures box.Version == 0 ==> r == uint64(box.Entries[index].TimeV0)
  ensures box.Version == 1 ==> r == uint64(box.Entries[index].TimeV1)

func (box *Tfra).GetMoofOffset(index) (r)
  prop C18
  pure
  noalloc
  requires box.Version == 0 ==> index >= 0 && index < len(box.Entries)
  requires box.Version == 1 ==> index >= 0 && index < len(box.Entries)
  ensures box.Version == 0 ==> r == uint64(box.Entries[index].MoofOffsetV0)
  ensures box.Version == 1 ==> r == uint64(box.Entries[index].MoofOffsetV1)

func (box *Trun).GetSampleCompositionTimeOffset(index) (r)
  prop C18
  pure
  noalloc
  requires box.Version == 0 ==> index >= 0 && index < len(box.Entries)
  requires box.Version == 1 ==> index >= 0 && index < len(box.Entries)
  ensures box.Version == 0 ==> r == int64(box.Entries[index].SampleCompositionTimeOffsetV0)
  ensures box.Version == 1 ==> r == int64(box.Entries[index].SampleCompositionTimeOffsetV1)
  ensures box.Version > 1 ==> r == 0

func (box *Mvhd).GetRate() (r)
  prop C18
  pure
  noalloc
  ensures r == float64(box.Rate) / 65536

func (box *Mvhd).GetRateInt() (r)
  prop C18
  pure
  noalloc
  ensures r == int16(box.Rate >> 16)

func (box *AudioSampleEntry).GetSampleRate() (r)
  prop C18
  pure
  noalloc
  ensures r == float64(box.SampleRate) / 65536

func (box *AudioSampleEntry).GetSampleRateInt() (r)
  prop C18
  pure
  noalloc
  ensures r == uint16(box.SampleRate >> 16)

func (box *Tkhd).GetWidth() (r)
  prop C18
  pure
  noalloc
  ensures r == float64(box.Width) / 65536

func (box *Tkhd).GetWidthInt() (r)
  prop C18
  pure
  noalloc
  ensures r == uint16(box.Width >> 16)

func (box *Tkhd).GetHeight() (r)
  prop C18
  pure
  noalloc
  ensures r == float64(box.Height) / 65536

func (box *Tkhd).GetHeightInt() (r)
  prop C18
  pure
  noalloc
  ensures r == uint16(box.Height >> 16)

func (box *Smhd).GetBalance() (r)
  prop C18
  pure
  noalloc
  ensures r == float32(box.Balance) / 256

func (box *Smhd).GetBalanceInt() (r)
  prop C18
  pure
  noalloc
  ensures r == int8(box.Balance >> 8)
