package github.com/abema/go-mp4

// C19 - compatible brands behave as a set.

logic hasBrand(f *Ftyp, x [4]byte) bool =
    exists i int :: 0 <= i && i < len(f.CompatibleBrands) && f.CompatibleBrands[i].CompatibleBrand == x

func (ftyp *Ftyp).HasCompatibleBrand(cb) (r)
  prop C19
  pure
  noalloc
  ensures r == hasBrand(ftyp, cb)
  loop 0
    invariant forall i int :: 0 <= i && i < $k ==> ftyp.CompatibleBrands[i].CompatibleBrand != cb

func (ftyp *Ftyp).AddCompatibleBrand(cb)
  prop C19
  modifies ftyp.CompatibleBrands, elems(ftyp.CompatibleBrands)
  ensures [present] hasBrand(ftyp, cb)
  ensures [noduplicate] old(hasBrand(ftyp, cb)) ==> len(ftyp.CompatibleBrands) == old(len(ftyp.CompatibleBrands))
  ensures [onemore] !old(hasBrand(ftyp, cb)) ==> len(ftyp.CompatibleBrands) == old(len(ftyp.CompatibleBrands)) + 1 && ftyp.CompatibleBrands[old(len(ftyp.CompatibleBrands))].CompatibleBrand == cb
  ensures [others] forall i int :: 0 <= i && i < old(len(ftyp.CompatibleBrands)) ==> ftyp.CompatibleBrands[i].CompatibleBrand == old(ftyp.CompatibleBrands[i].CompatibleBrand)

func (ftyp *Ftyp).RemoveCompatibleBrand(cb)
  prop C19
  modifies ftyp.CompatibleBrands, elems(ftyp.CompatibleBrands)
  ensures [absent] !hasBrand(ftyp, cb)
  ensures [others] forall x [4]byte :: x != cb ==> (hasBrand(ftyp, x) <==> old(hasBrand(ftyp, x)))
  loop 0
    invariant 0 <= i && i <= len(ftyp.CompatibleBrands)
    invariant forall j int :: 0 <= j && j < i ==> ftyp.CompatibleBrands[j].CompatibleBrand != cb
    invariant [kept] forall k int :: 0 <= k && k < old(len(ftyp.CompatibleBrands)) && old(ftyp.CompatibleBrands[k].CompatibleBrand) != cb ==> exists j int :: 0 <= j && j < len(ftyp.CompatibleBrands) && ftyp.CompatibleBrands[j].CompatibleBrand == old(ftyp.CompatibleBrands[k].CompatibleBrand)
    invariant [nothingnew] forall j int :: 0 <= j && j < len(ftyp.CompatibleBrands) ==> exists k int :: 0 <= k && k < old(len(ftyp.CompatibleBrands)) && ftyp.CompatibleBrands[j].CompatibleBrand == old(ftyp.CompatibleBrands[k].CompatibleBrand)
    decreases len(ftyp.CompatibleBrands) - i
