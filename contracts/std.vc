package github.com/abema/go-mp4

// The standard library, as assumed.

opaque reflect.Value RV

extern fmt.Errorf(format, a) (err)
  pure
  ensures err != nil && fresh(err)

extern errors.New(text) (err)
  pure
  ensures err != nil && fresh(err)

extern fmt.Fprint(w, a) (n, err)
  pure

logic fmt1(format string, a any) string
extern fmt.Sprintf(format, a) (s)
  pure
  ensures len(a) == 1 ==> s == fmt1(format, a[0])
