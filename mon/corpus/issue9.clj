(foobar
  baz)
