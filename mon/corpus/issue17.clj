(deftype Foo
  [x]
  IBar
  (foo [x y]
    z))
