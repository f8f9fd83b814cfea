(defrecord Foo
  [x y]
  SomeProto
  (some-method [x]
    asdf))
