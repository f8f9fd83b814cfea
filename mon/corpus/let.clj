(let [; hello
      a b
      c d]
  foobar)
