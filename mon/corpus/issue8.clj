(let [a b
      c d]
  foobar)
