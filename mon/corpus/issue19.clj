(x/let [foo 123]
  bar)
