(def s
  "This is not
a docstring")
