(foobar ; hello
        1
        2
        3)

(foobar-blah-blah-blah ; hello
  1
  2
  3)

(cond ; hello
      (= 1 2)
        foobar)

(cond-blah-blah-blah ; hello
  (= 1 2)
    foobar)
