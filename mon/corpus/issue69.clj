(condp some [1 2 3 4]
  #{0 6 7}
    :>> inc
  #{4 5 9} :>> dec
  #{1 2 3}
    :>>
    #(+ % 3))
