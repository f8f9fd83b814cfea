{:a #foo [1 2 3]
 :b 2
 :c 3}
