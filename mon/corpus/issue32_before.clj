#_foobar
#=[1 2 #=(println "hi")]
(let [x 3] #! comment
  #^(hello a b c))
