(-?> a
     b
     (cond->
       "1"
         (foo 1)
       "2"
         (foo 2)
       :default))
