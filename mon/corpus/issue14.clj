(defn foo
  ([a] 1)
  ([a b]
   (if foo
     bar
     baz)))
