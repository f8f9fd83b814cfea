(letfn [(twice [x]
          (* x 2))]
  (twice 3))
