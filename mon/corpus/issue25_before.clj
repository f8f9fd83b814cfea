(let [x {:a b
         }

      ]
  blah
  )
