(let [x 
      123]
  {:a "b",
   :c "d"})
