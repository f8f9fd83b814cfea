(if foo? "a" "b")
(if-not foo?
  "a"
  "b")
(if-some foo?
  "a"
  "b")
(if-let [x 123]
  456
  789)
