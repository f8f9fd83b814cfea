(ns foo)


(defn bar [x]
  (aa
    bb


    cc))


(def baz)
(def quux)



; comment
