(ns a
  (:require
    [z]
    [a]))


(defn foo
  [x] (inc x))
