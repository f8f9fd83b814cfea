(ns a
  (:require
    [b]
    [c :refer :all]
    [d :as e :refer [h] :refer-macros [f3]]
    [foo-bar.x-y]
    [foo-bar2.x-y]
    [k :refer :all]
    [myspec :as u]
    [o :as p]
    [q :as r]
    [s])
  (:import
    (foo_bar.x_y Z)
    (foo_bar2.x_y A B C))
  (:require-macros
    [v]
    [w :as x]))

(e/x #'p/x)
(h 3)
(b/x ::k1 ::q/k2 ::u/k3)
#::r{:a 0 :b 1}
(x/a 1)
(f3 1)
