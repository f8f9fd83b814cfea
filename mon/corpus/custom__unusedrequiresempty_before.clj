(ns a
  (:require [b :refer [c d e]]
            [f :as g])
  (:import (foo.bar Baz)))

(xyz)
(Baz.)
