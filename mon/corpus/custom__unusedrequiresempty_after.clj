(ns a
  (:import
    (foo.bar Baz)))

(xyz)
(Baz.)
