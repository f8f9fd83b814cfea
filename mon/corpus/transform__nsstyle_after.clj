(ns my-ns
  (:require
    [clojure.string :refer [blank? capitalize ends-with?]]
    [com.example.server])
  (:import
    (java.util Date)))
