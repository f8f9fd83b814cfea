{:foobar
   2
 :blah
   "three"}
