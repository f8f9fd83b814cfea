#:myns{:a 1}
#:x{:foo
      "x"
    "y"
      3}
#::{:xyz
      blah}
#::x{:y :z}
