(foo bar

     baz)
