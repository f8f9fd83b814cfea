[foo
 bar
 ]
(foo bar
     )
{:foo bar
 }
(foo bar ; asdf
     )
