@ ; can have comments here too


; ...and multiple blank lines...
x

^
x

'
x

`
x

@
x

~
x

~@ ; ~ \n @ \n x is read as an unquote, not an unquote splice.
x

#_ ; blah
123
