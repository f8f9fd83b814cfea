; foo bar
\newline nil ; baz
(foobar a/b$c @x true false)
'this `(is a) ~test ~@splicing ~@(foo bar)
:asdf {:a 1, :b 2} ^{:c 3 :d [4 5]}
#(foo #_(a b c) (get % ["foo" "bar"]))
#"as+df$" #{1 2 3}
#'asdf \a \b \c \newline \} \{ \
\u2603 \o123
% %1 %blah
