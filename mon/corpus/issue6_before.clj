(defn foo
  "Lorem ipsum dolor sit amet, consectetur adipiscing elit.
 Sed malesuada aliquam sem, vitae lacinia neque molestie ut.
Morbi sed eleifend lectus. Morbi facilisis tincidunt felis,

    - foo
    - bar

  a sollicitudin sapien tempus quis."
  [x]
  (inc x))
