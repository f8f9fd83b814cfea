(doseq [a
          [0 1]
        :let [b
                (inc a)]])

(for [a
        [0 1]
      :let [b
              (inc a)]])
